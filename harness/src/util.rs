//! Random choices, concrete values for the specification's tokens, comparison of documents.
use bsp_types::Url;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(parts: &[&dyn ToString]) -> Rng {
        let mut h = DefaultHasher::new();
        for p in parts {
            p.to_string().hash(&mut h);
        }
        Rng(h.finish() | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

const STRINGS: &[&str] = &[
    "", " ", "a", "A", "name", "0", "1", "-1", "01", "1.0", "null", "true", "é", "日本語", "😀", "\u{0}",
    "\u{1}", "\t", "\n", "\r\n", "\r\n\r\n", "\"", "\\", "/", "//", "a/b", "a\\b", "'", "\u{7f}", "\u{80}",
    "\u{2028}", "\u{feff}", "\u{fffd}", "\u{10ffff}", "$", "%20", "%", "a b", " lead", "trail ", "{}", "[]", "{\"id\":1}",
    "Content-Length: 2\r\n\r\n{}", "id", "method", "params", "build/exit", "build/shutdown", "compile-task",
    "CamelCase", "snake_case", "kebab-case", "UPPER", "2147483648", "file:///tmp", "test", "manual", "none", "None",
    "library", "no-ide", "ab", "abc", "e\u{301}", "ß", "İ", "a\u{0}b", "\u{202e}", "ok", "error",
];

pub fn string(r: &mut Rng, mode: u64) -> String {
    match mode % 4 {
        0 => format!("s{}", r.below(1000)),
        1 => (*r.pick(STRINGS)).to_owned(),
        2 => {
            let n = r.below(12);
            (0..n)
                .map(|_| match r.below(8) {
                    0 => *r.pick(&['é', '日', '😀', '\u{2028}', '\u{0}', '\u{1f}', 'ÿ', '\u{7ff}', '\u{800}', '\u{ffff}']),
                    1 => *r.pick(&['"', '\\', '/', '\n', '\r', '\t', ' ', '{', '}', ':', ',']),
                    2 => (b'0' + r.below(10) as u8) as char,
                    _ => (b'a' + r.below(26) as u8) as char,
                })
                .collect()
        }
        _ => {
            let unit = *r.pick(&["x", "é", "日", "😀", "\\", "\"", "ab "]);
            if r.chance(12) {
                let n = *r.pick(&[4095, 4096, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 70000, 140000]);
                unit.repeat(n / unit.len() + 1)
            } else {
                let n = *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025]);
                if r.chance(2) {
                    "y".repeat(n)
                } else {
                    unit.repeat(n / unit.len() + 1)
                }
            }
        }
    }
}

const URLS: &[&str] = &[
    "file:///", "file:///tmp", "file:///tmp/a", "file:///tmp/a/", "file:///tmp/a%20b", "file:///C:/x/y", "file:///tmp/%E6%97%A5",
    "file:///tmp/a?q=1", "file:///tmp/a#frag", "file:///tmp/a?x#y", "file://host/share/x", "bsp:target", "bsp://workspace/t?id=1",
    "http://example.com/", "https://user:pw@example.com:8080/p/q?q=1&r=%2F#f", "mvn:a:b:1.0", "urn:isbn:1", "x:", "x:y z",
    "untitled:Untitled-1", "file:///tmp/%25", "file:///tmp/+x", "file:///tmp/a;b=c", "file:///tmp/A/B", "http://[::1]:99/",
    "ftp://h/%7Euser/", "file:///tmp/a%2Fb", "data:,x", "jar:file:///a.jar!/b", "http://example.com/?a=b", "bsp:?", "bsp:#f", "bsp:/a", "bsp:a%20b",
];

pub fn url(r: &mut Rng, mode: u64) -> String {
    loop {
        let s = match mode % 4 {
            0 => format!("file:///w/p{}", r.below(1000)),
            1 => (*r.pick(URLS)).to_owned(),
            2 => format!("{}{}", r.pick(&["file:///tmp/", "bsp:", "http://h/"]), r.below(1 << 30)),
            _ => format!("file:///{}", "d/".repeat(*r.pick(&[1, 50, 200, 1000]))),
        };
        if Url::parse(&s).map_or(false, |u| u.as_str() == s) {
            return s;
        }
    }
}

pub fn i32_(r: &mut Rng, mode: u64) -> i64 {
    match mode % 4 {
        0 => r.below(1000) as i64,
        1 | 3 => *r.pick(&[0, 1, -1, 2, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 99999, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, -32768, -128]),
        _ => r.next() as i32 as i64,
    }
}

pub fn u32_(r: &mut Rng, mode: u64) -> u64 {
    match mode % 4 {
        0 => r.below(1000) as u64,
        1 | 3 => *r.pick(&[0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, i32::MAX as u64, i32::MAX as u64 + 1, u32::MAX as u64]),
        _ => r.next() as u32 as u64,
    }
}

pub fn u64_(r: &mut Rng, mode: u64) -> u64 {
    match mode % 4 {
        0 => r.below(1000) as u64,
        1 | 3 => *r.pick(&[
            0, 1, 2, 3, 127, 255, 256, 65535, 65536, i32::MAX as u64, i32::MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1,
            1_650_000_000_000, 1_650_000_000_001, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, 253_402_300_799_999,
        ]),
        _ => r.next(),
    }
}

pub fn json(r: &mut Rng, mode: u64, depth: usize) -> Value {
    let m = mode % 4;
    if depth == 0 && m == 0 {
        return json!({ "n": r.below(1000) });
    }
    if depth == 0 && m == 3 {
        return match r.below(5) {
            0 => Value::Array((0..*r.pick(&[100, 1000])).map(Value::from).collect()),
            1 => Value::Object((0..*r.pick(&[10, 300])).map(|i| (format!("k{i}"), json!([i]))).collect()),
            2 => (0..*r.pick(&[40, 100])).fold(json!(null), |v, i| if i % 2 == 0 { json!([v]) } else { json!({ "d": v }) }),
            3 => json!(string(r, 3)),
            _ => json!([[], {}, [[]], [null], {"": null}, "", 0, false, null, 0]),
        };
    }
    if depth < 3 && r.chance(3) {
        if r.chance(2) {
            return Value::Array((0..r.below(4)).map(|_| json_or_null(r, mode, depth + 1)).collect());
        }
        return Value::Object(
            (0..r.below(4))
                .map(|_| {
                    let k = match r.below(4) {
                        0 => (*r.pick(&["id", "method", "params", "result", "error", "jsonrpc", "data", "code", "message"])).to_owned(),
                        1 => string(r, 1),
                        _ => string(r, 0),
                    };
                    (k, json_or_null(r, mode, depth + 1))
                })
                .collect(),
        );
    }
    match r.below(12) {
        0 => json!(false),
        1 => json!(true),
        2 => json!(0),
        3 => json!(""),
        4 => json!([]),
        5 => json!({}),
        6 => r.pick(&[json!(u64::MAX), json!(i64::MIN), json!(i64::MAX), json!((1u64 << 53) + 1), json!(-1), json!(1)]).clone(),
        7 => r.pick(&[json!(0.5), json!(-2.25), json!(1e10), json!(-0.5), json!(1.0), json!(3.0e20)]).clone(),
        8 => json!(i32_(r, mode)),
        _ => json!(string(r, if mode % 4 == 3 { 1 } else { mode })),
    }
}

fn json_or_null(r: &mut Rng, mode: u64, depth: usize) -> Value {
    if r.chance(6) {
        Value::Null
    } else {
        json(r, mode, depth)
    }
}

pub const REQUEST_METHODS: &[&str] = &[
    "build/initialize", "build/shutdown", "workspace/buildTargets", "workspace/reload", "buildTarget/dependencyModules", "debugSession/start",
    "buildTarget/sources", "buildTarget/inverseSources", "buildTarget/dependencySources", "buildTarget/resources", "buildTarget/run",
    "buildTarget/compile", "buildTarget/test", "buildTarget/cleanCache",
];
pub const NOTIFICATION_METHODS: &[&str] = &[
    "build/exit", "build/initialized", "build/showMessage", "build/logMessage", "build/publishDiagnostics", "build/taskStart",
    "build/taskFinish", "build/taskProgress", "buildTarget/didChange",
];

pub fn custom_method(r: &mut Rng, mode: u64) -> String {
    loop {
        let m = match mode % 4 {
            0 => format!("custom/m{}", r.below(1000)),
            1 => {
                let known = if r.chance(2) { *r.pick(REQUEST_METHODS) } else { *r.pick(NOTIFICATION_METHODS) };
                match r.below(8) {
                    0 => known.to_uppercase(),
                    1 => known.to_lowercase(),
                    2 => format!("{known} "),
                    3 => format!(" {known}"),
                    4 => known[..known.len() - 1].to_owned(),
                    5 => format!("{known}s"),
                    6 => format!("{known}/x"),
                    _ => known.replace('/', "."),
                }
            }
            2 => (*r.pick(&["", "$/cancelRequest", "buildTarget/outputPaths", "workspace/didChange", "buildTarget/scalacOptions", "x", "日本/語", "build/", "/", "cargo/\"q\"", "build\\initialize", "\u{0}", "build/exit\n", "exit", "initialize", "initialized", "shutdown", "$/exit", "build/Exit"])).to_owned(),
            _ => string(r, mode),
        };
        if !REQUEST_METHODS.contains(&m.as_str()) && !NOTIFICATION_METHODS.contains(&m.as_str()) && !m.starts_with('$') || m.starts_with("$/") {
            return m;
        }
    }
}

fn string_array(r: &mut Rng, mode: u64) -> Value {
    let n = match mode % 4 {
        0 => 2,
        1 => r.below(6),
        2 => r.below(3),
        _ => *r.pick(&[0, 1, 31, 32, 33, 100, 257]),
    };
    let m = if mode % 4 == 3 { 0 } else { mode };
    let mut v: Vec<String> = (0..n).map(|_| string(r, m)).collect();
    if n > 1 && r.chance(2) {
        let (i, j) = (r.below(n), r.below(n));
        v[i] = v[j].clone();
    }
    json!(v)
}

/// The concrete value of a token, the same for the same token and salt.  Now and then all tokens are equal.
pub fn token(class: u8, tok: &str, salt: u64) -> Value {
    let equal = salt % 1000 % 6 == 5;
    let mut r = Rng::new(&[&(if equal { "equal" } else { tok }), &salt]);
    let mode = match salt % 5 {
        _ if equal => r.next() >> 7,
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => r.next() >> 7,
    };
    match class {
        b'S' => json!(string(&mut r, mode)),
        b'N' => loop {
            let s = string(&mut r, mode);
            if !s.is_empty() {
                break json!(s);
            }
        },
        b'U' => json!(url(&mut r, mode)),
        b'J' => json(&mut r, mode, 0),
        b'I' => json!(i32_(&mut r, mode)),
        b'V' => json!(u32_(&mut r, mode)),
        b'W' => json!(u64_(&mut r, mode)),
        b'K' => {
            if r.chance(2) {
                json!(i32_(&mut r, mode))
            } else {
                json!(string(&mut r, mode))
            }
        }
        b'M' => json!(custom_method(&mut r, mode)),
        b'L' => string_array(&mut r, mode),
        b'P' => loop {
            let v = string_array(&mut r, mode);
            if v != json!([]) {
                break v;
            }
        },
        c => panic!("token class {}", c as char),
    }
}

/// Replaces every token in a document's text.
pub fn concretise(text: &str, salt: u64) -> String {
    let b = text.as_bytes();
    let mut out = String::with_capacity(text.len());
    let mut last = 0;
    let mut i = 0;
    while i + 3 < b.len() {
        if b[i] == b'"' && b[i + 1] == b'$' && b[i + 2].is_ascii_uppercase() && b[i + 3] == b':' {
            let end = i + 1 + text[i + 1..].find('"').unwrap();
            out.push_str(&text[last..i]);
            out.push_str(&token(b[i + 2], &text[i + 1..end], salt).to_string());
            i = end + 1;
            last = i;
        } else {
            i += 1;
        }
    }
    out.push_str(&text[last..]);
    out
}

/// Another text of the same document: white space, escapes.
pub fn restyle(text: &str, r: &mut Rng) -> String {
    let style = r.below(4);
    if style == 0 {
        return text.to_owned();
    }
    let ws = |r: &mut Rng, out: &mut String| {
        if style >= 2 && r.chance(3) {
            out.push_str(*r.pick(&[" ", "\n", "\t", "\r\n", "  "]));
        }
    };
    let mut out = String::with_capacity(text.len() * 2);
    let mut in_str = false;
    let mut esc = false;
    let mut hex = 0;
    ws(r, &mut out);
    for c in text.chars() {
        if in_str {
            if hex > 0 {
                hex -= 1;
                out.push(c);
            } else if esc {
                esc = false;
                if c == 'u' {
                    hex = 4;
                }
                out.push(c);
            } else if c == '\\' {
                esc = true;
                out.push(c);
            } else if c == '"' {
                in_str = false;
                out.push(c);
                ws(r, &mut out);
            } else if style != 2 && (r.chance(4) || !c.is_ascii()) && text.len() < 20000 {
                let mut u = [0u16; 2];
                for x in c.encode_utf16(&mut u) {
                    if r.chance(2) {
                        out.push_str(&format!("\\u{:04x}", x));
                    } else {
                        out.push_str(&format!("\\u{:04X}", x));
                    }
                }
            } else if c == '/' && style != 2 && r.chance(2) {
                out.push_str("\\/");
            } else {
                out.push(c);
            }
        } else if c == '"' {
            in_str = true;
            out.push(c);
        } else if "{}[],:".contains(c) {
            ws(r, &mut out);
            out.push(c);
            ws(r, &mut out);
        } else {
            out.push(c);
        }
    }
    out
}

/// Compares with an expected document, in which "$?" marks stand for undetermined members.
pub fn agrees(exp: &Value, act: &Value) -> Result<(), String> {
    fn go(exp: &Value, act: &Value, path: &str) -> Result<(), String> {
        match (exp, act) {
            (Value::Object(e), Value::Object(a)) => {
                for (k, ev) in e {
                    let av = a.get(k);
                    let ok = match ev.as_str() {
                        Some("$?") => av.map_or(true, Value::is_null),
                        Some("$?E") => av.map_or(true, |v| v == ""),
                        Some("$?A") => av.map_or(true, |v| v == &json!([])),
                        _ => match av {
                            None => return Err(format!("{path}.{k} is missing")),
                            Some(v) => {
                                go(ev, v, &format!("{path}.{k}"))?;
                                true
                            }
                        },
                    };
                    if !ok {
                        return Err(format!("{path}.{k} is {}", short(av.unwrap())));
                    }
                }
                match a.keys().find(|k| !e.contains_key(*k)) {
                    Some(k) => Err(format!("{path}.{k} is not expected")),
                    None => Ok(()),
                }
            }
            (Value::Array(e), Value::Array(a)) => {
                if e.len() != a.len() {
                    return Err(format!("{path} has {} elements, expected {}", a.len(), e.len()));
                }
                e.iter().zip(a).enumerate().try_for_each(|(i, (e, a))| go(e, a, &format!("{path}[{i}]")))
            }
            _ if exp == act => Ok(()),
            _ => Err(format!("{path} is {}, expected {}", short(act), short(exp))),
        }
    }
    go(exp, act, "$")
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 200 {
        s.chars().take(200).collect::<String>() + "..."
    } else {
        s
    }
}

/// Salts for a vector: other values for other vectors.
pub fn salts(first: u64, n: u64, text: &str) -> impl Iterator<Item = u64> {
    let base = first + Rng::new(&[&"salts", &text]).next() % 1_000_000 * 1000;
    base..base + n
}

/// Runs work items on all cores, results in item order.
pub fn parallel<T: Send, R: Send>(items: Vec<T>, threads: usize, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    use std::sync::Mutex;
    let n = items.len();
    let queue = Mutex::new(items.into_iter().enumerate());
    let out = Mutex::new((0..n).map(|_| None).collect::<Vec<Option<R>>>());
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let item = queue.lock().unwrap().next();
                match item {
                    None => break,
                    Some((i, x)) => {
                        let r = f(x);
                        out.lock().unwrap()[i] = Some(r);
                    }
                }
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(Option::unwrap).collect()
}

pub fn quietly<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

pub fn read_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("{path}: {e}"))
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| panic!("{path}: {e}: {l}")))
        .collect()
}
