//! Byte streams cut anywhere, against what Framing.tla says was delivered there and what their end means (C08, C05, C06, C09, C20).
use crate::frame;
use crate::net::{self, HANG};
use crate::report::Report;
use crate::util::{parallel, quietly, Rng};
use bsp_server::{Connection, IoThreads, Message};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::time::Duration;

/// The largest allocation made so far.
pub struct Counting;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LARGEST.fetch_max(n, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

#[derive(Clone)]
struct Stream {
    marks: Vec<u8>,
    units: Vec<String>,
    got: Vec<(usize, String)>,
}

fn unit(u: &str) -> Vec<u8> {
    if u.starts_with('<') && u[2..].starts_with('*') {
        return vec![u.as_bytes()[1]; u[3..].trim_end_matches('>').parse().unwrap()];
    }
    if u.len() == 4 && u.starts_with('<') {
        return vec![u8::from_str_radix(&u[1..3], 16).unwrap()];
    }
    u.as_bytes().to_vec()
}

fn units(s: &str) -> Vec<u8> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        let n = if c == '<' { rest.find('>').unwrap() + 1 } else { c.len_utf8() };
        out.extend(unit(&rest[..n]));
        rest = &rest[n..];
    }
    out
}

fn load(path: &str) -> Vec<Stream> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            let list = &f[1][2..f[1].len() - 2];
            Stream {
                marks: f[0].as_bytes().to_vec(),
                units: serde_json::from_str(&format!("[{list}]")).unwrap(),
                got: f[2..].chunks(2).map(|c| (c[0].parse().unwrap(), c[1].to_owned())).collect(),
            }
        })
        .collect()
}

struct Server {
    msgs: mpsc::Receiver<Value>,
    join: mpsc::Receiver<Result<std::io::Result<()>, String>>,
}

/// Receives everything, drops the connection, joins.
fn serve(c: Connection, t: IoThreads, msgs: mpsc::Sender<Value>, join: mpsc::Sender<Result<std::io::Result<()>, String>>) {
    for m in &c.receiver {
        if msgs.send(serde_json::to_value(&m).unwrap_or_else(|e| json!(e.to_string()))).is_err() {
            break;
        }
    }
    drop(msgs);
    drop(c);
    let _ = join.send(quietly(|| t.join()));
}

enum End {
    Tcp(std::net::TcpStream),
    Child(std::process::Child, Option<std::process::ChildStdin>),
}

fn start(transport: &str) -> std::io::Result<(Server, End)> {
    let (mtx, msgs) = mpsc::channel();
    let (jtx, join) = mpsc::channel();
    let server = Server { msgs, join };
    if transport == "stdio" {
        use std::process::{Command, Stdio};
        let mut c = Command::new(std::env::current_exe()?).arg("stdio-reader").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
        let stdin = c.stdin.take();
        let err = c.stderr.take().unwrap();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(err).lines().map_while(Result::ok) {
                if let Some(m) = l.strip_prefix("M ") {
                    let _ = mtx.send(serde_json::from_str(m).unwrap());
                } else if l == "E" {
                    break;
                }
            }
            drop(mtx);
        });
        let out = c.stdout.take().unwrap();
        // The verdict of join comes over standard output, once standard error has ended.
        std::thread::spawn(move || {
            let mut s = String::new();
            let _ = { out }.read_to_string(&mut s);
            let s = s.trim();
            let _ = jtx.send(match s {
                "ok" => Ok(Ok(())),
                s => match s.strip_prefix("err ") {
                    Some(e) => Ok(Err(std::io::Error::new(std::io::ErrorKind::Other, e.to_owned()))),
                    None => Err(format!("the process ended: {s}")),
                },
            });
        });
        return Ok((server, End::Child(c, stdin)));
    }
    let s = net::tcp_pair(transport == "listen", move |c, t| serve(c, t, mtx, jtx))?;
    Ok((server, End::Tcp(s)))
}

pub fn stdio_reader() {
    let (c, t) = Connection::stdio();
    for m in &c.receiver {
        eprintln!("M {}", serde_json::to_value(&m).unwrap());
    }
    eprintln!("E");
    drop(c);
    let r = quietly(|| t.join());
    match r {
        Ok(Ok(())) => println!("ok"),
        Ok(Err(e)) => println!("err {}", e.to_string().replace('\n', " ")),
        Err(p) => println!("panic {p}"),
    }
}

type Outcome = Result<(), (Vec<&'static str>, String)>;

fn check(s: &Stream, cut: usize, open: bool, transport: &str, seed: u64) -> Outcome {
    let mut r = Rng::new(&[&"framing", &seed]);
    let bytes: Vec<u8> = s.units[..cut].iter().flat_map(|u| unit(u)).collect();
    let mark = s.marks[cut];
    let expected: Vec<Value> = s
        .got
        .iter()
        .filter(|g| g.0 <= cut)
        .map(|g| {
            let mut v: Value = serde_json::from_slice(&units(&g.1)).unwrap();
            v["jsonrpc"] = json!("2.0");
            v
        })
        .collect();
        let (server, mut end) = start(transport).map_err(|e| (vec!["C20"], format!("no connection: {e}")))?;
    let frags = frame::fragments(&bytes, &mut r);
    let limit = HANG;
    match &mut end {
        End::Tcp(t) => {
            frame::write_fragments(t, &frags, &mut r);
        }
        End::Child(_, p) => {
            frame::write_fragments(p.as_mut().unwrap(), &frags, &mut r);
        }
    }
    let close = |end: &mut End| match end {
        End::Tcp(t) => net::half_close(t),
        End::Child(_, p) => drop(p.take()),
    };
    if !open {
        close(&mut end);
    }
    let result = (|| -> Outcome {
        for (n, e) in expected.iter().enumerate() {
            match server.msgs.recv_timeout(limit) {
                Ok(m) => same(e, &m).map_err(|x| (vec!["C08", "C05"], format!("message {} arrived as {m}: {x}", n + 1)))?,
                Err(x) if mark == b'?' => return Err((vec!["C08", "C05"], format!("message {} never arrived ({x})", n + 1))),
                Err(x) => return Err((vec!["C08", "C05"], format!("message {} of {} never arrived ({x})", n + 1, expected.len()))),
            }
        }
        if open {
            match mark {
                b'x' | b'f' => match server.msgs.recv_timeout(limit) {
                    Err(mpsc::RecvTimeoutError::Disconnected) => {}
                    Ok(m) => return Err((if mark == b'x' { vec!["C06"] } else { vec!["C08"] }, format!("{m} was delivered"))),
                    Err(_) => return Err((if mark == b'x' { vec!["C06"] } else { vec!["C08"] }, "reading goes on while the stream stays open".into())),
                },
                b'o' | b'e' => match server.msgs.recv_timeout(Duration::from_micros(r.below(1500) as u64)) {
                    Err(mpsc::RecvTimeoutError::Timeout) => {}
                    Ok(m) => return Err((vec!["C08", "C05"], format!("{m} was delivered"))),
                    Err(_) => return Err((vec!["C08", "C05"], "reading ended while more was to come".into())),
                },
                _ => {}
            }
            if mark == b'x' {
                // Joining does not need the end of the stream.
                let j = server.join.recv_timeout(limit).map_err(|_| (vec!["C06", "C09"], "joining hangs after exit, while the stream stays open".to_string()))?;
                match j {
                    Ok(Ok(())) => {}
                    j => return Err((vec!["C06", "C09"], format!("after exit, joining says {j:?}"))),
                }
                close(&mut end);
                return Ok(());
            }
            close(&mut end);
        }
        loop {
            match server.msgs.recv_timeout(limit) {
                Err(mpsc::RecvTimeoutError::Disconnected) => break,
                Ok(_) if mark == b'?' => {}
                Ok(m) => return Err((if mark == b'x' { vec!["C06", "C08"] } else { vec!["C08"] }, format!("{m} was delivered"))),
                Err(_) => return Err((vec!["C08", "C06", "C09"], "the inbound side is never closed".into())),
            }
        }
        let j = server.join.recv_timeout(limit).map_err(|_| (vec!["C09"], "joining hangs".to_string()))?;
        match (mark, j) {
            (_, Err(p)) => Err((vec!["C08", "C09"], format!("panic: {p}"))),
            (b'?', _) | (b'o' | b'x', Ok(Ok(()))) | (b'e' | b'b' | b'f', Ok(Err(_))) => Ok(()),
            (b'o' | b'x', Ok(Err(e))) => Err((vec!["C08", "C09"], format!("joining reports {e}"))),
            (_, j) => Err((vec!["C08", "C09"], format!("joining reports {j:?}"))),
        }
    })();
    if let End::Child(c, p) = &mut end {
        drop(p.take());
        let _ = c.kill();
        let _ = c.wait();
    }
    result
}

/// A received message, as sent on, against the document it came as: null params are as good as none.
fn same(e: &Value, a: &Value) -> Result<(), String> {
    let strip = |v: &Value| {
        let mut v = v.clone();
        let o = v.as_object_mut().unwrap();
        if o.get("params").map_or(false, |p| p.is_null() || o.get("method") == Some(&json!("build/exit")) || o.get("method") == Some(&json!("build/initialized"))) {
            o.remove("params");
        }
        if o.get("error").map_or(false, Value::is_null) {
            o.remove("error");
        }
        o.remove("jsonrpc");
        v
    };
    if strip(e) == strip(a) {
        Ok(())
    } else {
        Err(format!("expected {e}"))
    }
}

/// framing VECTORS SEED CUTS STDIO OUT: CUTS positions per stream (0: all), every STDIO-th run over stdio.
pub fn main(args: &[String]) {
    let vs = load(&args[0]);
    let (seed, cuts, stdio): (u64, usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let rep = Report::default();
    let mut jobs = vec![];
    let mut r = Rng::new(&[&"cuts", &seed]);
    for s in &vs {
        let n = s.units.len();
        let mut at: Vec<usize> = if cuts == 0 || cuts > n { (0..=n).collect() } else { (0..cuts - 1).map(|_| r.below(n)).chain([n]).collect() };
        // Right after each delivery, and next to it.
        if cuts > 3 {
            at.extend(s.got.iter().flat_map(|g| [g.0, g.0.saturating_sub(1), (g.0 + 1).min(n)]).filter(|_| r.below(2) == 0));
        }
        at.sort();
        at.dedup();
        for c in at {
            let t = if stdio > 0 && r.below(stdio) == 0 { "stdio" } else { *r.pick(&["connect", "listen"]) };
            let open = r.below(3) == 0 && !(s.marks[c] == b'b' || s.marks[c] == b'?');
            jobs.push((s, c, open, t, r.below(1 << 48) as u64));
        }
    }
    let hangs = AtomicUsize::new(0);
    let total = jobs.len();
    // Runs go on side by side: none of them may allocate much more than the longest stream.
    let longest = vs.iter().map(|s| s.units.iter().map(|u| unit(u).len()).sum::<usize>()).max().unwrap_or(0);
    let start = std::sync::Once::new();
    parallel(jobs, 16, |(s, c, open, t, sd)| {
        if hangs.load(Ordering::Relaxed) > 30 {
            return;
        }
        start.call_once(|| LARGEST.store(0, Ordering::Relaxed));
        rep.count(1);
        rep.traces(1);
        let res = check(s, c, open, t, sd);
        let bytes: usize = s.units[..c].iter().map(|u| unit(u).len()).sum();
        let text = || s.units[..c].iter().map(|u| u.replace('\r', "\\r").replace('\n', "\\n")).collect::<String>();
        let mut fails = vec![];
        if let Err((p, x)) = res {
            if x.contains("never") || x.contains("hangs") || x.contains("goes on") {
                hangs.fetch_add(1, Ordering::Relaxed);
            }
            fails.push((p, x));
        }
        let most = LARGEST.swap(0, Ordering::Relaxed);
        if most > 4 * longest + (256 << 10) {
            fails.push((vec!["C08"], format!("{most} bytes allocated at once for {bytes} bytes of input")));
        }
        for (p, x) in fails {
            let mut p = p;
            if t == "stdio" {
                p.push("C20");
            }
            rep.fail(&p, format!("stream {:.600}, {} over {t}: {x}", text(), if open { "left open" } else { "ended there" }), json!({"stream": s.units[..c], "open": open, "transport": t, "seed": sd, "expected_end": (s.marks[c] as char).to_string()}));
        }
    });
    rep.sample(json!({"streams": vs.len(), "runs": total}));
    for s in vs.iter().step_by(vs.len() / 2 + 1) {
        rep.sample(json!({"stream": s.units.concat().chars().take(300).collect::<String>(), "end_at_each_byte": String::from_utf8_lossy(&s.marks)}));
    }
    rep.write(&args[4]);
    let _ = std::io::stdout().flush();
}
