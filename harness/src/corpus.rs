//! Messages produced by the wire specification, by kind of the session specification.
use crate::session::Item;
use crate::util::{concretise, restyle, Rng};
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone)]
pub struct Entry {
    pub name: String,
    pub ok: bool,
    /// may be refused; received otherwise as this kind, type and id
    pub open: bool,
    pub kind: String,
    pub var: String,
    pub id: String,
    pub method: String,
    pub params: String,
    pub doc: String,
    pub out: String,
}

pub fn entries(path: &str) -> Vec<Entry> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("{path}: {e}"))
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            assert_eq!(f.len(), 9, "{path}: {l}");
            Entry {
                name: f[0].into(),
                ok: f[1] == "ok",
                open: f[1] == "any",
                kind: f[2].into(),
                var: f[3].into(),
                id: f[4].into(),
                method: f[5].into(),
                params: f[6].into(),
                doc: f[7].into(),
                out: f[8].into(),
            }
        })
        .collect()
}

pub struct Corpus {
    by_kind: HashMap<&'static str, Vec<Entry>>,
    bad: Vec<Entry>,
}

pub fn session_kind(e: &Entry) -> &'static str {
    match (e.kind.as_str(), e.var.as_str()) {
        ("request", "InitializeBuild") => "init",
        ("request", "Shutdown") => "shut",
        ("request", _) => "req",
        ("notification", "Initialized") => "inited",
        ("notification", "Exit") => "exit",
        ("notification", _) => "note",
        _ => "resp",
    }
}

impl Corpus {
    pub fn load(path: &str) -> Corpus {
        let mut by_kind: HashMap<&'static str, Vec<Entry>> = HashMap::new();
        let mut bad = vec![];
        for e in entries(path) {
            if e.ok {
                by_kind.entry(session_kind(&e)).or_default().push(e);
            } else {
                bad.push(e);
            }
        }
        Corpus { by_kind, bad }
    }

    pub fn message(&self, kind: &str, r: &mut Rng, id: Option<&Value>) -> Item {
        let salt = r.next();
        if kind == "bad" {
            return self.malformed(r, salt);
        }
        let list = &self.by_kind[kind];
        // Every message type of the kind with equal chance.
        let e = loop {
            let e = r.pick(list);
            if kind != "req" && kind != "note" && kind != "resp" {
                break e;
            }
            let same = list.iter().filter(|x| x.var == e.var).count();
            if r.below(same) < 8 {
                break e;
            }
        };
        let conc = |t: &str| match id {
            Some(id) => concretise(&t.replace("\"$K:id\"", &id.to_string()), salt),
            None => concretise(t, salt),
        };
        let expect: Value = serde_json::from_str(&conc(&e.out)).unwrap();
        Item {
            text: restyle(&conc(&e.doc), r),
            id: if e.kind == "request" { expect.get("id").cloned() } else { None },
            params: expect.get("params").cloned().unwrap_or(Value::Null),
            expect,
            kind: kind.into(),
            raw: None,
        }
    }

    fn malformed(&self, r: &mut Rng, salt: u64) -> Item {
        let body = |b: &[u8]| {
            let mut v = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
            v.extend_from_slice(b);
            v
        };
        let raw: Vec<u8> = match r.below(14) {
            0 => body(b""),
            1 => body(b"{"),
            2 => body(b"\xff\xfe"),
            3 => body(b"null"),
            4 => body(b"{\"jsonrpc\":\"2.0\",\"method\":\"x\"} {}"),
            5 => b"Content-Length: abc\r\n\r\n".to_vec(),
            6 => b"Content-Length: -1\r\n\r\n".to_vec(),
            7 => b"\r\n".to_vec(),
            8 => b"Content-Type: x\r\n\r\n".to_vec(),
            9 => b"nonsense\r\n\r\n".to_vec(),
            10 => b"Content-Length: 2\n\n{}".to_vec(),
            11 => b"\xff\xff: 1\r\n\r\n".to_vec(),
            _ => {
                let e = r.pick(&self.bad);
                body(concretise(&e.doc, salt).as_bytes())
            }
        };
        Item { text: String::new(), expect: Value::Null, kind: "bad".into(), id: None, params: Value::Null, raw: Some(raw) }
    }
}
