//! Calls on pairs of connections, as Channel.tla has them (C17, C18).
use crate::report::Report;
use crate::util::{parallel, quietly, Rng};
use bsp_server::types::{BuildTargetSources, LogMessage, MessageType};
use bsp_server::{Connection, ErrorCode, Message, Notification, Request, RequestId, Response};
use crossbeam_channel::{unbounded, SendTimeoutError, TryRecvError, TrySendError};
use serde_json::{json, to_value, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHAPES: u64 = 9;

#[derive(Debug)]
pub enum Sent {
    Ok,
    Full(Message),
    Timeout(Message),
    Gone(Message),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Plain,
    Try,
    Timed(Duration),
    Deadline(Instant),
}

/// Message number `n` in one of the forms the send methods take, handed to `with`.
macro_rules! shaped {
    ($n:expr, $shape:expr, $with:ident) => {{
        let n = $n;
        let num = RequestId::from(n as i32);
        let name = RequestId::from(format!("m{n}"));
        match $shape % SHAPES {
            0 => $with!(Message::Notification(Notification::Custom("x/n", json!(n)))),
            1 => $with!(Notification::from(("x/a", json!([n, "\u{e9}"])))),
            2 => $with!(("x/b", json!({"n": n}))),
            3 => $with!(Request::Custom(num, "x/q", json!({"n": [n, null]}))),
            4 => $with!((name, "x/r", json!(null))),
            5 => $with!(Response::ok(num, json!({"n": n}))),
            6 => $with!(Response::err(name, ErrorCode::RequestCanceled as i32, format!("no {n}"))),
            7 => $with!(LogMessage { message: format!("{n}"), typ: MessageType::Warning, task: None, origin_id: None }),
            _ => $with!((num, BuildTargetSources::new(vec![]))),
        }
    }};
}

pub fn message(n: u64, shape: u64) -> Message {
    fn id<T: Into<Message>>(x: T) -> Message {
        x.into()
    }
    macro_rules! id {
        ($x:expr) => {
            id($x)
        };
    }
    shaped!(n, shape, id)
}

fn go<T: Into<Message>>(c: &Connection, m: T, mode: Mode) -> Sent {
    match mode {
        Mode::Plain => c.send(m).map_or_else(|e| Sent::Gone(e.0), |_| Sent::Ok),
        Mode::Try => match c.try_send(m) {
            Ok(()) => Sent::Ok,
            Err(TrySendError::Full(m)) => Sent::Full(m),
            Err(TrySendError::Disconnected(m)) => Sent::Gone(m),
        },
        Mode::Timed(_) | Mode::Deadline(_) => {
            let r = match mode {
                Mode::Timed(d) => c.send_timeout(m, d),
                Mode::Deadline(t) => c.send_deadline(m, t),
                _ => unreachable!(),
            };
            match r {
                Ok(()) => Sent::Ok,
                Err(SendTimeoutError::Timeout(m)) => Sent::Timeout(m),
                Err(SendTimeoutError::Disconnected(m)) => Sent::Gone(m),
            }
        }
    }
}

pub fn send(c: &Connection, n: u64, shape: u64, mode: Mode) -> Sent {
    macro_rules! go {
        ($x:expr) => {
            go(c, $x, mode)
        };
    }
    shaped!(n, shape, go)
}

/// The result's name, and whether the message came back unharmed.
pub fn name(s: &Sent, n: u64, shape: u64) -> Result<&'static str, String> {
    let (name, m) = match s {
        Sent::Ok => return Ok("ok"),
        Sent::Full(m) => ("full", m),
        Sent::Timeout(m) => ("timeout", m),
        Sent::Gone(m) => ("disconnected", m),
    };
    let (a, b) = (to_value(m).unwrap(), to_value(message(n, shape)).unwrap());
    if a != b {
        return Err(format!("the message which comes back is {a}, not {b}"));
    }
    Ok(name)
}

struct End {
    s: Vec<Connection>,
    r: Vec<Connection>,
}

/// Handles are kept in connections of their own, whose other half leads nowhere.
fn half(s: Option<&Connection>, r: Option<&Connection>) -> Connection {
    let (ds, dr) = unbounded();
    Connection { sender: s.map_or(ds, |c| c.sender.clone()), receiver: r.map_or(dr, |c| c.receiver.clone()) }
}

fn pair(cap: &str) -> (Connection, Connection) {
    match cap {
        "99" => Connection::memory(),
        c => crate::net::bounded_pair(c.parse().unwrap()),
    }
}

/// Each message of the model stands for `k` messages (only where there is always room).
fn replay(cap: &str, ops: &[Vec<&str>], k: u64, shape: u64, mirror: bool, r: &mut Rng) -> Result<(), (Vec<&'static str>, String)> {
    let (a, b) = pair(cap);
    let (a, b) = if mirror { (b, a) } else { (a, b) };
    let split = |c: Connection| End { s: vec![half(Some(&c), None)], r: vec![half(None, Some(&c))] };
    // Whole connections as long as nothing is taken apart.
    let apart = ops.iter().any(|o| o[0] == "clone" || o[0] == "drop" && o[2] != "both");
    let mut whole = [None, None];
    let mut ends = if apart {
        [split(a), split(b)]
    } else {
        whole = [Some(a), Some(b)];
        [End { s: vec![], r: vec![] }, End { s: vec![], r: vec![] }]
    };
    let both = |p: &[&'static str]| -> Vec<&'static str> { p.to_vec() };
    let mut n = 0;
    for (i, o) in ops.iter().enumerate() {
        let e = if o[1] == "A" { 0 } else { 1 };
        let bad = |p: &[&'static str], what: String| Err((both(p), format!("call {} ({}): {what}", i + 1, o.join(" "))));
        match o[0] {
            "send" => {
                n += 1;
                for j in 0..k {
                    let m = n * k + j;
                    let limit = Duration::from_micros(if o[3] == "timeout" { 2000 } else { 50_000 });
                    let start = Instant::now();
                    let mode = match o[2] {
                        "plain" => Mode::Plain,
                        "try" => Mode::Try,
                        "timed" => Mode::Timed(limit),
                        "deadline" => Mode::Deadline(start + limit),
                        _ if r.chance(2) => Mode::Timed(Duration::ZERO),
                        _ => Mode::Deadline(start.checked_sub(Duration::from_millis(5)).unwrap_or(start)),
                    };
                    let s = if apart { &ends[e].s[r.below(ends[e].s.len())] } else { whole[e].as_ref().unwrap() };
                    let res = send(s, m, shape + m, mode);
                    let took = start.elapsed();
                    match name(&res, m, shape + m) {
                        Err(x) => return bad(&["C18", "C17"], x),
                        Ok(x) if x != o[3] => return bad(if cap == "99" { &["C17", "C18"] } else { &["C18"] }, format!("gives {x}")),
                        _ => {}
                    }
                    if o[3] == "timeout" && o[2] != "past" && took + Duration::from_micros(100) < limit {
                        return bad(&["C18"], format!("times out after {took:?} of {limit:?}"));
                    }
                }
            }
            "recv" => {
                let c = if apart { &ends[e].r[r.below(ends[e].r.len())] } else { whole[e].as_ref().unwrap() };
                for j in 0..k {
                    let got = c.receiver.try_recv();
                    match (&got, o[3]) {
                        (Err(TryRecvError::Empty), "empty") | (Err(TryRecvError::Disconnected), "disconnected") => break,
                        (Ok(m), x) if x != "empty" && x != "disconnected" => {
                            let m_ = x.parse::<u64>().unwrap() * k + j;
                            let (act, exp) = (to_value(m).unwrap(), to_value(message(m_, shape + m_)).unwrap());
                            if act != exp {
                                return bad(&["C17", "C18"], format!("receives {act}, not {exp}"));
                            }
                        }
                        _ => return bad(&["C17", "C18"], format!("gives {}", got.map_or_else(|e| e.to_string(), |m| to_value(m).unwrap().to_string()))),
                    }
                }
            }
            "drop" => {
                if !apart {
                    whole[e] = None;
                    continue;
                }
                if o[2] != "receiver" {
                    ends[e].s.pop();
                }
                if o[2] != "sender" {
                    ends[e].r.pop();
                }
            }
            _ => {
                if o[2] == "sender" {
                    let c = half(Some(&ends[e].s[0]), None);
                    ends[e].s.push(c);
                } else {
                    let c = half(None, Some(&ends[e].r[0]));
                    ends[e].r.push(c);
                }
            }
        }
    }
    Ok(())
}

/// channel VECTORS SEED OUT
pub fn main(args: &[String]) {
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let seed: u64 = args[1].parse().unwrap();
    let rep = Report::default();
    let ls: Vec<(usize, &str)> = text.lines().enumerate().collect();
    let chunks: Vec<&[(usize, &str)]> = ls.chunks(500).collect();
    // No call of these programs waits for another one: one which does is found by this.
    let busy: Mutex<HashMap<usize, Instant>> = Mutex::new(HashMap::new());
    let over = AtomicBool::new(false);
    let watch = || {
        while !over.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(100));
            let stuck: Vec<usize> = busy.lock().unwrap().iter().filter(|(_, t)| t.elapsed() > Duration::from_secs(30)).map(|(i, _)| *i).collect();
            if let Some(i) = stuck.first() {
                let l = ls[*i].1;
                let props: &[&str] = if l.starts_with("99\t") { &["C17", "C18"] } else { &["C18"] };
                rep.fail(props, format!("a call which should return at once does not; calls {}", l.replace('\t', " ")), json!({"calls": l}));
                rep.write(&args[2]);
                std::process::exit(0);
            }
        }
    };
    std::thread::scope(|s| {
    s.spawn(watch);
    parallel(chunks, 12, |c| {
        for (i, l) in c {
            let (cap, ops) = l.split_once('\t').unwrap();
            let ops: Vec<Vec<&str>> = ops.split('|').map(|o| o.split('\t').collect()).collect();
            let mut r = Rng::new(&[&"channel", &seed, i]);
            let k = if cap == "99" && r.chance(8000) { 70_000 } else if cap == "99" && r.chance(1000) { 5000 } else if cap == "99" && r.chance(10) { 40 } else { 1 };
            let (shape, mirror) = (r.next() % SHAPES, r.chance(2));
            rep.count(ops.len());
            rep.traces(1);
            if *i < 3 {
                rep.sample(json!(l));
            }
            let case = || json!({"calls": l, "of each": k, "shape": shape, "mirror": mirror});
            busy.lock().unwrap().insert(*i, Instant::now());
            let res = quietly(|| replay(cap, &ops, k, shape, mirror, &mut r));
            busy.lock().unwrap().remove(i);
            match res {
                Ok(Ok(())) => {}
                Ok(Err((p, w))) => rep.fail(&p, format!("capacity {cap}: {w}; calls {}", l.replace('\t', " ")), case()),
                Err(p) => rep.fail(&["C17", "C18"], format!("panic: {p}"), case()),
            }
        }
    });
    over.store(true, SeqCst);
    });
    rep.write(&args[2]);
}

#[allow(dead_code)]
pub fn value(n: u64, shape: u64) -> Value {
    to_value(message(n, shape)).unwrap()
}
