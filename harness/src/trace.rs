//! Many threads on one connection: what they do is recorded, for SendTrace.tla to judge (C05, C07, C17, C18, C19).
use crate::flow;
use crate::frame::{self, Frames};
use crate::net::{self, HANG};
use crate::util::{parallel, quietly, Rng};
use bsp_server::{Connection, IoThreads, Message};
use crossbeam_channel::RecvTimeoutError;
use serde_json::{json, to_value, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Events with the time they were logged at; the clock is the same in all processes.
#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<(u64, Value)>>>);

fn clock() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(1, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

impl Log {
    fn add(&self, v: Value) {
        let mut l = self.0.lock().unwrap();
        l.push((clock(), v));
    }
}

fn size(n: u64) -> usize {
    match n % 11 {
        0 => 40_000,
        1..=3 => 2_000,
        _ => (n % 97) as usize,
    }
}

fn message(n: u64) -> Message {
    flow::message(n, size(n), n)
}

/// The number of a message; 0 for what is none of ours.
fn number(v: &Value) -> u64 {
    let n = v.get("params").or(v.get("result")).and_then(|b| b["n"].as_u64()).unwrap_or(0);
    if n > 0 && flow::number(v, size(n), n) == Ok(n) {
        n
    } else {
        0
    }
}

/// The threads of the server: senders, receivers; then the end.
fn serve(conn: Connection, io: Option<IoThreads>, seed: u64, log: &Log) -> String {
    let mut r = Rng::new(&[&"trace", &seed]);
    let senders = 1 + r.below(5) as u64;
    let receivers = 1 + r.below(3) as u64;
    let mut threads = vec![];
    let conn = Arc::new(conn);
    for c in 0..senders + receivers {
        let log = log.clone();
        let mut r = Rng::new(&[&"thread", &seed, &c]);
        let conn = conn.clone();
        let calls = 4 + r.below(16) as u64;
        threads.push(std::thread::spawn(move || {
            let start = Instant::now();
            if c < senders {
                for i in 0..calls {
                    let n = 1_000 + c * 100 + i;
                    let m = message(n);
                    log.add(json!(["s", c, n]));
                    let ok = match r.below(6) {
                        0 | 1 => conn.send(m).is_ok(),
                        2 => conn.try_send(m).is_ok(),
                        3 => conn.send_timeout(m, Duration::from_micros(r.below(300) as u64)).is_ok(),
                        4 => conn.send_timeout(m, HANG).is_ok(),
                        _ => conn.send_deadline(m, Instant::now() + if r.chance(2) { HANG } else { Duration::from_micros(150) }).is_ok(),
                    };
                    log.add(json!([if ok { "ok" } else { "no" }, c]));
                    if r.chance(4) {
                        std::thread::sleep(Duration::from_micros(r.below(500) as u64));
                    }
                }
            } else {
                loop {
                    log.add(json!(["r", c]));
                    let got = conn.receiver.recv_timeout(Duration::from_micros(300 + r.below(3000) as u64));
                    match got {
                        Ok(m) => log.add(json!(["m", c, number(&to_value(&m).unwrap())])),
                        Err(e) => {
                            log.add(json!(["e", c]));
                            if e == RecvTimeoutError::Disconnected || start.elapsed() > HANG {
                                break;
                            }
                        }
                    }
                    if r.chance(5) {
                        std::thread::sleep(Duration::from_micros(r.below(800) as u64));
                    }
                }
            }
        }));
    }
    for t in threads {
        if t.join().is_err() {
            return "a thread panics".into();
        }
    }
    drop(conn);
    match io.map(|io| quietly(|| io.join())) {
        None | Some(Ok(Ok(()))) => "ok".into(),
        Some(x) => format!("joining gives {x:?}"),
    }
}

pub fn child(args: &[String]) {
    let (c, io) = Connection::stdio();
    let log = Log::default();
    let res = serve(c, Some(io), args[0].parse().unwrap(), &log);
    let l = log.0.lock().unwrap();
    eprintln!("{}", json!([res, *l]));
}

/// What was written and read by the peer of one run, and by the server's threads.
fn run(transport: &str, seed: u64) -> Result<Vec<Value>, String> {
    let log = Log::default();
    let mut r = Rng::new(&[&"peer", &seed]);
    let total = r.below(50) as u64;
    let (tx, rx) = std::sync::mpsc::channel();
    let pauses = r.below(3);
    let mut fed = Frames::default();
    let mut seen = 0;
    let mut rr = Rng::new(&[&"reader", &seed]);
    let log2 = log.clone();
    let mut feed = move |b: &[u8]| {
        fed.feed(b);
        while seen < fed.frames.len() {
            let n = number(&fed.frames[seen]);
            seen += 1;
            log2.add(json!(["w", n]));
            if pauses > 0 && rr.chance(6) {
                std::thread::sleep(Duration::from_micros(rr.below(1500) as u64));
            }
        }
        if let Some(e) = &fed.error {
            log2.add(json!(["w", 0, e]));
        }
    };
    let mut write = {
        let log = log.clone();
        let mut r = Rng::new(&[&"writer", &seed]);
        move |w: &mut dyn Write| {
            for n in 1..=total {
                let mut v = to_value(message(n)).unwrap();
                v.as_object_mut().unwrap().insert("jsonrpc".into(), json!("2.0"));
                let f = frame::frame(v.to_string().as_bytes(), &mut r);
                let k = if r.chance(4) { r.below(f.len()) } else { 0 };
                log.add(json!(["p", n]));
                let _ = w.write_all(&f[..k]).and_then(|_| w.flush());
                if r.chance(3) {
                    std::thread::sleep(Duration::from_micros(r.below(900) as u64));
                }
                let _ = w.write_all(&f[k..]).and_then(|_| w.flush());
            }
        }
    };
    let slog = log.clone();
    match transport {
        "memory" => {
            let (a, b) = Connection::memory();
            std::thread::spawn(move || tx.send(serve(b, None, seed, &slog)));
            let Connection { sender, receiver } = a;
            let wl = log.clone();
            let t = std::thread::spawn(move || {
                let mut r = Rng::new(&[&"writer", &seed]);
                for n in 1..=total {
                    wl.add(json!(["p", n]));
                    let _ = sender.send(message(n));
                    frame::pause(&mut r);
                }
            });
            for m in receiver {
                let n = number(&to_value(&m).unwrap());
                log.add(json!(["w", n]));
            }
            let _ = t.join();
        }
        "stdio" => {
            let mut c = Command::new(std::env::current_exe().unwrap())
                .args(["trace-child", &seed.to_string()])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .map_err(|e| e.to_string())?;
            let (mut i, mut o, e) = (c.stdin.take().unwrap(), c.stdout.take().unwrap(), c.stderr.take().unwrap());
            let t = std::thread::spawn(move || write(&mut i));
            std::thread::spawn(move || {
                let mut l = String::new();
                let _ = BufReader::new(e).read_line(&mut l);
                let (res, evs): (String, Vec<(u64, Value)>) = serde_json::from_str(&l).unwrap_or(("the process ends".into(), vec![]));
                slog.0.lock().unwrap().extend(evs);
                let _ = tx.send(res);
            });
            frame::pump(&mut o, &mut feed);
            let _ = t.join();
            let _ = c.kill();
            let _ = c.wait();
        }
        _ => {
            let s = net::tcp_pair(transport == "listen", move |c, io| {
                let _ = tx.send(serve(c, Some(io), seed, &slog));
            })
            .map_err(|e| e.to_string())?;
            let (mut w, mut rs) = (s.try_clone().unwrap(), s);
            let t = std::thread::spawn(move || {
                write(&mut w);
                net::half_close(&w);
            });
            let _ = rs.set_read_timeout(Some(HANG * 2));
            frame::pump(&mut rs, &mut feed);
            let _ = t.join();
        }
    }
    let res = rx.recv_timeout(HANG).map_err(|_| "the server does not end".to_owned())?;
    if res != "ok" {
        return Err(res);
    }
    let mut l = log.0.lock().unwrap().clone();
    // Of two events at the same time the one which allows more comes first.
    l.sort_by_key(|(t, e)| (*t, !["s", "p", "r"].contains(&e[0].as_str().unwrap())));
    let mut l: Vec<Value> = l.into_iter().map(|(_, e)| e).collect();
    l.push(json!(["end"]));
    Ok(l)
}

/// trace SEED RUNS OUT: one line per run: [transport, seed, error, events]
pub fn main(args: &[String]) {
    let (seed, runs): (u64, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap());
    let outs = parallel((0..runs).collect(), 6, |n| {
        let t = ["connect", "listen", "stdio", "memory"][n as usize % 4];
        let s = seed * 100_000 + n;
        match quietly(|| run(t, s)) {
            Ok(Ok(l)) => json!([t, s, null, l]),
            Ok(Err(e)) => json!([t, s, e, []]),
            Err(p) => json!([t, s, format!("panic: {p}"), []]),
        }
    });
    let mut w = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    for o in outs {
        writeln!(w, "{o}").unwrap();
    }
}
