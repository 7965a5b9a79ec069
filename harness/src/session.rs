//! Replays client histories of the session specification on the real library.
use crate::corpus::Corpus;
use crate::frame::{self, Frames};
use crate::net::{self, HANG};
use crate::util::{self, agrees, quietly, Rng};
use bsp_server::{Connection, IoThreads, Message, Request, RequestId, Response};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use crossbeam_channel::RecvTimeoutError;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Job {
    pub script: Vec<String>,
    pub ending: String,
    pub transport: String,
    pub seed: u64,
    /// Late ending: does the client have to close (after `nrep` replies) for the server to end?
    #[serde(default)]
    pub closes: bool,
    /// Only small messages.
    #[serde(default)]
    pub calm: bool,
    #[serde(default)]
    pub nrep: usize,
    /// After so many messages, and so many replies, the client gives up its reading side.
    #[serde(default)]
    pub gone: Option<(usize, usize)>,
    /// Requests may share an id.
    #[serde(default)]
    pub dup: bool,
    /// Sessions in time (Patience.tla).
    #[serde(default)]
    pub time: Option<Sched>,
}

/// When everybody does what, in milliseconds.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Sched {
    pub at: Vec<u64>,
    pub read: u64,
    pub hs: u64,
    #[serde(rename = "loop")]
    pub lp: u64,
    pub close: u64,
    pub end: u64,
}

/// How the server's program behaves.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Manner {
    pub seed: u64,
    pub hs: u64,
    pub lp: u64,
    /// its own replies are large
    pub big: bool,
    /// how long anything may take, in seconds
    pub patience: u64,
    /// how long a process stays after joining failed, in ms
    pub linger: u64,
}

impl Job {
    fn manner(&self) -> Manner {
        let t = self.time.clone().unwrap_or_default();
        let patience = if self.time.is_some() { 900 } else { HANG.as_secs() };
        Manner { seed: self.seed, hs: t.hs, lp: t.lp, big: t.read > 0 && !self.transport.starts_with("mem"), patience, linger: 4000 + t.read }
    }
}

const LARGE: usize = 6 << 20;

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
}

/// Receives no more than a few packets ahead of its reader.
fn small_window(s: &std::net::TcpStream) {
    use std::os::fd::AsRawFd;
    let size = 65_536i32;
    // SOL_SOCKET, SO_RCVBUF
    unsafe { setsockopt(s.as_raw_fd(), 1, 8, &size, 4) };
}

extern "C" {
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}

/// Reads until the end, or until told to stop.
fn pump_until(r: &mut std::process::ChildStdout, feed: &mut dyn FnMut(&[u8]), stop: &AtomicBool) {
    use std::io::{ErrorKind, Read};
    use std::os::fd::AsRawFd;
    // F_SETFL, O_NONBLOCK
    unsafe { fcntl(r.as_raw_fd(), 4, 0o4000) };
    let mut buf = [0u8; 65536];
    loop {
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => feed(&buf[..n]),
            Err(e) if e.kind() == ErrorKind::WouldBlock && !stop.load(Relaxed) => std::thread::sleep(Duration::from_micros(200)),
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
}

fn sleep_until(t0: Instant, ms: u64) {
    let d = Duration::from_millis(ms);
    if let Some(d) = d.checked_sub(t0.elapsed()) {
        std::thread::sleep(d);
    }
}

/// What the server's own code saw.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Seen {
    pub hs: String,
    pub cb: u32,
    pub cb_params: Value,
    pub ret_params: Value,
    pub init_result: Value,
    /// received by the loop: [kind, document]
    pub got: Vec<(String, Value)>,
    /// replies accepted by a send: [id, value]
    pub replied: Vec<(Value, Value)>,
    pub sd: String,
    pub jn: String,
    pub jnerr: String,
    pub phase: String,
    pub panics: Vec<String>,
    /// how long it all took
    pub ms: u64,
}

pub fn kind_of(m: &Message) -> &'static str {
    match m {
        Message::Request(_) => "request",
        Message::Notification(_) => "notification",
        Message::Response(_) => "response",
    }
}

/// The server's program: handshake, loop, shutdown, join.
pub fn serve(conn: Connection, io: Option<IoThreads>, manner: &Manner, seen: Arc<Mutex<Seen>>) {
    let set = |f: &mut dyn FnMut(&mut Seen)| f(&mut seen.lock().unwrap());
    let t0 = Instant::now();
    let seed = manner.seed;
    let mut r = Rng::new(&[&"server", &seed]);
    let mut init_result = if r.chance(6) { Value::Null } else { util::json(&mut r, seed >> 3, 0) };
    if manner.big {
        init_result = "i".repeat(LARGE).into();
    }
    set(&mut |s| {
        s.init_result = init_result.clone();
        s.phase = "hs".into();
    });
    sleep_until(t0, manner.hs);
    let hs = quietly(|| {
        conn.initialize(|p| {
            set(&mut |s| {
                s.cb += 1;
                s.cb_params = serde_json::to_value(p).unwrap();
            });
            init_result.clone()
        })
    });
    let ok = match hs {
        Ok(Ok(p)) => {
            set(&mut |s| {
                s.hs = "ok".into();
                s.ret_params = serde_json::to_value(&p).unwrap();
            });
            true
        }
        Ok(Err(_)) => {
            set(&mut |s| s.hs = "err".into());
            false
        }
        Err(p) => {
            set(&mut |s| {
                s.hs = "panic".into();
                s.panics.push(p.clone());
            });
            false
        }
    };
    set(&mut |s| {
        s.phase = "loop".into();
        s.sd = "none".into();
    });
    if ok {
        sleep_until(t0, manner.lp);
        let end = quietly(|| serve_loop(&conn, &mut r, manner, &set));
        if let Err(p) = end {
            set(&mut |s| s.panics.push(p.clone()));
        }
    }
    set(&mut |s| s.phase = "join".into());
    drop(conn);
    let jn = match io {
        None => "none".to_owned(),
        Some(io) => match quietly(|| io.join()) {
            Ok(Ok(())) => "ok".into(),
            Ok(Err(e)) => {
                set(&mut |s| s.jnerr = e.to_string());
                "err".into()
            }
            Err(p) => {
                set(&mut |s| s.panics.push(p.clone()));
                "panic".into()
            }
        },
    };
    set(&mut |s| {
        s.ms = t0.elapsed().as_millis() as u64;
        s.jn = jn.clone();
        s.phase = "end".into();
    });
}

fn serve_loop(conn: &Connection, r: &mut Rng, manner: &Manner, set: &dyn Fn(&mut dyn FnMut(&mut Seen))) {
    let patience = Duration::from_secs(manner.patience);
    let mut n = 0u64;
    for msg in &conn.receiver {
        frame::pause(r);
        let doc = serde_json::to_value(&msg).unwrap();
        set(&mut |s| s.got.push((kind_of(&msg).into(), doc.clone())));
        let req = match msg {
            Message::Request(req) => req,
            _ => continue,
        };
        set(&mut |s| s.phase = "shutdown".into());
        match conn.handle_shutdown(&req) {
            Ok(false) => {}
            Ok(true) => {
                set(&mut |s| s.sd = "done".into());
                return;
            }
            Err(_) => {
                set(&mut |s| s.sd = "err".into());
                return;
            }
        }
        set(&mut |s| s.phase = "loop".into());
        n += 1;
        let mut value = json!({"reply": n, "v": util::json(r, n, 0)});
        if manner.big {
            value["v"] = "r".repeat(LARGE).into();
        }
        let id: RequestId = req.id().clone();
        let idv = serde_json::to_value(&id).unwrap();
        let sent = match r.below(5) {
            0 => conn.send((id, value.clone())).is_ok(),
            1 => conn.send_timeout(Response::ok(id, value.clone()), patience).is_ok(),
            2 => conn.send_deadline(Response::ok(id, value.clone()), Instant::now() + patience).is_ok(),
            3 => conn.sender.send(Response::ok(id, value.clone()).into()).is_ok(),
            _ => conn.send(Message::Response(Response::ok(id, &value))).is_ok(),
        };
        if !sent {
            return;
        }
        set(&mut |s| s.replied.push((idv.clone(), value.clone())));
    }
}

/// What came back to the client, and everything else about one replay.
#[derive(Serialize, Debug, Default)]
pub struct Outcome {
    pub hs: String,
    pub cb: u32,
    /// the callback saw, and the handshake returned, the params of the init request
    pub cbok: bool,
    pub retok: bool,
    pub sd: String,
    pub jn: String,
    pub jnerr: String,
    /// for each message the loop received, the positions of the script it may be
    pub got: Vec<Vec<usize>>,
    /// for each reply, the position of the request it answers (0: none) and its class
    pub rep: Vec<(usize, String)>,
    pub closed: bool,
    pub hang: String,
    pub ms: u64,
    pub panics: Vec<String>,
    pub frame_error: Option<String>,
    pub notes: Vec<String>,
}

#[derive(Clone)]
pub struct Item {
    pub text: String,
    pub expect: Value,
    pub kind: String,
    pub id: Option<Value>,
    pub params: Value,
    /// bytes to be sent as they are (malformed messages)
    pub raw: Option<Vec<u8>>,
}

/// Concrete messages for a script of kinds.
pub fn concrete(script: &[String], corpus: &Corpus, seed: u64, dup: bool, calm: bool) -> Vec<Item> {
    let mut ids: Vec<Value> = vec![];
    // A socket closed while bytes of the client are unread is reset, which may cost the end of what is
    // still on its way; so nothing large is then on its way.
    script
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let mut tries = 0u64;
            let mut r = Rng::new(&[&"dup", &seed, &i]);
            // Nobody is obliged to use fresh ids: the last one again, any one again.
            let again = if !dup || ids.is_empty() || r.chance(3) { None } else if r.chance(2) { ids.last() } else { Some(r.pick(&ids)) }.cloned();
            loop {
                let item = corpus.message(k, &mut Rng::new(&[&"msg", &seed, &i, &tries]), again.as_ref());
                tries += 1;
                if calm && item.text.len() > 3000 {
                    continue;
                }
                if let Some(id) = &item.id {
                    if again.is_none() && ids.contains(id) {
                        continue;
                    }
                    ids.push(id.clone());
                }
                break item;
            }
        })
        .collect()
}

struct Gate {
    state: Mutex<(usize, bool, bool)>, // frames read, client's reader at end, server done
    cv: Condvar,
}

impl Gate {
    fn new() -> Arc<Gate> {
        Arc::new(Gate { state: Mutex::new((0, false, false)), cv: Condvar::new() })
    }
    fn update(&self, f: impl FnOnce(&mut (usize, bool, bool))) {
        f(&mut self.state.lock().unwrap());
        self.cv.notify_all();
    }
    fn wait(&self, limit: Duration, f: impl Fn(&(usize, bool, bool)) -> bool) -> bool {
        let g = self.state.lock().unwrap();
        let (g, _) = self.cv.wait_timeout_while(g, limit, |s| !f(s)).unwrap();
        f(&g)
    }
}

enum Wr {
    Tcp(std::net::TcpStream),
    Pipe(Option<std::process::ChildStdin>),
    Mem(Option<crossbeam_channel::Sender<Message>>),
}

pub fn run(job: &Job, corpus: &Corpus) -> Outcome {
    let mut out = Outcome::default();
    let items = concrete(&job.script, corpus, job.seed, job.dup, job.calm);
    let mut r = Rng::new(&[&"client", &job.seed]);
    let seen = Arc::new(Mutex::new(Seen::default()));
    let gate = Gate::new();
    let frames = Arc::new(Mutex::new(Frames::default()));
    let mut child = None;
    let (tx, rx) = mpsc::channel::<()>();
    let manner = job.manner();
    let time = job.time.clone().unwrap_or_default();
    let limit = HANG + Duration::from_millis(time.end.max(time.read).max(time.close).max(time.at.last().copied().unwrap_or(0)));
    let server = {
        let (seen, gate, manner) = (seen.clone(), gate.clone(), manner.clone());
        move |c: Connection, t: Option<IoThreads>| {
            serve(c, t, &manner, seen);
            gate.update(|s| s.2 = true);
            let _ = tx.send(());
        }
    };
    // The client's reader counts what it has read.
    let feed = {
        let (frames, gate) = (frames.clone(), gate.clone());
        move |b: &[u8]| {
            let n = {
                let mut f = frames.lock().unwrap();
                f.feed(b);
                f.frames.len()
            };
            gate.update(|s| s.0 = n);
        }
    };
    let mut keep_reading = None;
    let t0 = Instant::now();
    let read_at = time.read;
    let deaf = Arc::new(AtomicBool::new(false));
    // The client gives up its reading side, once all is quiet.
    let go = |n: usize| {
        if let Some((at, replies)) = job.gone {
            if at == n {
                gate.wait(HANG, |s| s.2 || s.0 >= replies);
                gate.wait(Duration::from_secs(2), |s| s.0 >= replies);
                deaf.store(true, Relaxed);
                gate.wait(HANG, |s| s.1);
            }
        }
    };
    let mut wr = match job.transport.as_str() {
        "mem" | "mem1" => {
            let (client, srv) = if job.transport == "mem" { Connection::memory() } else { net::bounded_pair(1) };
            std::thread::spawn(move || server(srv, None));
            let Connection { sender, receiver } = client;
            let (frames, gate, deaf) = (frames.clone(), gate.clone(), deaf.clone());
            let may_go = job.gone.is_some();
            std::thread::spawn(move || {
                sleep_until(t0, read_at);
                loop {
                    let m = if may_go { receiver.recv_timeout(Duration::from_micros(300)) } else { receiver.recv().map_err(Into::into) };
                    let m = match m {
                        Ok(m) => m,
                        Err(RecvTimeoutError::Timeout) if !deaf.load(Relaxed) => continue,
                        Err(_) => break,
                    };
                    let n = {
                        let mut f = frames.lock().unwrap();
                        f.frames.push(serde_json::to_value(&m).unwrap());
                        f.frames.len()
                    };
                    gate.update(|s| s.0 = n);
                }
                drop(receiver);
                gate.update(|s| s.1 = true);
            });
            Wr::Mem(Some(sender))
        }
        "connect" | "listen" => {
            let s = match net::tcp_pair(job.transport == "listen", move |c, t| server(c, Some(t))) {
                Ok(s) => s,
                Err(e) => {
                    out.hang = format!("no connection: {e}");
                    return out;
                }
            };
            if read_at > 0 {
                small_window(&s);
            }
            let mut rs = s.try_clone().unwrap();
            let gate2 = gate.clone();
            let mut feed = feed;
            std::thread::spawn(move || {
                sleep_until(t0, read_at);
                frame::pump(&mut rs, &mut feed);
                gate2.update(|s| s.1 = true);
            });
            keep_reading = Some(s.try_clone().unwrap());
            Wr::Tcp(s)
        }
        "stdio" => {
            drop(server);
            let mut c = Command::new(std::env::current_exe().unwrap())
                .args(["stdio-server", &serde_json::to_string(&manner).unwrap()])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap();
            let stdin = c.stdin.take();
            let mut so = c.stdout.take().unwrap();
            let se = c.stderr.take().unwrap();
            let gate2 = gate.clone();
            let mut feed = feed;
            let deaf = deaf.clone();
            let may_go = job.gone.is_some();
            std::thread::spawn(move || {
                sleep_until(t0, read_at);
                if may_go {
                    pump_until(&mut so, &mut feed, &deaf);
                } else {
                    frame::pump(&mut so, &mut feed);
                }
                drop(so);
                gate2.update(|s| s.1 = true);
            });
            let (gate2, seen2) = (gate.clone(), seen.clone());
            std::thread::spawn(move || {
                let mut line = String::new();
                let _ = BufReader::new(se).read_line(&mut line);
                if let Ok(s) = serde_json::from_str::<Seen>(&line) {
                    *seen2.lock().unwrap() = s;
                }
                gate2.update(|s| s.2 = true);
            });
            child = Some(c);
            Wr::Pipe(stdin)
        }
        t => panic!("transport {t}"),
    };

    // Write the script.
    match &mut wr {
        Wr::Mem(sender) => {
            for (i, it) in items.iter().enumerate() {
                sleep_until(t0, time.at.get(i).copied().unwrap_or(0));
                go(i);
                match serde_json::from_str::<Message>(&it.text) {
                    Ok(m) => {
                        let _ = sender.as_ref().unwrap().send(m);
                    }
                    Err(e) => out.notes.push(format!("not a message: {e}: {:.300}", it.text)),
                }
                frame::pause(&mut r);
            }
            go(items.len());
        }
        _ => {
            sleep_until(t0, time.at.first().copied().unwrap_or(0));
            go(0);
            let mut bytes = vec![];
            for (i, it) in items.iter().enumerate() {
                match &it.raw {
                    Some(b) => bytes.extend_from_slice(b),
                    None => bytes.extend_from_slice(&frame::frame(it.text.as_bytes(), &mut r)),
                }
                let next = time.at.get(i + 1).copied().unwrap_or(0);
                if i + 1 == items.len() || next > 0 || job.gone.map_or(false, |g| g.0 == i + 1) {
                    let frags = frame::fragments(&std::mem::take(&mut bytes), &mut r);
                    match &mut wr {
                        Wr::Tcp(s) => frame::write_fragments(s, &frags, &mut r),
                        Wr::Pipe(Some(p)) => frame::write_fragments(p, &frags, &mut r),
                        _ => true,
                    };
                    sleep_until(t0, next);
                    go(i + 1);
                }
            }
        }
    }
    let close = |wr: &mut Wr| match wr {
        Wr::Tcp(s) => net::half_close(s),
        Wr::Pipe(p) => drop(p.take()),
        Wr::Mem(s) => drop(s.take()),
    };
    if job.ending == "eof" {
        close(&mut wr);
        out.closed = true;
    } else if job.closes {
        if time.close > 0 {
            sleep_until(t0, time.close + 700);
        }
        if !gate.wait(limit, |s| s.2 || s.0 >= job.nrep || s.1 && job.gone.is_some()) {
            out.hang = "replies".into();
        }
        if !gate.wait(Duration::ZERO, |s| s.2) {
            close(&mut wr);
            out.closed = true;
        }
    } else if !gate.wait(limit, |s| s.2) {
        out.hang = format!("server ({})", seen.lock().unwrap().phase);
        close(&mut wr);
        out.closed = true;
    }
    if out.hang.is_empty() && !gate.wait(limit, |s| s.2) {
        out.hang = format!("server ({})", seen.lock().unwrap().phase);
    }
    let _ = rx.try_recv();
    if out.hang.is_empty() {
        if child.is_some() {
            if !gate.wait(Duration::from_secs(5) + Duration::from_millis(read_at), |s| s.1 || s.0 >= job.nrep) {
                out.notes.push("replies missing".into());
            }
        } else if !gate.wait(limit, |s| s.1) {
            out.hang = "client's reader".into();
        }
    }
    close(&mut wr);
    if let Some(mut c) = child {
        if out.hang.is_empty() {
            // The process exits by itself once its standard input is closed.
            let limit = if seen.lock().unwrap().jn == "ok" { 5000 } else { 20 };
            let start = Instant::now();
            while c.try_wait().ok().flatten().is_none() && start.elapsed() < Duration::from_millis(limit) {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        let _ = c.kill();
        let _ = c.wait();
        gate.wait(Duration::from_secs(5), |s| s.1);
    }
    drop(keep_reading);

    // Abstract what was seen.
    let seen = seen.lock().unwrap().clone();
    let mut frames = frames.lock().unwrap();
    if !job.transport.starts_with("mem") && out.hang.is_empty() {
        frames.finish();
    }
    out.frame_error = frames.error.clone();
    out.ms = seen.ms;
    out.hs = seen.hs.clone();
    out.cb = seen.cb;
    out.sd = seen.sd.clone();
    out.jn = seen.jn.clone();
    out.jnerr = seen.jnerr.clone();
    out.panics = seen.panics.clone();
    if let Some(i) = items.iter().find(|i| i.kind == "init") {
        out.cbok = agrees(&i.params, &seen.cb_params).is_ok();
        out.retok = agrees(&i.params, &seen.ret_params).is_ok();
        if seen.cb > 0 && !out.cbok {
            out.notes.push(format!("callback: {:?}", agrees(&i.params, &seen.cb_params)));
        }
    }
    for (kind, doc) in &seen.got {
        let pos: Vec<usize> = items
            .iter()
            .enumerate()
            .filter(|(_, it)| it.raw.is_none() && &it.kind_name() == kind && agrees(&it.expect, doc).is_ok())
            .map(|(i, _)| i + 1)
            .collect();
        if pos.is_empty() {
            out.notes.push(format!("received {kind} {}", util::short(doc)));
        }
        out.got.push(pos);
    }
    let mut answered = vec![false; items.len()];
    for f in &frames.frames {
        let id = f.get("id").cloned().unwrap_or(Value::Null);
        // Requests which share an id are answered in order; the last one for good.
        let of_id = |p: &usize| items[*p].id.as_ref() == Some(&id);
        let pos = (0..items.len()).filter(of_id).find(|p| !answered[*p]).or((0..items.len()).filter(of_id).last()).map_or(0, |p| p + 1);
        if pos > 0 {
            answered[pos - 1] = true;
        }
        let mut keys: Vec<&str> = f.as_object().unwrap().keys().map(|s| s.as_str()).filter(|k| *k != "jsonrpc").collect();
        keys.sort();
        let class = if keys == ["error", "id"] {
            let code = &f["error"]["code"];
            if f["error"]["message"].is_string() && f["error"].get("data").map_or(true, Value::is_null) {
                code.to_string()
            } else {
                format!("other {}", util::short(f))
            }
        } else if keys == ["id", "result"] {
            if seen.replied.iter().any(|(i, v)| *i == id && *v == f["result"]) {
                "ok".into()
            } else if pos > 0 && items[pos - 1].kind == "shut" && f["result"].is_null() {
                "null".into()
            } else if f["result"] == seen.init_result {
                "init".into()
            } else {
                format!("other {}", util::short(f))
            }
        } else {
            format!("other {}", util::short(f))
        };
        out.rep.push((pos, class));
    }
    out
}

impl Item {
    pub fn kind_name(&self) -> String {
        match self.kind.as_str() {
            "init" | "shut" | "req" => "request",
            "inited" | "exit" | "note" => "notification",
            "resp" => "response",
            k => k,
        }
        .to_owned()
    }
}

/// The server process of the stdio transport: reports what it saw on standard error.
pub fn stdio_server(manner: &str) {
    let manner: Manner = serde_json::from_str(manner).unwrap();
    let (conn, io) = Connection::stdio();
    let seen = Arc::new(Mutex::new(Seen::default()));
    serve(conn, Some(io), &manner, seen.clone());
    let line = serde_json::to_string(&*seen.lock().unwrap()).unwrap();
    let mut e = std::io::stderr();
    let _ = e.write_all(line.as_bytes());
    let _ = e.write_all(b"\n");
    let _ = e.flush();
    // Replies may still be on their way if joining failed; the client ends this process.
    std::thread::sleep(Duration::from_millis(if seen.lock().unwrap().jn == "ok" { 0 } else { manner.linger }));
}

pub fn main(args: &[String]) {
    let corpus = Corpus::load(&args[1]);
    let jobs: Vec<Job> = util::read_lines(&args[0]).into_iter().map(|v| serde_json::from_value(v).unwrap()).collect();
    let hangs = std::sync::atomic::AtomicUsize::new(0);
    // Jobs in time sleep most of it.
    let threads = if jobs.iter().any(|j| j.time.is_some()) { jobs.len() } else { args.get(3).map_or(16, |n| n.parse().unwrap()) };
    let outs = util::parallel(jobs, threads.max(1), |j| {
        if j.time.is_none() && hangs.load(std::sync::atomic::Ordering::Relaxed) > 8 {
            return None;
        }
        let o = run(&j, &corpus);
        if !o.hang.is_empty() {
            hangs.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        Some(o)
    });
    let mut w = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    for o in outs {
        writeln!(w, "{}", serde_json::to_string(&o).unwrap()).unwrap();
    }
}

pub fn is_shutdown(r: &Request) -> bool {
    matches!(r, Request::Shutdown(_))
}
