//! Backpressure: programs of Flow.tla on real transports (C19; C05, C06, C07, C09, C18).
use crate::channel::Mode;
use crate::frame::{self, Frames};
use crate::net;
use crate::report::Report;
use crate::util::{parallel, quietly, Rng};
use bsp_server::{Connection, IoThreads, Message, Notification, Request, RequestId, Response};
use crossbeam_channel::{RecvTimeoutError, SendTimeoutError, TrySendError};
use serde::{Deserialize, Serialize};
use serde_json::{json, to_value, Value};
use std::io::{self, BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// Nothing has moved for so long: it is blocked.
const STALL: Duration = Duration::from_millis(350);
/// Patience with what has to come (many small steps on a busy machine).
const HANG: Duration = Duration::from_secs(60);
/// More than the kernel takes for these sockets.
const TOO_MUCH: usize = 28 << 20;

pub fn message(n: u64, size: usize, shape: u64) -> Message {
    let pad = match shape % 2 {
        0 => "p".repeat(size),
        _ => "\u{e9}\n".repeat(size / 4),
    };
    let v = json!({"n": n, "pad": pad});
    match (shape / 2) % 3 {
        0 => Message::Notification(Notification::Custom("x/flow", v)),
        1 => Message::Request(Request::Custom(RequestId::from(n as i32), "x/flow", v)),
        _ => Message::Response(Response::ok(RequestId::from(format!("{n}")), v)),
    }
}

/// The number of a message if it is one of ours, whole.
pub fn number(v: &Value, size: usize, shape: u64) -> Result<u64, String> {
    let body = v.get("params").or(v.get("result"));
    let n = body.and_then(|b| b["n"].as_u64()).ok_or_else(|| format!("unknown message {:.200}", v.to_string()))?;
    let mut exp = to_value(message(n, size, shape)).unwrap();
    let mut act = v.clone();
    for x in [&mut exp, &mut act] {
        x.as_object_mut().unwrap().remove("jsonrpc");
    }
    if exp != act {
        return Err(format!("message {n} is changed: {:.200}", act.to_string()));
    }
    Ok(n)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Do {
    Recv(u64),
    /// Everything until the inbound side is closed.
    RecvAll,
    Flood(usize),
    Try,
    Wait,
    Waited,
    Send,
    Gone,
    /// Gives up its sender, or its receiver.
    Mute,
    Deaf,
    Drop,
    Joined(u64),
}

#[derive(Serialize, Deserialize, Debug, Clone, Default)]
struct Did {
    /// messages received, or accepted by a send
    ns: Vec<u64>,
    res: String,
    bytes: usize,
    bad: Option<String>,
}

/// The server's side of a program: does as it is told.
struct Agent {
    conn: Option<Connection>,
    io: Option<IoThreads>,
    join: Option<mpsc::Receiver<String>>,
    wait: Option<(u64, mpsc::Receiver<Result<(), Value>>)>,
    next: u64,
    size: usize,
    shape: u64,
    r: Rng,
}

impl Agent {
    fn new(conn: Connection, io: IoThreads, size: usize, shape: u64) -> Agent {
        Agent { conn: Some(conn), io: Some(io), join: None, wait: None, next: 1, size, shape, r: Rng::new(&[&"agent", &size, &shape]) }
    }

    /// One send; what it returns.
    fn send(&mut self, mode: Mode, d: &mut Did) -> &'static str {
        let n = self.next;
        self.next += 1;
        let m = message(n, self.size, self.shape);
        let c = self.conn.as_ref().unwrap();
        let start = Instant::now();
        let (res, back) = match mode {
            Mode::Plain => match c.send(m) {
                Ok(()) => ("ok", None),
                Err(e) => ("disconnected", Some(e.0)),
            },
            Mode::Try => match c.try_send(m) {
                Ok(()) => ("ok", None),
                Err(TrySendError::Full(m)) => ("full", Some(m)),
                Err(TrySendError::Disconnected(m)) => ("disconnected", Some(m)),
            },
            Mode::Timed(_) | Mode::Deadline(_) => {
                let (r, limit) = match mode {
                    Mode::Timed(t) => (c.send_timeout(m, t), start + t),
                    Mode::Deadline(t) => (c.send_deadline(m, t), t),
                    _ => unreachable!(),
                };
                if Instant::now() < limit && matches!(r, Err(SendTimeoutError::Timeout(_))) {
                    d.bad = Some("a send times out too early".into());
                }
                match r {
                    Ok(()) => ("ok", None),
                    Err(SendTimeoutError::Timeout(m)) => ("timeout", Some(m)),
                    Err(SendTimeoutError::Disconnected(m)) => ("disconnected", Some(m)),
                }
            }
        };
        if let Some(m) = back {
            if number(&to_value(m).unwrap(), self.size, self.shape) != Ok(n) {
                d.bad = Some(format!("message {n}, not sent, comes back as another one"));
            }
        } else {
            d.ns.push(n);
        }
        res
    }

    fn act(&mut self, what: Do) -> Did {
        let mut d = Did::default();
        match what {
            Do::Recv(k) => {
                for _ in 0..k {
                    match self.conn.as_ref().unwrap().receiver.recv_timeout(HANG) {
                        Ok(m) => match number(&to_value(m).unwrap(), self.size, self.shape) {
                            Ok(n) => d.ns.push(n),
                            Err(e) => d.bad = Some(e),
                        },
                        Err(e) => {
                            d.bad = Some(format!("{} messages, then: {e}", d.ns.len()));
                            break;
                        }
                    }
                }
            }
            Do::RecvAll => loop {
                match self.conn.as_ref().unwrap().receiver.recv_timeout(HANG) {
                    Ok(Message::Notification(Notification::Exit)) => d.ns.push(1_000_000),
                    Ok(m) => match number(&to_value(m).unwrap(), self.size, self.shape) {
                        Ok(n) => d.ns.push(n),
                        Err(e) => d.bad = Some(e),
                    },
                    Err(RecvTimeoutError::Disconnected) => break,
                    Err(e) => {
                        d.bad = Some(format!("{} messages, then: {e}", d.ns.len()));
                        break;
                    }
                }
            },
            Do::Flood(most) => loop {
                let mode = if self.r.chance(2) { Mode::Timed(STALL) } else { Mode::Deadline(Instant::now() + STALL) };
                d.res = self.send(mode, &mut d).into();
                if d.res != "ok" {
                    break;
                }
                d.bytes += self.size;
                if d.bytes > most {
                    break;
                }
            },
            Do::Try => {
                for mode in [Mode::Try, Mode::Timed(Duration::ZERO), Mode::Try, Mode::Timed(Duration::from_millis(15)), Mode::Deadline(Instant::now())] {
                    let x = self.send(mode, &mut d);
                    d.res += x;
                    d.res += " ";
                }
            }
            Do::Wait => {
                let (tx, rx) = mpsc::channel();
                let n = self.next;
                self.next += 1;
                let m = message(n, self.size, self.shape);
                let c = self.conn.as_ref().unwrap();
                let c = Connection { sender: c.sender.clone(), receiver: c.receiver.clone() };
                std::thread::spawn(move || tx.send(c.send(m).map_err(|e| to_value(e.0).unwrap())));
                d.res = match rx.recv_timeout(Duration::from_millis(60)) {
                    Err(mpsc::RecvTimeoutError::Timeout) => "waits".into(),
                    r => {
                        if let Ok(Ok(())) = r {
                            d.ns.push(n);
                        }
                        format!("{r:?}")
                    }
                };
                self.wait = Some((n, rx));
            }
            Do::Waited => {
                let (n, rx) = self.wait.take().unwrap();
                d.res = match rx.recv_timeout(HANG) {
                    Ok(Ok(())) => {
                        d.ns.push(n);
                        "ok".into()
                    }
                    Ok(Err(m)) => {
                        if number(&m, self.size, self.shape) != Ok(n) {
                            d.bad = Some(format!("message {n}, not sent, comes back as another one"));
                        }
                        "disconnected".into()
                    }
                    Err(e) => e.to_string(),
                };
            }
            Do::Send => {
                let mode = match self.r.below(4) {
                    0 => Mode::Plain,
                    1 => Mode::Timed(HANG),
                    2 => Mode::Deadline(Instant::now() + HANG),
                    // ready soon
                    _ => {
                        let start = Instant::now();
                        while start.elapsed() < HANG {
                            let n = self.next;
                            let x = self.send(Mode::Try, &mut d);
                            if x != "full" {
                                d.res = x.into();
                                return d;
                            }
                            self.next = n;
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        d.res = "never ready".into();
                        return d;
                    }
                };
                d.res = self.send(mode, &mut d).into();
            }
            Do::Gone => {
                let start = Instant::now();
                loop {
                    d.res = self.send(Mode::Timed(HANG), &mut d).into();
                    if d.res != "ok" || start.elapsed() > HANG {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
            Do::Mute => self.conn.as_mut().unwrap().sender = crossbeam_channel::bounded(0).0,
            Do::Deaf => self.conn.as_mut().unwrap().receiver = crossbeam_channel::bounded(0).1,
            Do::Drop => {
                self.conn = None;
                let (tx, rx) = mpsc::channel();
                let io = self.io.take().unwrap();
                std::thread::spawn(move || {
                    let _ = tx.send(match quietly(|| io.join()) {
                        Ok(Ok(())) => "ok".into(),
                        Ok(Err(e)) => format!("err: {e}"),
                        Err(p) => format!("panic: {p}"),
                    });
                });
                self.join = Some(rx);
            }
            Do::Joined(ms) => d.res = self.join.as_ref().unwrap().recv_timeout(Duration::from_millis(ms)).unwrap_or("waits".into()),
        }
        d
    }
}

/// Sockets of either kind.
trait Wire: Read + Write + Send + AsRawFd {
    fn times(&self, t: Duration) -> io::Result<()>;
}
impl Wire for TcpStream {
    fn times(&self, t: Duration) -> io::Result<()> {
        self.set_read_timeout(Some(t))?;
        self.set_write_timeout(Some(t))
    }
}
impl Wire for UnixStream {
    fn times(&self, t: Duration) -> io::Result<()> {
        self.set_read_timeout(Some(t))?;
        self.set_write_timeout(Some(t))
    }
}

/// Small buffers at our end.
fn small(s: &impl AsRawFd) {
    extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
    }
    let v: i32 = 64 << 10;
    // SOL_SOCKET, SO_SNDBUF and SO_RCVBUF
    unsafe {
        setsockopt(s.as_raw_fd(), 1, 7, &v, 4);
        setsockopt(s.as_raw_fd(), 1, 8, &v, 4);
    }
}

/// The peer, and its line to the agent.
struct Peer {
    tx: Option<Box<dyn Wire>>,
    rx: Option<Box<dyn Wire>>,
    half: Option<TcpStream>,
    child: Option<Child>,
    tell: Box<dyn FnMut(&Do) -> Result<(), String> + Send>,
    hear: Box<dyn FnMut() -> Result<Did, String> + Send>,
    frames: Frames,
    seen: usize,
    size: usize,
    shape: u64,
    wrote: u64,
    got: u64,
    partial: Vec<u8>,
    accepted: Vec<u64>,
    read: Vec<u64>,
    waits: bool,
    mute: bool,
    deaf: bool,
    r: Rng,
}

impl Drop for Peer {
    fn drop(&mut self) {
        if let Some(c) = &mut self.child {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn start(transport: &str, size: usize, shape: u64) -> io::Result<Peer> {
    let other = |e: String| io::Error::new(io::ErrorKind::Other, e);
    let mut child = None;
    let (tx, rx, half): (Box<dyn Wire>, Box<dyn Wire>, _);
    let tell: Box<dyn FnMut(&Do) -> Result<(), String> + Send>;
    let hear: Box<dyn FnMut() -> Result<Did, String> + Send>;
    if transport == "stdio" {
        let mut tries = 0;
        let l = loop {
            match TcpListener::bind(net::fresh_addr()) {
                Err(_) if tries < 50 => tries += 1,
                l => break l?,
            }
        };
        let (i, ci) = UnixStream::pair()?;
        let (o, co) = UnixStream::pair()?;
        let c = Command::new(std::env::current_exe()?)
            .args(["flow-agent", &l.local_addr()?.to_string(), &size.to_string(), &shape.to_string()])
            .stdin(Stdio::from(OwnedFd::from(ci)))
            .stdout(Stdio::from(OwnedFd::from(co)))
            .stderr(Stdio::null())
            .spawn()?;
        child = Some(c);
        let (ctl, _) = l.accept()?;
        ctl.set_nodelay(true)?;
        let mut w = ctl.try_clone()?;
        let mut r = BufReader::new(ctl);
        tell = Box::new(move |d| writeln!(w, "{}", serde_json::to_string(d).unwrap()).map_err(|e| e.to_string()));
        hear = Box::new(move || {
            let mut l = String::new();
            r.get_ref().set_read_timeout(Some(HANG * 2)).unwrap();
            r.read_line(&mut l).map_err(|e| format!("the server does not answer: {e}"))?;
            serde_json::from_str(&l).map_err(|_| "the server's process ends".to_owned())
        });
        small(&i);
        small(&o);
        tx = Box::new(i);
        rx = Box::new(o);
        half = None;
    } else {
        let (ctx, crx) = mpsc::channel::<Do>();
        let (dtx, drx) = mpsc::channel::<Did>();
        let s = net::tcp_pair(transport == "listen", move |c, io| {
            let mut a = Agent::new(c, io, size, shape);
            for d in crx {
                let d = quietly(|| a.act(d)).unwrap_or_else(|p| Did { bad: Some(format!("panic: {p}")), ..Did::default() });
                if dtx.send(d).is_err() {
                    break;
                }
            }
        })?;
        small(&s);
        tell = Box::new(move |d| ctx.send(d.clone()).map_err(|e| e.to_string()));
        hear = Box::new(move || drx.recv_timeout(HANG * 2).map_err(|e| format!("the server does not answer: {e}")));
        half = Some(s.try_clone()?);
        tx = Box::new(s.try_clone()?);
        rx = Box::new(s);
    }
    tx.times(STALL).map_err(|e| other(e.to_string()))?;
    Ok(Peer {
        tx: Some(tx),
        rx: Some(rx),
        half,
        child,
        tell,
        hear,
        frames: Frames::default(),
        seen: 0,
        size,
        shape,
        wrote: 0,
        got: 0,
        partial: vec![],
        accepted: vec![],
        read: vec![],
        waits: false,
        mute: false,
        deaf: false,
        r: Rng::new(&[&"peer", &transport, &size, &shape]),
    })
}

type Fail = (Vec<&'static str>, String);

impl Peer {
    fn ask(&mut self, d: Do, props: &[&'static str]) -> Result<Did, Fail> {
        let r = (self.tell)(&d).and_then(|_| (self.hear)());
        r.map_err(|e| (props.to_vec(), format!("{d:?}: {e}")))
    }

    fn next_frame(&mut self) -> Vec<u8> {
        let n = self.wrote + 1;
        let mut v = to_value(message(n, self.size, self.shape)).unwrap();
        v.as_object_mut().unwrap().insert("jsonrpc".into(), json!("2.0"));
        frame::frame(v.to_string().as_bytes(), &mut self.r)
    }

    /// Writes what fits; false: blocked.
    fn push(&mut self, patience: Duration) -> Result<bool, Fail> {
        let t = self.tx.as_mut().unwrap();
        let _ = t.times(STALL);
        let start = Instant::now();
        while !self.partial.is_empty() {
            match t.write(&self.partial) {
                Ok(n) => {
                    self.partial.drain(..n);
                }
                Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut) => {
                    if start.elapsed() >= patience {
                        return Ok(false);
                    }
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err((vec!["C05", "C09", "C19"], format!("writing to the server: {e}"))),
            }
        }
        Ok(true)
    }

    /// Reads until `k` messages are there; `end`: until the end of the stream.
    fn pull(&mut self, k: usize, end: bool) -> Result<(), Fail> {
        let mut buf = vec![0u8; 1 << 17];
        let start = Instant::now();
        let rx = self.rx.as_mut().unwrap();
        let _ = rx.times(Duration::from_millis(500));
        while end || self.frames.frames.len() < k {
            match rx.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => self.frames.feed(&buf[..n]),
                Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut) => {
                    if start.elapsed() > HANG {
                        return Err((vec!["C07", "C19"], format!("{} messages read of {k}, then nothing", self.frames.frames.len())));
                    }
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) if end => {
                    let _ = e;
                    break;
                }
                Err(e) => return Err((vec!["C07", "C09"], format!("reading from the server: {e}"))),
            }
            if let Some(e) = &self.frames.error {
                return Err((vec!["C07"], format!("bad frame: {e}")));
            }
        }
        while self.seen < self.frames.frames.len() {
            let v = std::mem::take(&mut self.frames.frames[self.seen]);
            self.seen += 1;
            let n = number(&v, self.size, self.shape).map_err(|e| (vec!["C07", "C12"], e))?;
            self.read.push(n);
        }
        Ok(())
    }

    /// What was read is what was accepted (so far).
    fn compare(&self, whole: bool) -> Result<(), Fail> {
        if self.read == self.accepted || (!whole && self.accepted.starts_with(&self.read)) {
            return Ok(());
        }
        let at = self.read.iter().zip(&self.accepted).position(|(a, b)| a != b).unwrap_or(self.read.len().min(self.accepted.len()));
        let unsent: Vec<u64> = self.read.iter().filter(|n| !self.accepted.contains(n)).cloned().collect();
        let mut p = vec!["C07", "C19"];
        if !unsent.is_empty() {
            p = vec!["C18", "C07"];
        }
        Err((p, format!("{} messages accepted, {} read; they differ from number {} on ({:?} for {:?}); never accepted: {unsent:?}", self.accepted.len(), self.read.len(), at + 1, self.read.get(at), self.accepted.get(at))))
    }

    fn received(&mut self, d: Did, whole: bool) -> Result<(), Fail> {
        let exp: Vec<u64> = (self.got + 1..=self.wrote).collect();
        if let Some(b) = d.bad {
            return Err((vec!["C05", "C19"], format!("{} messages expected: {b}", exp.len())));
        }
        if d.ns != exp && !(!whole && exp.starts_with(&d.ns)) {
            return Err((vec!["C05", "C19"], format!("messages {}..={} were written, received: {:?}", self.got + 1, self.wrote, &d.ns[..d.ns.len().min(20)])));
        }
        self.got += d.ns.len() as u64;
        Ok(())
    }

    fn sent(&mut self, d: &Did) -> Result<(), Fail> {
        self.accepted.extend(&d.ns);
        match &d.bad {
            Some(b) => Err((vec!["C18"], b.clone())),
            None => Ok(()),
        }
    }

    fn waited(&mut self, allowed: &[&str]) -> Result<(), Fail> {
        if self.waits {
            self.waits = false;
            let d = self.ask(Do::Waited, &["C18", "C19"])?;
            if !allowed.contains(&d.res.as_str()) {
                return Err((vec!["C18", "C19"], format!("a waiting send gives {}", d.res)));
            }
            self.sent(&d)?;
        }
        Ok(())
    }

    /// A socket may make room although nobody reads, for a while.
    fn again(&self) -> usize {
        if self.child.is_some() {
            0
        } else {
            4
        }
    }

    /// The server has dropped its connection: what is left to read, and the result of joining.
    fn last(&mut self, full: bool, exp: &str, props: &[&'static str]) -> Result<(), Fail> {
        self.ask(Do::Drop, props)?;
        // (a socket may still make room by itself)
        if full && exp == "ok" && self.child.is_some() {
            let d = self.ask(Do::Joined(40), props)?;
            if d.res != "waits" {
                return Err((vec!["C07", "C09"], format!("joining gives {} while messages are still to be written", d.res)));
            }
        }
        let k = self.accepted.len();
        if exp != "err" {
            self.pull(k, false)?;
        }
        self.join(exp, props)?;
        if self.child.is_none() && exp != "err" {
            self.pull(k, true)?;
        }
        self.compare(exp != "err")
    }

    fn join(&mut self, exp: &str, props: &[&'static str]) -> Result<(), Fail> {
        let d = self.ask(Do::Joined(HANG.as_millis() as u64), props)?;
        if (exp != "any" && (exp == "ok") != (d.res == "ok")) || !["ok", "err"].contains(&d.res.split(':').next().unwrap()) {
            return Err((props.to_vec(), format!("joining gives {}, not {exp}", d.res)));
        }
        Ok(())
    }

    fn step(&mut self, cmd: &str, token: &str, out_full: bool) -> Result<(), Fail> {
        let fail = |p: &[&'static str], w: String| Err((p.to_vec(), w));
        let ok = token.rsplit(' ').next().unwrap();
        match cmd {
            "flood-in" => {
                let mut bytes = 0;
                loop {
                    self.partial = self.next_frame();
                    self.wrote += 1;
                    let n = self.partial.len();
                    if !self.push(Duration::ZERO)? {
                        break;
                    }
                    bytes += n;
                    if bytes > TOO_MUCH {
                        return fail(&["C19"], format!("{bytes} bytes ({} messages) are taken from the peer although the server receives nothing", self.wrote - self.got));
                    }
                }
            }
            "drain-in" => {
                let k = self.wrote - self.got;
                (self.tell)(&Do::Recv(k)).map_err(|e| (vec!["C19"], e))?;
                if !self.push(HANG)? {
                    return fail(&["C19", "C05"], "the peer's writes stay blocked although the server receives".into());
                }
                let d = (self.hear)().map_err(|e| (vec!["C05", "C19"], e))?;
                self.received(d, true)?;
            }
            "ping-in" => {
                self.partial = self.next_frame();
                self.wrote += 1;
                (self.tell)(&Do::Recv(1)).map_err(|e| (vec!["C19"], e))?;
                self.push(HANG)?;
                let d = (self.hear)().map_err(|e| (vec!["C05", "C19"], e))?;
                self.received(d, true)?;
            }
            "flood-out" => {
                let d = self.ask(Do::Flood(TOO_MUCH), &["C19"])?;
                self.sent(&d)?;
                match d.res.as_str() {
                    "timeout" => {}
                    "ok" => return fail(&["C19"], format!("{} messages of {} bytes are accepted although the peer reads nothing", d.ns.len(), self.size)),
                    x => return fail(&["C18", "C19"], format!("a send to a slow peer gives {x}")),
                }
            }
            "try-out" => {
                let mut d = self.ask(Do::Try, &["C18"])?;
                self.sent(&d)?;
                for _ in 0..self.again() {
                    if d.ns.is_empty() {
                        break;
                    }
                    self.step("flood-out", "blocked", true)?;
                    d = self.ask(Do::Try, &["C18"])?;
                    self.sent(&d)?;
                }
                if d.res != "full timeout full timeout timeout " {
                    return fail(&["C18"], format!("sends which must not wait give {}", d.res));
                }
            }
            "wait-out" => {
                let mut d = self.ask(Do::Wait, &["C18"])?;
                for _ in 0..self.again() {
                    if d.res != "Ok(Ok(()))" {
                        break;
                    }
                    self.accepted.extend(&d.ns);
                    self.step("flood-out", "blocked", true)?;
                    d = self.ask(Do::Wait, &["C18"])?;
                }
                if d.res != "waits" {
                    return fail(&["C18", "C19"], format!("a plain send to a slow peer gives {}", d.res));
                }
                self.waits = true;
            }
            "drain-out" => {
                self.pull(self.accepted.len(), false)?;
                self.waited(&["ok"])?;
                self.pull(self.accepted.len(), false)?;
                self.compare(true)?;
            }
            "ping-out" => {
                let d = self.ask(Do::Send, &["C07", "C19"])?;
                self.sent(&d)?;
                if d.res != "ok" {
                    return fail(&["C07", "C18", "C19"], format!("a send gives {}", d.res));
                }
                self.pull(self.accepted.len(), false)?;
                self.compare(true)?;
            }
            "exit" | "eof" => {
                if cmd == "exit" {
                    self.partial = frame::frame(br#"{"jsonrpc":"2.0","method":"build/exit"}"#, &mut self.r);
                    self.push(HANG)?;
                } else {
                    match &self.half {
                        Some(s) => net::half_close(s),
                        None => drop(self.tx.take()),
                    }
                }
                if !self.deaf {
                    let mut d = self.ask(Do::RecvAll, &["C05", "C06"])?;
                    if cmd == "exit" && d.ns.pop() != Some(1_000_000) {
                        return fail(&["C06", "C05"], "exit is not delivered".into());
                    }
                    self.received(d, true)?;
                }
                let full = out_full && !self.waits;
                if self.waits {
                    self.pull(self.accepted.len(), false)?;
                    self.waited(&["ok"])?;
                }
                self.last(full, ok, &["C09", "C07"])?;
            }
            "drop" => {
                self.ask(Do::Drop, &["C09"])?;
                if out_full && ok == "ok" && self.child.is_some() {
                    let d = self.ask(Do::Joined(40), &["C09"])?;
                    if d.res != "waits" {
                        return fail(&["C07", "C09"], format!("joining gives {} while messages are still to be written", d.res));
                    }
                }
                if ok == "ok" {
                    self.pull(self.accepted.len(), false)?;
                    match &self.half {
                        Some(s) => net::half_close(s),
                        None => drop(self.tx.take()),
                    }
                } else {
                    // joining must not wait for a peer which neither reads nor closes
                    self.join(ok, &["C09"])?;
                }
                if self.child.is_none() {
                    // the server's end is closed only when both threads have ended
                    let _ = self.pull(self.accepted.len(), true);
                }
                if ok == "ok" {
                    self.join(ok, &["C09"])?;
                }
                self.compare(ok == "ok")?;
            }
            "vanish" => {
                self.tx = None;
                self.rx = None;
                self.half = None;
                if !self.deaf {
                    let d = self.ask(Do::RecvAll, &["C09"])?;
                    // A message may have been cut off.
                    self.received(d, false)?;
                }
                self.waited(&["ok", "disconnected"])?;
                if !self.mute {
                    let d = self.ask(Do::Gone, &["C09", "C18"])?;
                    self.sent(&d)?;
                    if d.res != "disconnected" {
                        return fail(&["C09", "C18"], format!("a send to a peer which is gone gives {}", d.res));
                    }
                }
                self.ask(Do::Drop, &["C09"])?;
                self.join(ok, &["C09"])?;
            }
            "mute" => {
                self.ask(Do::Mute, &["C05", "C07"])?;
                self.mute = true;
            }
            "deaf" => {
                self.ask(Do::Deaf, &["C05", "C07"])?;
                self.deaf = true;
            }
            c => panic!("command {c}"),
        }
        Ok(())
    }
}

fn run(prog: &[(&str, &str)], transport: &str, size: usize, shape: u64) -> Result<(), Fail> {
    let mut p = start(transport, size, shape).map_err(|e| (vec!["C20"], format!("no connection: {e}")))?;
    let mut full = false;
    for (i, (cmd, token)) in prog.iter().enumerate() {
        p.step(cmd, token, full).map_err(|(ps, w)| (ps, format!("step {} ({cmd}, expected: {token}): {w}", i + 1)))?;
        full = match *cmd {
            "flood-out" => true,
            "drain-out" => false,
            _ => full,
        };
    }
    Ok(())
}

/// flow VECTORS SEED PER_PROGRAM OUT
pub fn main(args: &[String]) {
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let (seed, per): (u64, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let rep = Report::default();
    let mut jobs = vec![];
    for l in text.lines() {
        let mut r = Rng::new(&[&"flow", &seed, &l]);
        let first = r.below(3);
        for i in 0..per {
            let t = ["stdio", "connect", "listen"][(first + i) % 3];
            let size = *r.pick(&[600, 5_000, 70_000, 900_000]);
            jobs.push((l, t, size, r.next() % 6));
        }
    }
    let once = |l: &str, t: &str, size: usize, shape: u64| -> Result<(), Fail> {
        let prog: Vec<(&str, &str)> = l.split('|').map(|c| c.split_once(':').unwrap()).collect();
        quietly(|| run(&prog, t, size, shape)).unwrap_or_else(|p| Err((vec!["C09"], format!("panic: {p}"))))
    };
    let failed = std::sync::Mutex::new(vec![]);
    parallel(jobs, 16, |(l, t, size, shape)| {
        if failed.lock().unwrap().len() > 6 {
            return;
        }
        match once(l, t, size, shape) {
            Ok(()) => {
                rep.count(l.split('|').count());
                rep.traces(1);
                if rep.evaluated.load(std::sync::atomic::Ordering::Relaxed) < 20 {
                    rep.sample(json!({"program": l, "transport": t, "size": size}));
                }
            }
            Err(_) => failed.lock().unwrap().push((l, t, size, shape)),
        }
    });
    // The kernel may have its hour (two full sockets, say): only what fails again counts.
    let again: Vec<_> = failed.into_inner().unwrap().into_iter().enumerate().flat_map(|(i, j)| vec![(i, j); 3]).collect();
    let shown = std::sync::Mutex::new(std::collections::HashSet::new());
    parallel(again, 24, |(i, (l, t, size, shape))| {
        if let Err((p, w)) = once(l, t, size, shape) {
            if shown.lock().unwrap().insert(i) {
                rep.fail(&p, format!("{l} over {t}, messages of {size} bytes: {w}"), json!({"program": l, "transport": t, "size": size, "shape": shape}));
            }
        }
    });
    rep.write(&args[3]);
}

/// The process whose standard input and output are the transport: flow-agent CONTROL SIZE SHAPE
pub fn agent(args: &[String]) {
    let ctl = TcpStream::connect(&args[0]).unwrap();
    let _ = ctl.set_nodelay(true);
    let (conn, io) = Connection::stdio();
    let mut a = Agent::new(conn, io, args[1].parse().unwrap(), args[2].parse().unwrap());
    let mut w = ctl.try_clone().unwrap();
    for l in BufReader::new(ctl).lines().map_while(Result::ok) {
        let d = quietly(|| a.act(serde_json::from_str(&l).unwrap())).unwrap_or_else(|p| Did { bad: Some(format!("panic: {p}")), ..Did::default() });
        if writeln!(w, "{}", serde_json::to_string(&d).unwrap()).is_err() {
            break;
        }
    }
    std::process::exit(0);
}
