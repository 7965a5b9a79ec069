//! Every legal message of the specification through whole connections, in long sessions:
//! in memory, between two library endpoints over TCP (both directions), and raw client to server and back.
use crate::corpus::{entries, session_kind, Entry};
use crate::frame::{self, Frames};
use crate::net::{self, HANG};
use crate::report::Report;
use crate::channel;
use crate::util::{agrees, concretise, parallel, quietly, restyle, short, Rng};
use crate::wire::shows;
use bsp_server::{Connection, IoThreads, Message};
use serde_json::{json, Value};
use std::time::Instant;

type Outcome = Result<(), (Vec<&'static str>, String, Value)>;

#[derive(Clone)]
struct Item {
    e: Entry,
    salt: u64,
}

fn message(i: &Item) -> Option<Message> {
    serde_json::from_str(&concretise(&i.e.doc, i.salt)).ok()
}

fn send(c: &Connection, m: Message, r: &mut Rng) -> bool {
    match r.below(4) {
        0 => c.send(m).is_ok(),
        1 => c.send_timeout(m, HANG).is_ok(),
        2 => c.send_deadline(m, Instant::now() + HANG).is_ok(),
        _ => c.sender.send(m).is_ok(),
    }
}

fn fail(props: &[&'static str], what: String, items: &[Item], at: usize) -> (Vec<&'static str>, String, Value) {
    let case = json!({"position": at, "messages": items.len(), "at": items.get(at).map(|i| crate::wire::case(&i.e, i.salt))});
    (props.to_vec(), what, case)
}

/// Receives the items in order, checks each, sends each back.
fn echo(c: &Connection, items: &[Item], back: bool, props: &[&'static str], seed: u64) -> Outcome {
    let mut r = Rng::new(&[&"echo", &seed]);
    for (n, i) in items.iter().enumerate() {
        let m = c.receiver.recv_timeout(HANG).map_err(|e| fail(props, format!("message {} of {} never arrived: {e}", n + 1, items.len()), items, n))?;
        shows(&i.e, i.salt, &m).map_err(|(p, x)| {
            let mut all = props.to_vec();
            all.extend(p);
            fail(&all, format!("message {} of {}, {} {}: arrived as {m:?}: {x}", n + 1, items.len(), i.e.name, concretise(&i.e.doc, i.salt).chars().take(300).collect::<String>()), items, n)
        })?;
        frame::pause(&mut r);
        if back && !send(c, m, &mut r) {
            return Err(fail(props, format!("message {} not sent back", n + 1), items, n));
        }
    }
    Ok(())
}

/// One end sends, the other echoes, the first checks what comes back.
fn both_ways(a: Connection, b: Connection, items: &[Item], props: &[&'static str], seed: u64) -> (Outcome, Connection, Connection) {
    let items2 = items.to_vec();
    let props2 = props.to_vec();
    let t = std::thread::spawn(move || {
        let r = quietly(|| echo(&b, &items2, true, &props2, seed)).unwrap_or_else(|p| Err(fail(&props2, format!("panic: {p}"), &items2, 0)));
        (r, b)
    });
    let tx = a.sender.clone();
    let items3 = items.to_vec();
    let feeder = std::thread::spawn(move || {
        for i in &items3 {
            match message(i) {
                Some(m) => {
                    if tx.send_timeout(m, HANG).is_err() {
                        break;
                    }
                }
                None => break,
            }
        }
    });
    let back = echo(&a, items, false, props, seed + 1);
    let (there, b) = t.join().unwrap();
    let _ = feeder.join();
    (there.and(back), a, b)
}

/// After exit and dropping both ends, the I/O threads must end well.
fn join(io: IoThreads, who: &str, items: &[Item]) -> Outcome {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(quietly(|| io.join())));
    match rx.recv_timeout(HANG) {
        Ok(Ok(Ok(()))) => Ok(()),
        Ok(e) => Err(fail(&["C09", "C06"], format!("joining the {who}: {e:?}"), items, 0)),
        Err(_) => Err(fail(&["C09", "C06"], format!("joining the {who}: no end"), items, 0)),
    }
}

fn exit_message() -> Message {
    bsp_server::Notification::Exit.into()
}

fn memory(items: &[Item], seed: u64) -> Outcome {
    let (a, b) = Connection::memory();
    both_ways(a, b, items, &["C12", "C17"], seed).0
}

fn library(items: &[Item], seed: u64) -> Outcome {
    let props = &["C12", "C20", "C05", "C07"];
    let ((l, lio), (c, cio)) = net::library_pair().map_err(|e| fail(props, format!("no pair: {e}"), items, 0))?;
    let half = items.len() / 2;
    let (r, l, c) = both_ways(l, c, &items[..half], props, seed);
    r?;
    let (r, c, l) = both_ways(c, l, &items[half..], props, seed + 2);
    r?;
    for (x, who) in [(&l, "connecting"), (&c, "listening")] {
        x.send(exit_message()).map_err(|e| fail(props, format!("exit not sent: {e}"), items, 0))?;
        let y = if who == "connecting" { &c } else { &l };
        match y.receiver.recv_timeout(HANG) {
            Ok(Message::Notification(bsp_server::Notification::Exit)) => {}
            x => return Err(fail(&["C06", "C20", "C12"], format!("exit arrived as {x:?}"), items, 0)),
        }
        if let Ok(x) = y.receiver.recv_timeout(HANG) {
            return Err(fail(&["C06"], format!("after exit arrived {x:?}"), items, 0));
        }
    }
    drop(l);
    drop(c);
    join(lio, "listening end", items)?;
    join(cio, "connecting end", items)
}

fn raw(items: &[Item], listen: bool, seed: u64) -> Outcome {
    let props = &["C05", "C12", "C20"];
    let out_props = &["C07", "C12", "C20"];
    let (tx, rx) = std::sync::mpsc::channel();
    let items2 = items.to_vec();
    let mut s = net::tcp_pair(listen, move |c, io| {
        let r = quietly(|| echo(&c, &items2, true, props, seed)).unwrap_or_else(|p| Err(fail(props, format!("panic: {p}"), &items2, 0)));
        let after = c.receiver.recv_timeout(HANG);
        drop(c);
        let j = join(io, "server", &items2);
        let r = r.and_then(|_| if let Ok(m) = after { Err(fail(&["C05"], format!("after the end arrived {m:?}"), &items2, 0)) } else { j });
        let _ = tx.send(r);
    })
    .map_err(|e| fail(props, format!("no connection: {e}"), items, 0))?;
    let mut rs = s.try_clone().unwrap();
    let reader = std::thread::spawn(move || {
        let mut f = Frames::default();
        frame::pump(&mut rs, &mut |b| f.feed(b));
        f.finish();
        f
    });
    let mut r = Rng::new(&[&"raw", &seed]);
    let mut bytes = vec![];
    for i in items {
        let text = restyle(&concretise(&i.e.doc, i.salt), &mut r);
        bytes.extend_from_slice(&frame::frame(text.as_bytes(), &mut r));
    }
    let frags = frame::fragments(&bytes, &mut r);
    frame::write_fragments(&mut s, &frags, &mut r);
    net::half_close(&s);
    let there = rx.recv_timeout(HANG * 3).unwrap_or_else(|_| Err(fail(&["C05", "C09", "C07"], "the server does not end".into(), items, 0)));
    if there.is_err() {
        let _ = s.shutdown(std::net::Shutdown::Both);
    }
    let f = reader.join().unwrap();
    there?;
    if let Some(e) = f.error {
        return Err(fail(out_props, format!("bad frame: {e}"), items, f.frames.len()));
    }
    if f.frames.len() != items.len() {
        return Err(fail(out_props, format!("{} messages came back of {}", f.frames.len(), items.len()), items, f.frames.len().min(items.len() - 1)));
    }
    for (n, (i, mut v)) in items.iter().zip(f.frames).enumerate() {
        v.as_object_mut().unwrap().remove("jsonrpc");
        let exp: Value = serde_json::from_str(&concretise(&i.e.out, i.salt)).unwrap();
        agrees(&exp, &v).map_err(|x| {
            let mut p = out_props.to_vec();
            p.extend(crate::wire::blame(&x));
            fail(&p, format!("message {} came back as {}: {x}", n + 1, short(&v)), items, n)
        })?;
    }
    Ok(())
}

/// Very many or very large messages: numbered ones, so that each is known.
#[derive(Clone, Copy, Debug)]
enum Bulk {
    Many(u64),
    Large(u64, usize),
}

impl Bulk {
    fn count(self) -> u64 {
        match self {
            Bulk::Many(n) | Bulk::Large(n, _) => n,
        }
    }

    fn message(self, n: u64) -> Message {
        match self {
            Bulk::Many(_) => channel::message(n, n),
            Bulk::Large(_, size) => {
                let unit = ["a", "\u{e9}", "\\\"", "\u{1f600}\u{0}"][n as usize % 4];
                let text = json!({"n": n, "text": unit.repeat(size / unit.len())});
                match n % 3 {
                    0 => bsp_server::Notification::Custom("x/large", text).into(),
                    1 => bsp_server::Request::Custom((n as i32).into(), "x/large", text).into(),
                    _ => bsp_server::Response::ok((n as i32).into(), text).into(),
                }
            }
        }
    }

    fn check(self, n: u64, got: &Value, props: &[&'static str]) -> Outcome {
        let want = serde_json::to_value(self.message(n)).unwrap();
        if *got == want {
            return Ok(());
        }
        Err(self.fail(props, format!("message {} of {} arrived as {}, not {}", n + 1, self.count(), short(got), short(&want))))
    }

    fn fail(self, props: &[&'static str], what: String) -> (Vec<&'static str>, String, Value) {
        (props.to_vec(), what, json!({"messages": format!("{self:?}")}))
    }

    /// Receives all, sends each back.
    fn echo(self, c: &Connection, props: &[&'static str]) -> Outcome {
        for n in 0..self.count() {
            let m = c.receiver.recv_timeout(HANG).map_err(|e| self.fail(props, format!("message {} of {} never arrived: {e}", n + 1, self.count())))?;
            self.check(n, &serde_json::to_value(&m).unwrap(), props)?;
            c.send_timeout(m, HANG).map_err(|e| self.fail(props, format!("message {} of {} not sent back: {}", n + 1, self.count(), if e.is_timeout() { "timed out" } else { "disconnected" })))?;
        }
        Ok(())
    }

    /// All is sent before anything is received, in both directions.
    fn memory(self) -> Outcome {
        let props = &["C17", "C12"];
        let (a, b) = Connection::memory();
        for (x, y) in [(&a, &b), (&b, &a)] {
            for n in 0..self.count() {
                x.send_timeout(self.message(n), HANG).map_err(|_| self.fail(&["C17"], format!("send {} of {} waits or fails", n + 1, self.count())))?;
            }
            for n in 0..self.count() {
                let m = y.receiver.try_recv().map_err(|e| self.fail(props, format!("message {} of {} is not there: {e}", n + 1, self.count())))?;
                self.check(n, &serde_json::to_value(&m).unwrap(), props)?;
            }
        }
        Ok(())
    }

    fn library(self) -> Outcome {
        let props = &["C12", "C20", "C05", "C07"];
        let ((l, lio), (c, cio)) = net::library_pair().map_err(|e| self.fail(props, format!("no pair: {e}")))?;
        let tx = c.sender.clone();
        let feeder = std::thread::spawn(move || {
            for n in 0..self.count() {
                if tx.send_timeout(self.message(n), HANG).is_err() {
                    return;
                }
            }
            let _ = tx.send_timeout(exit_message(), HANG);
        });
        let server = std::thread::spawn(move || {
            let r = quietly(|| self.echo(&l, props)).unwrap_or_else(|p| Err(self.fail(props, format!("panic: {p}"))));
            let _ = l.send_timeout(exit_message(), HANG);
            r.and_then(|_| match l.receiver.recv_timeout(HANG) {
                Ok(Message::Notification(bsp_server::Notification::Exit)) => Ok(()),
                x => Err(self.fail(&["C05", "C06", "C12"], format!("after all {} messages, exit arrived as {x:.200?}", self.count()))),
            })
        });
        let mut back = Ok(());
        for n in 0..self.count() {
            back = match c.receiver.recv_timeout(HANG) {
                Ok(m) => self.check(n, &serde_json::to_value(&m).unwrap(), props),
                Err(e) => Err(self.fail(props, format!("message {} of {} never came back: {e}", n + 1, self.count()))),
            };
            if back.is_err() {
                break;
            }
        }
        let there = if back.is_ok() || server.is_finished() { server.join().unwrap() } else { Ok(()) };
        there.and(back)?;
        let _ = feeder.join();
        let _ = c.receiver.recv_timeout(HANG);
        drop(c);
        join(lio, "listening end", &[])?;
        join(cio, "connecting end", &[])
    }

    fn raw(self, route: &str) -> Outcome {
        use std::io::{Read, Write};
        let props = &["C05", "C12", "C20"];
        let out_props = &["C07", "C12", "C20"];
        let (tx, rx) = std::sync::mpsc::channel();
        let none = |e: std::io::Error| self.fail(props, format!("no connection: {e}"));
        let (mut w, mut r): (Box<dyn Write + Send>, Box<dyn Read + Send>);
        let mut child = None;
        let mut closer = None;
        if route == "stdio" {
            use std::process::{Command, Stdio};
            let mut c = Command::new(std::env::current_exe().unwrap()).arg("stdio-echo").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(none)?;
            w = Box::new(c.stdin.take().unwrap());
            r = Box::new(c.stdout.take().unwrap());
            let mut e = c.stderr.take().unwrap();
            std::thread::spawn(move || {
                let mut said = String::new();
                let _ = e.read_to_string(&mut said);
                let _ = tx.send(if said == "ok" { Ok(()) } else { Err(self.fail(&["C09", "C05", "C07"], format!("the server ends with {said:?}"))) });
            });
            child = Some(c);
        } else {
            let s = net::tcp_pair(route == "listen", move |c, io| {
                let r = quietly(|| self.echo(&c, props)).unwrap_or_else(|p| Err(self.fail(props, format!("panic: {p}"))));
                let after = c.receiver.recv_timeout(HANG);
                drop(c);
                let j = join(io, "server", &[]);
                let _ = tx.send(r.and_then(|_| if let Ok(m) = after { Err(self.fail(&["C05"], format!("after the end arrived {m:.200?}"))) } else { j }));
            })
            .map_err(none)?;
            w = Box::new(s.try_clone().unwrap());
            r = Box::new(s.try_clone().unwrap());
            closer = Some(s);
        }
        let end = closer.as_ref().map(|s| s.try_clone().unwrap());
        let writer = std::thread::spawn(move || {
            let mut buf = vec![];
            for n in 0..self.count() {
                let mut v = serde_json::to_value(self.message(n)).unwrap();
                v["jsonrpc"] = "2.0".into();
                let body = v.to_string();
                buf.extend_from_slice(format!("Content-Length: {}\r\n\r\n{body}", body.len()).as_bytes());
                if buf.len() > 30_000 || n + 1 == self.count() {
                    if w.write_all(&buf).and_then(|_| w.flush()).is_err() {
                        return;
                    }
                    buf.clear();
                }
            }
            drop(w);
            if let Some(s) = end {
                net::half_close(&s);
            }
        });
        // What came back is looked at as it comes.
        let (btx, brx) = std::sync::mpsc::channel();
        let reader = std::thread::spawn(move || {
            let mut f = Frames::default();
            let mut n = 0;
            let mut res = Ok(());
            frame::pump(&mut *r, &mut |b| {
                f.feed(b);
                for mut v in f.frames.drain(..) {
                    v.as_object_mut().unwrap().remove("jsonrpc");
                    if res.is_ok() {
                        res = self.check(n, &v, out_props);
                    }
                    n += 1;
                }
            });
            f.finish();
            if res.is_ok() && f.error.is_some() {
                res = Err(self.fail(out_props, format!("bad frame after {n} messages: {}", f.error.unwrap())));
            }
            if res.is_ok() && n != self.count() {
                res = Err(self.fail(out_props, format!("{n} messages came back of {}", self.count())));
            }
            let _ = btx.send(res);
        });
        let there = rx.recv_timeout(HANG * 6).unwrap_or_else(|_| Err(self.fail(&["C05", "C09", "C07"], "the server does not end".into())));
        if let (Err(_), Some(s)) = (&there, &closer) {
            let _ = s.shutdown(std::net::Shutdown::Both);
        }
        if let Some(mut c) = child {
            if there.is_err() {
                let _ = c.kill();
            }
            let _ = c.wait();
        }
        let back = brx.recv_timeout(HANG).unwrap_or_else(|_| Err(self.fail(out_props, "the server's output does not end".into())));
        if there.is_ok() && back.is_ok() {
            let _ = (writer.join(), reader.join());
        }
        there.and(back)
    }
}

/// A server over standard input and output which sends back whatever it receives.
pub fn stdio_echo() {
    let (c, io) = Connection::stdio();
    let mut said = String::new();
    for m in &c.receiver {
        if c.send(m).is_err() {
            said = "send failed".into();
            break;
        }
    }
    drop(c);
    said += &match quietly(|| io.join()) {
        Ok(Ok(())) => "ok".to_owned(),
        Ok(Err(e)) => e.to_string(),
        Err(p) => format!("panic: {p}"),
    };
    eprint!("{said}");
}

/// pipe VECTORS SEED SESSIONS OUT LARGE
pub fn main(args: &[String]) {
    let vs: Vec<Entry> = entries(&args[0]).into_iter().filter(|e| e.ok && session_kind(e) != "exit").collect();
    let (seed, sessions): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let rep = Report::default();
    let mut bulks = vec![];
    for route in ["memory", "library", "connect", "listen", "stdio"] {
        bulks.push((route, Bulk::Many(70_000)));
        bulks.push((route, Bulk::Large(4, args[4].parse().unwrap())));
    }
    parallel(bulks, 10, |(route, b)| {
        rep.count(b.count() as usize);
        rep.traces(1);
        let res = match route {
            "memory" => quietly(|| b.memory()),
            "library" => quietly(|| b.library()),
            _ => quietly(|| b.raw(route)),
        };
        match res {
            Ok(Ok(())) => {}
            Ok(Err((p, w, c))) => rep.fail(&p, format!("over {route}, {b:?}: {w}"), c),
            Err(p) => rep.fail(&["C12", "C09"], format!("over {route}, {b:?}: panic: {p}"), json!({"seed": seed})),
        }
    });
    let jobs: Vec<u64> = (0..sessions).collect();
    parallel(jobs, 8, |n| {
        let mut r = Rng::new(&[&"session", &seed, &n]);
        // Mostly short values in long sessions, all values in short ones.
        let len = *r.pick(&[3, 10, 40, 130, 300, 700, 1500]);
        let mut items: Vec<Item> = (0..len)
            .map(|_| {
                let e = r.pick(&vs).clone();
                let mut salt = r.next() % 100_000;
                if len > 200 && salt % 5 >= 3 {
                    salt -= 2;
                }
                Item { e, salt }
            })
            .collect();
        // Equal messages are messages all the same.
        for i in 1..items.len() {
            if r.chance(8) {
                items[i] = items[i - 1 - r.below(i.min(2))].clone();
            }
        }
        let (route, res) = match n % 4 {
            0 => ("memory", quietly(|| memory(&items, n))),
            1 => ("two library endpoints", quietly(|| library(&items, n))),
            2 => ("a connecting server", quietly(|| raw(&items, false, n))),
            _ => ("a listening server", quietly(|| raw(&items, true, n))),
        };
        rep.count(items.len());
        rep.traces(1);
        match res {
            Ok(Ok(())) => {}
            Ok(Err((p, w, c))) => rep.fail(&p, format!("over {route}: {w}"), json!({"session": n, "seed": seed, "case": c})),
            Err(p) => rep.fail(&["C12", "C09"], format!("over {route}: panic: {p}"), json!({"session": n, "seed": seed})),
        }
    });
    rep.sample(json!({"sessions": sessions}));
    rep.write(&args[3]);
}
