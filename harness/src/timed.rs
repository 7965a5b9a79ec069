//! Sends which wait, on bounded channels, in real time: what returns, and when (C18; Timed.tla).
use crate::channel::{self, Mode};
use crate::report::Report;
use crate::util::{parallel, quietly, Rng};
use bsp_server::Connection;
use crossbeam_channel::{bounded, unbounded, RecvTimeoutError};
use serde_json::{json, to_value};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;
use std::thread::sleep;
use std::time::{Duration, Instant};

/// what, at, limit
#[derive(Clone, Debug)]
struct Do(String, u32, u32);

struct Program {
    cap: usize,
    end: u32,
    calls: Vec<Do>,
    takes: Vec<Do>,
    text: String,
    /// results of the calls, then of the takes
    allowed: Vec<Vec<(String, u32)>>,
}

fn dos(s: &str) -> Vec<Do> {
    s.split('|').filter(|x| !x.is_empty()).map(|x| x.split(' ').collect::<Vec<_>>()).map(|x| Do(x[0].into(), x[1].parse().unwrap(), x[2].parse().unwrap())).collect()
}

fn results(s: &str) -> Vec<(String, u32)> {
    s.split('|').filter(|x| !x.is_empty()).map(|x| x.split_once(' ').unwrap()).map(|(a, b)| (a.into(), b.parse().unwrap())).collect()
}

fn load(path: &str) -> Vec<Program> {
    let mut m: BTreeMap<String, Program> = BTreeMap::new();
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let key = f[..4].join("; ");
        let p = m.entry(key.clone()).or_insert_with(|| Program { cap: f[0].parse().unwrap(), end: f[1].parse().unwrap(), calls: dos(f[2]), takes: dos(f[3]), text: key, allowed: vec![] });
        let mut o = results(f[4]);
        o.extend(results(f[5]));
        p.allowed.push(o);
    }
    m.into_values().collect()
}

/// Something returned: what, and when. `late`: how late it was begun; the step did not take place as written.
struct Back {
    what: String,
    at: Duration,
    late: Duration,
    broken: Option<String>,
}

fn until(t: Instant) -> Duration {
    let now = Instant::now();
    if t > now {
        sleep(t - now);
    }
    Instant::now().saturating_duration_since(t)
}

/// Ok(None): as allowed. Ok(Some): not. Err: this machine was too busy to tell.
fn attempt(p: &Program, tick: Duration, shape: u64) -> Result<Option<String>, ()> {
    let (s, r) = bounded(p.cap);
    let base = Instant::now() + Duration::from_millis(4);
    let slot = |n: u32| base + tick * n;
    let callers: Vec<_> = p
        .calls
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, c)| {
            let conn = Connection { sender: s.clone(), receiver: unbounded().1 };
            // A limit of 1000 is none.
            let far = Duration::from_secs(86_400 * 400);
            let lim = if c.2 < 1000 { tick * c.2 } else if shape % 2 == 0 { far } else { Duration::MAX };
            let (at, deadline) = (slot(c.1), slot(c.1) + lim.min(far));
            let n = i as u64 + 1;
            std::thread::spawn(move || {
                let late = until(at);
                let start = Instant::now();
                let mode = match c.0.as_str() {
                    "plain" => Mode::Plain,
                    "try" => Mode::Try,
                    "timed" => Mode::Timed(lim),
                    _ => Mode::Deadline(deadline),
                };
                let res = quietly(|| channel::send(&conn, n, shape + n, mode));
                let end = Instant::now();
                let mut b = Back { what: String::new(), at: end - base, late, broken: None };
                match res {
                    Err(p) => b.broken = Some(format!("panic: {p}")),
                    Ok(res) => match channel::name(&res, n, shape + n) {
                        Ok(x) => b.what = x.into(),
                        Err(x) => b.broken = Some(x),
                    },
                }
                let least = if c.0 == "timed" { start + lim.min(far) } else { deadline };
                if b.what == "timeout" && end < least {
                    b.broken = Some(format!("{c:?} times out {:?} too early", least - end));
                }
                b
            })
        })
        .collect();
    // The receiver is this thread; `s` keeps the channel open for it.
    let mut outs = vec![];
    let mut r = Some(r);
    let mut blurred = false;
    let finally = Do("drop".into(), p.end, 0);
    for t in p.takes.iter().chain([&finally]) {
        let Some(rx) = &r else { break };
        let late = until(slot(t.1));
        blurred |= late > tick / 4;
        if t.0 == "drop" {
            r = None;
            continue;
        }
        let got = if t.2 == 0 { rx.try_recv().map_err(|_| RecvTimeoutError::Timeout) } else { rx.recv_deadline(slot(t.1 + t.2)) };
        let at = base.elapsed();
        let what = match got {
            Err(_) => "empty".to_owned(),
            Ok(m) => {
                let v = to_value(&m).unwrap();
                (1..=p.calls.len() as u64).find(|n| to_value(channel::message(*n, shape + n)).unwrap() == v).map_or(format!("unknown message {v}"), |n| n.to_string())
            }
        };
        outs.push(Back { what, at, late, broken: None });
    }
    let mut all: Vec<Back> = callers.into_iter().map(|t| t.join().unwrap()).collect();
    all.extend(outs);
    if let Some(x) = all.iter().find_map(|b| b.broken.clone()) {
        return Ok(Some(x));
    }
    if blurred || all.iter().any(|b| b.late > tick / 4) {
        return Err(());
    }
    let fits = |o: &Vec<(String, u32)>| {
        o.len() == all.len()
            && o.iter().zip(&all).all(|((x, at), b)| {
                let due = tick * *at;
                *x == b.what && b.at + tick / 3 > due && b.at < due + tick / 2
            })
    };
    if p.allowed.iter().any(fits) {
        return Ok(None);
    }
    let seen: Vec<String> = all.iter().map(|b| format!("{} {:.2}", b.what, b.at.as_secs_f64() / tick.as_secs_f64())).collect();
    Ok(Some(format!("gives {seen:?}, allowed {:?}", p.allowed)))
}

/// timed VECTORS SEED ONE_IN OUT
pub fn main(args: &[String]) {
    let ps = load(&args[0]);
    let seed: u64 = args[1].parse().unwrap();
    let one_in: usize = args[2].parse().unwrap();
    let rep = Report::default();
    let skipped = std::sync::atomic::AtomicUsize::new(0);
    let ps: Vec<Program> = ps.into_iter().filter(|p| Rng::new(&[&"timed", &seed, &p.text]).below(one_in) == 0).collect();
    let done = std::sync::atomic::AtomicUsize::new(0);
    let fails = std::sync::atomic::AtomicUsize::new(0);
    // A few take much longer, beginning with the first.
    let mut ps: Vec<(usize, Program)> = ps.into_iter().enumerate().collect();
    let slow = ps.len() / 60 + 1;
    let slow_tick = move |n: usize| match n % slow {
        0 => Some(1000),
        1 if slow > 1 => Some(7000),
        _ => None,
    };
    ps.sort_by_key(|(n, _)| (slow_tick(*n).map_or(0, |t| -(t as i64)), *n));
    parallel(ps, 240, |(n, p)| {
        let ticks: Vec<u64> = slow_tick(n).map_or(vec![20, 20, 60, 150, 400, 400], |t| vec![t, t]);
        let shape = Rng::new(&[&"shape", &seed, &p.text]).next() % channel::SHAPES;
        if fails.load(Relaxed) >= 8 {
            return;
        }
        // Wider steps where the narrow ones tell nothing, or tell of something wrong.
        let mut found = vec![];
        for tick in ticks {
            match attempt(&p, Duration::from_millis(tick), shape) {
                Ok(None) => {
                    rep.count(1);
                    rep.traces(1);
                    if done.fetch_add(1, Relaxed) < 3 {
                        rep.sample(json!({"program": p.text, "outcomes": p.allowed}));
                    }
                    return;
                }
                Ok(Some(x)) if tick >= 400 => found.push(x),
                _ => {}
            }
        }
        if found.len() == 2 {
            fails.fetch_add(1, Relaxed);
            rep.fail(&["C18"], format!("capacity; end; calls; receiver = {}: {}", p.text, found[1]), json!({"program": p.text, "seen": found}));
        } else {
            skipped.fetch_add(1, Relaxed);
        }
    });
    let s = skipped.into_inner();
    if s > 0 {
        rep.sample(json!({"too busy to tell": s}));
    }
    rep.write(&args[3]);
}
