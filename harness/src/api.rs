//! Messages built the ways an application builds them (C11-C14), and request ids as keys (C14).
use crate::corpus::{entries, Entry};
use crate::payload::decode_all;
use crate::report::Report;
use crate::util::{agrees, concretise, parallel, quietly, Rng};
use crate::wire::{case, shows};
use bsp_server::types::*;
use bsp_server::{Message, Notification, Request, RequestId, Response, ResponseError};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

pub fn request_id(v: &Value) -> RequestId {
    match v {
        Value::String(s) => s.clone().into(),
        v => (v.as_i64().unwrap() as i32).into(),
    }
}

fn named(name: &str, id: RequestId, m: String) -> Response {
    match name {
        "parse_error" => Response::parse_error(id, m),
        "invalid_request" => Response::invalid_request(id, m),
        "method_not_found" => Response::method_not_found(id, m),
        "invalid_params" => Response::invalid_params(id, m),
        "internal_error" => Response::internal_error(id, m),
        "server_error_start" => Response::server_error_start(id, m),
        "server_error_end" => Response::server_error_end(id, m),
        "server_not_initialized" => Response::server_not_initialized(id, m),
        "request_canceled" => Response::request_canceled(id, m),
        "content_modified" => Response::content_modified(id, m),
        "server_canceled" => Response::server_canceled(id, m),
        n => panic!("no error {n}"),
    }
}

fn build(name: &str, a: &Value) -> Result<Message, String> {
    let (ctor, var) = name.split_once('/').unwrap();
    let id = || request_id(&a["id"]);
    let method = || -> &'static str { Box::leak(a["method"].as_str().unwrap().to_owned().into_boxed_str()) };
    let arg = || a["arg"].clone();
    let message = || a["message"].as_str().unwrap().to_owned();
    macro_rules! typed {
        ($t:ident) => {
            serde_json::from_value::<$t>(arg()).map_err(|e| e.to_string())?
        };
    }
    let how = ctor.split('.').next_back().unwrap();
    macro_rules! requests {
        ([$($t:ident),*]) => {
            match var {
                $(stringify!($t) => match how {
                    "variant" => Request::$t(id(), typed!($t)).into(),
                    "from" => Request::from((id(), typed!($t))).into(),
                    _ => (id(), typed!($t)).into(),
                },)*
                _ => return Err(format!("no constructor {name}")),
            }
        };
    }
    macro_rules! notifications {
        ([$($t:ident),*]) => {
            match var {
                $(stringify!($t) => match how {
                    "variant" => Notification::$t(typed!($t)).into(),
                    "from" => Notification::from(typed!($t)).into(),
                    _ => typed!($t).into(),
                },)*
                _ => return Err(format!("no constructor {name}")),
            }
        };
    }
    macro_rules! results {
        ([$($t:ident),*]) => {
            match var {
                $(stringify!($t) => if ctor == "response.ok" { Response::ok(id(), typed!($t)).into() } else { (id(), typed!($t)).into() },)*
                _ => return Err(format!("no constructor {name}")),
            }
        };
    }
    Ok(match (ctor, var) {
        ("request.variant", "Shutdown") => Request::Shutdown(id()).into(),
        ("request.variant", "WorkspaceBuildTargets") => Request::WorkspaceBuildTargets(id()).into(),
        ("request.variant", "WorkspaceReload") => Request::WorkspaceReload(id()).into(),
        ("request.variant", "Custom") => Request::Custom(id(), method(), arg()).into(),
        ("request.from", "Custom") => Request::from((id(), method(), arg())).into(),
        ("message.from.request", "Custom") => (id(), method(), arg()).into(),
        ("notification.variant", "Exit") => Notification::Exit.into(),
        ("notification.variant", "Initialized") => Notification::Initialized.into(),
        ("notification.named", _) => Notification::from(a["method"].as_str().unwrap()).into(),
        ("notification.variant", "Custom") => Notification::Custom(method(), arg()).into(),
        ("notification.from", "Custom") => Notification::from((method(), arg())).into(),
        ("message.from.notification", "Custom") => (method(), arg()).into(),
        ("response.ok", "value" | "null") => Response::ok(id(), arg()).into(),
        ("response.ok", "string") => Response::ok(id(), arg().as_str().unwrap()).into(),
        ("response.ok", "unit") => Response::ok(id(), ()).into(),
        ("response.ok", "none") => Response::ok(id(), None::<i32>).into(),
        ("response.ok", "false") => Response::ok(id(), false).into(),
        ("response.ok", "zero") => Response::ok(id(), 0).into(),
        ("response.ok", "empty") => Response::ok(id(), "").into(),
        ("response.ok", "list") => Response::ok(id(), Vec::<String>::new()).into(),
        ("message.from.result", "value" | "null") => (id(), arg()).into(),
        ("message.from.result", "string") => (id(), arg().as_str().unwrap().to_owned()).into(),
        ("response.err", _) => Response::err(id(), a["code"].as_i64().unwrap() as i32, message()).into(),
        ("response.named", n) => named(n, id(), message()).into(),
        ("response.fields", "error") => {
            let data = Some(a["data"].clone()).filter(|d| !d.is_null());
            let error = Some(ResponseError { code: a["code"].as_i64().unwrap() as i32, message: message(), data });
            Response { id: id(), result: None, error }.into()
        }
        ("response.fields", "empty") => Response { id: id(), result: None, error: None }.into(),
        ("response.fields", _) => Message::Response(Response { id: id(), result: Some(arg()), error: None }),
        ("request.variant" | "request.from" | "message.from.request", _) => requests!(
            [InitializeBuild, BuildTargetDependencyModules, DebugSessionStart, BuildTargetSources, TextDocumentInverseSources,
             BuildTargetDependencySources, BuildTargetResources, BuildTargetRun, BuildTargetCompile, BuildTargetTest, BuildTargetCleanCache]),
        ("notification.variant" | "notification.from" | "message.from.notification", _) => notifications!(
            [ShowMessage, LogMessage, PublishDiagnostics, TaskStart, TaskFinish, TaskProgress, BuildTargetDidChange]),
        _ => results!([
            InitializeBuildResult, WorkspaceBuildTargetsResult, DebugSessionStartResult, BuildTargetSourcesResult, BuildTargetTestResult,
            BuildTargetRunResult, BuildTargetCompileResult, BuildTargetResourcesResult, BuildTargetDependencyModulesResult,
            BuildTargetCleanCacheResult, BuildTargetInverseSourcesResult, BuildTargetDependencySourcesResult]),
    })
}

fn check(e: &Entry, salt: u64) -> Result<(), (Vec<&'static str>, String)> {
    let args: Value = serde_json::from_str(&concretise(&e.doc, salt)).unwrap();
    let m = build(&e.name, &args).map_err(|x| (vec!["C15", "C12"], format!("arguments rejected: {x}")))?;
    let more = |mut p: Vec<&'static str>| {
        if e.name.starts_with("response") || e.name.ends_with("result") {
            p.push("C13");
        }
        p
    };
    shows(e, salt, &m).map_err(|(p, x)| (more(p), format!("built {m:?}: {x}")))?;
    let text = serde_json::to_string(&m).unwrap();
    for (via, back) in decode_all::<Message>(&text) {
        let back = back.map_err(|x| (more(vec!["C12", "C10"]), format!("built, sent as {text:.300}, rejected ({via}): {x}")))?;
        shows(e, salt, &back).map_err(|(p, x)| (more(p), format!("built, sent as {text:.300}, received {back:?}: {x}")))?;
    }
    Ok(())
}

/// api VECTORS SALT0 SALTS OUT
pub fn main(args: &[String]) {
    let vs = entries(&args[0]);
    let (s0, n): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let rep = Report::default();
    // What has no style of its own comes several times, and gets as many more values.
    let mut vs: Vec<(u64, Entry)> = vs.into_iter().map(|e| (1, e)).collect();
    vs.sort_by(|(_, a), (_, b)| (&a.name, &a.doc, &a.out).cmp(&(&b.name, &b.doc, &b.out)));
    vs.dedup_by(|(_, b), (k, a)| {
        let same = (&a.name, &a.doc, &a.out) == (&b.name, &b.doc, &b.out);
        *k += same as u64;
        same
    });
    parallel(vs.chunks(8).collect(), 8, |chunk: &[(u64, Entry)]| {
        for (k, e) in chunk {
            for salt in crate::util::salts(s0, n * k, &e.doc) {
                rep.count(1);
                if let Err((props, what)) = quietly(|| check(e, salt)).unwrap_or_else(|p| Err((vec!["C12", "C13"], format!("panic: {p}")))) {
                    rep.fail(&props, format!("{} {}: {what}", e.name, concretise(&e.doc, salt).chars().take(500).collect::<String>()), case(e, salt));
                }
            }
            rep.traces(1);
        }
    });
    for (_, e) in vs.iter().step_by(vs.len() / 3 + 1) {
        rep.sample(json!({"constructor": e.name, "arguments": e.doc}));
    }
    rep.write(&args[3]);
}

fn ids_run(line: &str, salt: u64) -> Result<(), String> {
    let f: Vec<&str> = line.split('\t').collect();
    let mut r = Rng::new(&[&"ids", &salt, &line]);
    let mut h: HashMap<RequestId, usize> = HashMap::new();
    let mut b: BTreeMap<RequestId, usize> = BTreeMap::new();
    for (n, op) in f[1..].chunks(3).enumerate() {
        let v: Value = serde_json::from_str(op[1]).unwrap();
        let id = |r: &mut Rng| -> Result<RequestId, String> {
            Ok(match r.below(4) {
                0 => request_id(&v),
                1 => serde_json::from_value(v.clone()).map_err(|e| format!("id {v}: {e}"))?,
                2 => serde_json::from_str(op[1]).map_err(|e| format!("id {v}: {e}"))?,
                _ => match serde_json::from_str::<Message>(&format!("{{\"method\":\"build/shutdown\",\"id\":{}}}", op[1])) {
                    Ok(Message::Request(q)) => q.id().clone(),
                    x => return Err(format!("id {v}: {x:?}")),
                },
            })
        };
        let (i, j) = (id(&mut r)?, id(&mut r)?);
        if i != j || i.cmp(&j) != std::cmp::Ordering::Equal || i.to_string() != j.to_string() {
            return Err(format!("{v}: {i:?} differs from {j:?}"));
        }
        if serde_json::to_value(&i).ok() != Some(v.clone()) || serde_json::to_value(&i.clone()).ok() != Some(v.clone()) {
            return Err(format!("{v} is encoded as {:?}", serde_json::to_string(&i)));
        }
        let (x, y) = if op[0] == "open" { (h.insert(i, n + 1), b.insert(j, n + 1)) } else { (h.remove(&i), b.remove(&j)) };
        let was: usize = op[2].parse().unwrap();
        if x.unwrap_or(0) != was || y.unwrap_or(0) != was {
            return Err(format!("{} of {v} after {n} operations found {x:?}/{y:?}, expected {was}", op[0]));
        }
    }
    let left: usize = f[0].parse().unwrap();
    if h.len() != left || b.len() != left {
        return Err(format!("{} / {} left, expected {left}", h.len(), b.len()));
    }
    Ok(())
}

/// Any two ids: equality, hash, order and text agree with type and value.
fn pairs(rep: &Report, seed: u64) {
    use std::hash::{Hash, Hasher};
    let mut r = Rng::new(&[&"pairs", &seed]);
    let mut vs: Vec<Value> = [0, 1, -1, 9, 10, 11, 255, 256, 257, 65535, 65536, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1].iter().map(|n| json!(n)).collect();
    for _ in 0..60 {
        let n = crate::util::i32_(&mut r, 2);
        vs.push(json!(n));
        vs.push(json!(n.to_string()));
        let s = crate::util::string(&mut r, 1);
        vs.push(json!(s.to_uppercase()));
        vs.push(json!(format!("{s} ")));
        vs.push(json!(s));
    }
    let ids: Vec<RequestId> = vs.iter().map(request_id).collect();
    let hash = |i: &RequestId| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        i.hash(&mut h);
        h.finish()
    };
    for (v, i) in vs.iter().zip(&ids) {
        let enc = serde_json::to_value(i).unwrap();
        let text = serde_json::to_string(i).unwrap();
        let back: Result<RequestId, _> = serde_json::from_str(&text);
        if &enc != v || back.as_ref().ok() != Some(i) {
            rep.fail(&["C14", "C12"], format!("id {v} is encoded as {text}, decoded as {back:?}"), json!({ "id": v }));
        }
        for (w, j) in vs.iter().zip(&ids) {
            rep.count(1);
            let same = v == w;
            let ord = i.cmp(j);
            let bad = (i == j) != same
                || (ord == std::cmp::Ordering::Equal) != same
                || ord.reverse() != j.cmp(i)
                || i.partial_cmp(j) != Some(ord)
                || (i.to_string() == j.to_string()) != same
                || (same && hash(i) != hash(j));
            if bad {
                rep.fail(&["C14"], format!("ids {v} and {w}: eq {}, ord {ord:?}, shown {i} and {j}", i == j), json!({"ids": [v, w]}));
            }
        }
    }
    for bad in ["null", "1.5", "1.0", "-0.5", "2147483648", "-2147483649", "4294967297", "1e3", "true", "[]", "[1]", "{}", "{\"a\":1}", "18446744073709551616", "1e400"] {
        for (via, x) in decode_all::<RequestId>(bad) {
            if let Ok(x) = x {
                rep.fail(&["C14"], format!("{bad} is taken as an id ({via}): {x:?}"), json!({ "id": bad }));
            }
        }
    }
    let _ = agrees(&json!(1), &json!(1));
}

/// ids VECTORS SEED OUT
pub fn ids_main(args: &[String]) {
    let lines: Vec<String> = std::fs::read_to_string(&args[0]).unwrap().lines().map(String::from).collect();
    let seed: u64 = args[1].parse().unwrap();
    let rep = Report::default();
    parallel(lines.chunks(256).collect(), 8, |c: &[String]| {
        for l in c {
            rep.count(1);
            rep.traces(1);
            if let Err(x) = quietly(|| ids_run(l, seed)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                rep.fail(&["C14"], x, json!({ "operations": l }));
            }
        }
    });
    pairs(&rep, seed);
    rep.sample(json!(lines.first()));
    rep.write(&args[2]);
}
