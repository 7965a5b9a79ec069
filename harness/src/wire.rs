//! Documents of the message specification, decoded and sent on by the real `Message` (C10-C14).
use crate::corpus::{entries, Entry};
use crate::payload::decode_all;
use crate::report::Report;
use crate::util::{agrees, concretise, parallel, quietly, restyle, short, Rng};
use bsp_server::{Message, Notification, Request, Response};
use serde_json::{json, Value};

type Outcome = Result<(), (Vec<&'static str>, String)>;

pub fn kind_var(m: &Message) -> (&'static str, &'static str) {
    macro_rules! names {
        ($e:expr, $t:ident, [$($v:ident),*]) => { match $e { $($t::$v(..) => stringify!($v),)* _ => "?" } };
    }
    match m {
        Message::Request(q) => ("request", names!(q, Request, [
            InitializeBuild, Shutdown, WorkspaceBuildTargets, WorkspaceReload, BuildTargetDependencyModules, DebugSessionStart,
            BuildTargetSources, TextDocumentInverseSources, BuildTargetDependencySources, BuildTargetResources, BuildTargetRun,
            BuildTargetCompile, BuildTargetTest, BuildTargetCleanCache, Custom])),
        Message::Notification(Notification::Exit) => ("notification", "Exit"),
        Message::Notification(Notification::Initialized) => ("notification", "Initialized"),
        Message::Notification(n) => ("notification", names!(n, Notification, [
            ShowMessage, LogMessage, PublishDiagnostics, TaskStart, TaskFinish, TaskProgress, BuildTargetDidChange, Custom])),
        Message::Response(r) => ("response", if r.error.is_some() { "error" } else if r.result.is_some() { "result" } else { "empty" }),
    }
}

/// Everything a received message shows, against the specification's verdict.
pub fn shows(e: &Entry, salt: u64, m: &Message) -> Outcome {
    let exp = |t: &str| -> Value { serde_json::from_str(&concretise(t, salt)).unwrap() };
    let (kind, var) = kind_var(m);
    if kind != e.kind {
        return Err((vec!["C10", "C12"], format!("delivered as a {kind}")));
    }
    if var != e.var {
        return Err((if kind == "response" { vec!["C13", "C12"] } else { vec!["C11", "C12"] }, format!("delivered as {var}, expected {}", e.var)));
    }
    let out = exp(&e.out);
    let id = exp(&e.id);
    let _ = format!("{m:?} {m:#?}");
    match m {
        Message::Request(q) => {
            if serde_json::to_value(q.id()).ok() != Some(id.clone()) {
                return Err((vec!["C14", "C12"], format!("id() is {:?}, expected {id}", q.id())));
            }
            if json!(q.method()) != exp(&e.method) {
                return Err((vec!["C11", "C12"], format!("method() is {:?}", q.method())));
            }
            let p = q.params().map_err(|x| (vec!["C11"], x.to_string()))?;
            let pe = exp(&e.params);
            if pe == json!("$?") {
                if !p.is_null() {
                    return Err((vec!["C11"], format!("params() is {}", short(&p))));
                }
            } else {
                agrees(&pe, &p).map_err(|x| (vec!["C11", "C15"], format!("params() is {}: {x}", short(&p))))?;
            }
            if let Request::Custom(_, method, p) = q {
                if json!(method) != exp(&e.method) || agrees(&json!({ "p": pe }), &json!({ "p": p })).is_err() {
                    return Err((vec!["C11", "C12"], format!("custom {method} {}", short(p))));
                }
            }
        }
        Message::Notification(n) => {
            if json!(n.method()) != exp(&e.method) {
                return Err((vec!["C11", "C12"], format!("method() is {:?}", n.method())));
            }
            if let Notification::Custom(method, p) = n {
                if json!(method) != exp(&e.method) || agrees(&json!({ "p": exp(&e.params) }), &json!({ "p": p })).is_err() {
                    return Err((vec!["C11", "C12"], format!("custom {method} {}", short(p))));
                }
            }
        }
        Message::Response(r) => {
            if serde_json::to_value(&r.id).ok() != Some(id.clone()) {
                return Err((vec!["C14", "C12"], format!("id is {:?}, expected {id}", r.id)));
            }
            let shown = match (&r.result, &r.error) {
                (Some(v), None) => json!({"id": id, "result": v, "error": "$?"}),
                (None, Some(x)) => json!({"id": id, "error": {"code": x.code, "message": x.message, "data": x.data}}),
                (None, None) => json!({"id": id, "error": "$?"}),
                _ => return Err((vec!["C13"], format!("{r:?}"))),
            };
            let strip = |mut v: Value| {
                if v["error"] == "$?" {
                    v.as_object_mut().unwrap().remove("error");
                }
                if v["error"]["data"].is_null() || v["error"]["data"] == "$?" {
                    if let Some(o) = v.get_mut("error").and_then(Value::as_object_mut) {
                        o.remove("data");
                    }
                }
                v
            };
            if let Err(x) = agrees(&strip(out.clone()), &strip(shown.clone())) {
                return Err((vec!["C13", "C12"], format!("response shows {}: {x}", short(&shown))));
            }
        }
    }
    let enc = serde_json::to_value(m).map_err(|x| (vec!["C12"], format!("not encoded: {x}")))?;
    if let Err(x) = agrees(&out, &enc) {
        return Err((blame(&x), format!("sent on as {}: {x}", short(&enc))));
    }
    let text = serde_json::to_string(m).map_err(|x| (vec!["C12"], format!("not encoded: {x}")))?;
    if serde_json::from_str::<Value>(&text).ok() != Some(enc.clone()) {
        return Err((vec!["C12"], format!("encoded as text {text:.300}, as value {}", short(&enc))));
    }
    Ok(())
}

/// The properties a difference at a path concerns.
pub fn blame(diff: &str) -> Vec<&'static str> {
    if diff.starts_with("$.id") {
        vec!["C12", "C14"]
    } else if diff.starts_with("$.method") {
        vec!["C12", "C11"]
    } else if diff.starts_with("$.params") {
        vec!["C12", "C11", "C15"]
    } else {
        vec!["C12", "C13"]
    }
}

fn refused_wrongly(doc: &Value, e: &Entry) -> Vec<&'static str> {
    let mut p = vec!["C10", "C12"];
    if e.kind == "response" {
        p.push("C13");
    } else {
        p.push("C11");
        if doc.get("params").is_some() {
            p.push("C15");
        }
    }
    if !doc["id"].is_null() {
        p.push("C14");
    }
    p
}

fn accepted_wrongly(doc: &Value) -> Vec<&'static str> {
    let mut p = vec!["C10"];
    let id_ok = doc.get("id").map_or(true, |v| v.is_string() || v.as_i64().map_or(false, |n| n as i32 as i64 == n));
    if !id_ok {
        p.push("C14");
    } else if doc.get("params").is_some() {
        p.push("C15");
    } else if doc.get("method").is_none() {
        p.push("C13");
        p.push("C14");
    }
    p
}

/// A document which may be refused: received, it is still the kind, the type and the id it has.
fn check_open(e: &Entry, salt: u64) -> Outcome {
    let plain = concretise(&e.doc, salt);
    let text = restyle(&plain, &mut Rng::new(&[&"wire", &salt, &e.doc]));
    for (via, m) in decode_all::<Message>(&text) {
        let Ok(m) = m else { continue };
        let exp = |t: &str| -> Value { serde_json::from_str(&concretise(t, salt)).unwrap() };
        let enc = serde_json::to_value(&m).map_err(|x| (vec!["C12"], format!("not encoded: {x}")))?;
        let (kind, var) = kind_var(&m);
        if kind != e.kind {
            return Err((vec!["C10"], format!("({via}) delivered as a {kind}")));
        }
        if kind != "response" && var != e.var {
            return Err((vec!["C10", "C11"], format!("({via}) delivered as {var}, expected {}", e.var)));
        }
        if enc.get("id").cloned().unwrap_or(Value::Null) != exp(&e.id) {
            return Err((vec!["C14"], format!("({via}) has the id {}, expected {}", enc["id"], exp(&e.id))));
        }
        if kind != "response" && enc["method"] != exp(&e.method) {
            return Err((vec!["C11"], format!("({via}) sent on as {}", enc["method"])));
        }
        let again: Message = serde_json::from_value(enc.clone()).map_err(|x| (vec!["C12"], format!("({via}) own encoding {} rejected: {x}", short(&enc))))?;
        let enc2 = serde_json::to_value(&again).map_err(|x| (vec!["C12"], format!("not encoded: {x}")))?;
        if enc2 != enc || kind_var(&again) != (kind, var) {
            return Err((vec!["C12"], format!("({via}) sent on as {}, then as {}", short(&enc), short(&enc2))));
        }
    }
    Ok(())
}

pub fn check(e: &Entry, salt: u64) -> Outcome {
    if e.open {
        return check_open(e, salt);
    }
    let mut r = Rng::new(&[&"wire", &salt, &e.doc]);
    let plain = concretise(&e.doc, salt);
    let text = restyle(&plain, &mut r);
    let doc: Value = serde_json::from_str(&plain).unwrap();
    for (via, m) in decode_all::<Message>(&text) {
        match m {
            Err(x) if e.ok => return Err((refused_wrongly(&doc, e), format!("rejected ({via}): {x}"))),
            Ok(m) if !e.ok => return Err((accepted_wrongly(&doc), format!("accepted ({via}) as {m:?}"))),
            Err(_) => {}
            Ok(m) => {
                shows(e, salt, &m).map_err(|(p, x)| (p, format!("({via}) {x}")))?;
                let again: Message = serde_json::from_str(&serde_json::to_string(&m).unwrap()).map_err(|x| (refused_wrongly(&doc, e), format!("own encoding rejected: {x}")))?;
                let settled = Entry { doc: e.out.clone(), ..e.clone() };
                shows(&settled, salt, &again).map_err(|(p, x)| (p, format!("(sent on, received again) {x}")))?;
                shows(e, salt, &m.clone()).map_err(|(p, x)| (p, format!("(clone) {x}")))?;
            }
        }
    }
    // Decoded as its own kind.
    if e.ok {
        macro_rules! own {
            ($t:ty) => {
                for (via, m) in decode_all::<$t>(&text) {
                    let m = m.map_err(|x| (refused_wrongly(&doc, e), format!("as its own kind rejected ({via}): {x}")))?;
                    shows(e, salt, &m.clone().into()).map_err(|(p, x)| (p, format!("(own kind, {via}) {x}")))?;
                }
            };
        }
        match e.kind.as_str() {
            "request" => own!(Request),
            "notification" => own!(Notification),
            _ => own!(Response),
        }
    }
    Ok(())
}

/// wire VECTORS SALT0 SALTS OUT
pub fn main(args: &[String]) {
    let vs = entries(&args[0]);
    let (s0, n): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let rep = Report::default();
    parallel(vs.chunks(64).collect(), 8, |chunk: &[Entry]| {
        for e in chunk {
            for salt in crate::util::salts(s0, n, &e.doc) {
                rep.count(1);
                let r = quietly(|| check(e, salt)).unwrap_or_else(|p| Err((vec!["C10", "C12"], format!("panic: {p}"))));
                if let Err((props, what)) = r {
                    rep.fail(&props, format!("{} {}: {what}", e.name, concretise(&e.doc, salt).chars().take(600).collect::<String>()), case(e, salt));
                }
            }
            rep.traces(1);
        }
    });
    for e in vs.iter().step_by(vs.len() / 3 + 1) {
        rep.sample(json!({"written": e.name, "legal": e.ok, "document": e.doc}));
    }
    rep.write(&args[3]);
}

pub fn case(e: &Entry, salt: u64) -> Value {
    let line = [e.name.as_str(), if e.ok { "ok" } else if e.open { "any" } else { "bad" }, &e.kind, &e.var, &e.id, &e.method, &e.params, &e.doc, &e.out].join("\t");
    json!({"vector": line, "salt": salt})
}
