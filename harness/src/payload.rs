//! Documents of the payload specification, decoded and encoded by the real types (C15; C10, C12, C13 as params and results).
use crate::report::Report;
use crate::util::{agrees, concretise, parallel, quietly, restyle, short, Rng};
use bsp_server::types::*;
use bsp_server::{Message, Notification, Request, RequestId, Response};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::fmt::Debug;

pub struct Vector {
    pub ty: String,
    pub travels: String,
    pub method: String,
    pub ok: bool,
    pub doc: String,
    pub out: String,
}

pub fn vectors(path: &str) -> Vec<Vector> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            Vector { ty: f[0].into(), travels: f[1].into(), method: f[2].into(), ok: f[3] == "ok", doc: f[4].into(), out: f[5].into() }
        })
        .collect()
}

/// Decoding through every entry point of the JSON library.
pub fn decode_all<T: DeserializeOwned>(text: &str) -> Vec<(&'static str, Result<T, String>)> {
    let v: Result<Value, _> = serde_json::from_str(text);
    vec![
        ("text", serde_json::from_str(text).map_err(|e| e.to_string())),
        ("bytes", serde_json::from_slice(text.as_bytes()).map_err(|e| e.to_string())),
        ("reader", serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string())),
        ("value", v.map_err(|e| e.to_string()).and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string()))),
    ]
}

/// What a type's values can do besides travelling alone.
type Result3 = Result<(), (Vec<&'static str>, String)>;

fn typed<T: DeserializeOwned + Serialize + Debug>(text: &str, ok: bool, out: &Value) -> Result3 {
    for (via, r) in decode_all::<T>(text) {
        match r {
            Err(e) if ok => return Err((vec!["C15", "C12"], format!("rejected ({via}): {e}"))),
            Ok(v) if !ok => return Err((vec!["C15"], format!("accepted ({via}): {v:?}"))),
            Err(_) => {}
            Ok(v) => {
                let _ = format!("{v:?} {v:#?}");
                let enc = serde_json::to_value(&v).map_err(|e| (vec!["C15", "C12"], format!("not encoded: {e}")))?;
                agrees(out, &enc).map_err(|e| (vec!["C15", "C12"], format!("({via}) encoded as {}: {e}", short(&enc))))?;
                let enc_text = serde_json::to_string(&v).map_err(|e| (vec!["C15", "C12"], format!("not encoded: {e}")))?;
                if serde_json::from_str::<Value>(&enc_text).ok().as_ref() != Some(&enc) {
                    return Err((vec!["C15", "C12"], format!("encoded as text {enc_text:.300}, as value {}", short(&enc))));
                }
                let again: T = serde_json::from_str(&enc_text).map_err(|e| (vec!["C15", "C12"], format!("own encoding rejected: {e}: {enc_text:.300}")))?;
                let enc2 = serde_json::to_value(&again).unwrap();
                if enc2 != enc {
                    return Err((vec!["C15", "C12"], format!("encoded as {} then as {}", short(&enc), short(&enc2))));
                }
            }
        }
    }
    Ok(())
}

/// As the result of a response built by conversion and by `Response::ok`.
fn as_result<T: DeserializeOwned + Serialize>(text: &str, out: &Value, salt: u64) -> Result3
where
    Message: From<(RequestId, T)>,
{
    let decode = || serde_json::from_str::<T>(text);
    let (v, w) = match (decode(), decode()) {
        (Ok(v), Ok(w)) => (v, w),
        _ => return Ok(()),
    };
    let (id, idv) = some_id(salt);
    let exp = json!({"id": idv, "result": out, "error": "$?"});
    let a: Message = (id.clone(), v).into();
    let b: Message = Response::ok(id, &w).into();
    for m in [a, b] {
        if !matches!(m, Message::Response(_)) {
            return Err((vec!["C13", "C12"], format!("converted to {m:?}")));
        }
        let enc = serde_json::to_value(&m).map_err(|e| (vec!["C13"], e.to_string()))?;
        agrees(&exp, &enc).map_err(|e| (vec!["C13", "C12"], format!("response {}: {e}", short(&enc))))?;
    }
    Ok(())
}

pub fn some_id(salt: u64) -> (RequestId, Value) {
    let mut r = Rng::new(&[&"id", &salt]);
    if r.chance(2) {
        let n = crate::util::i32_(&mut r, salt) as i32;
        (n.into(), json!(n))
    } else {
        let s = crate::util::string(&mut r, salt);
        (s.clone().into(), json!(s))
    }
}

macro_rules! by_type {
    ($ty:expr, $f:ident!, [$($t:ident),* $(,)?]) => {
        match $ty { $(stringify!($t) => $f!($t),)* t => panic!("unknown type {t}") }
    };
}

fn typed_by_name(ty: &str, text: &str, ok: bool, out: &Value) -> Result3 {
    macro_rules! go {
        ($t:ident) => {
            typed::<$t>(text, ok, out)
        };
    }
    by_type!(ty, go!, [
        InitializeBuild, BuildTargetDependencyModules, DebugSessionStart, BuildTargetSources, TextDocumentInverseSources,
        BuildTargetDependencySources, BuildTargetResources, BuildTargetRun, BuildTargetCompile, BuildTargetTest, BuildTargetCleanCache,
        ShowMessage, LogMessage, PublishDiagnostics, TaskStart, TaskFinish, TaskProgress, BuildTargetDidChange, InitializeBuildResult,
        WorkspaceBuildTargetsResult, DebugSessionStartResult, BuildTargetSourcesResult, BuildTargetTestResult, BuildTargetRunResult,
        BuildTargetCompileResult, BuildTargetResourcesResult, BuildTargetDependencyModulesResult, BuildTargetCleanCacheResult,
        BuildTargetInverseSourcesResult, BuildTargetDependencySourcesResult, ServerCapabilities, ClientCapabilities, BuildTarget, TaskId,
        BuildTargetEvent, BuildTargetCapabilities, SourcesCollection, Sources, Resources, DependencyModulesItem, DependencyModule,
        DependencySourcesItem, BuildTargetIdentifier,
    ])
}

fn result_by_name(ty: &str, text: &str, out: &Value, salt: u64) -> Result3 {
    macro_rules! go {
        ($t:ident) => {
            as_result::<$t>(text, out, salt)
        };
    }
    by_type!(ty, go!, [
        InitializeBuildResult, WorkspaceBuildTargetsResult, DebugSessionStartResult, BuildTargetSourcesResult, BuildTargetTestResult,
        BuildTargetRunResult, BuildTargetCompileResult, BuildTargetResourcesResult, BuildTargetDependencyModulesResult,
        BuildTargetCleanCacheResult, BuildTargetInverseSourcesResult, BuildTargetDependencySourcesResult,
    ])
}

/// An object with the given members in some order.
pub fn object(members: &[(&str, &str)], r: &mut Rng) -> String {
    let mut m: Vec<_> = members.to_vec();
    for i in (1..m.len()).rev() {
        m.swap(i, r.below(i + 1));
    }
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", json!(k))).collect::<Vec<_>>().join(","))
}

fn travelling(v: &Vector, text: &str, out: &Value, salt: u64, r: &mut Rng) -> Result3 {
    let (_, idv) = some_id(salt);
    let idt = idv.to_string();
    let mt = json!(v.method).to_string();
    let mut members = vec![("jsonrpc", "\"2.0\"")];
    if r.chance(4) {
        members.remove(0);
    }
    match v.travels.as_str() {
        "request" => members.extend([("id", idt.as_str()), ("method", mt.as_str()), ("params", text)]),
        "notification" => members.extend([("method", mt.as_str()), ("params", text)]),
        _ => members.extend([("id", idt.as_str()), ("result", text)]),
    }
    let doc = object(&members, r);
    let result = v.travels == "response";
    for (via, m) in decode_all::<Message>(&doc) {
        match m {
            Err(e) if v.ok || result => return Err((vec!["C15", "C10", "C12"], format!("message rejected ({via}): {e}: {doc:.300}"))),
            Ok(m) if !v.ok && !result => return Err((vec!["C15", "C10"], format!("message accepted ({via}) as {m:?}"))),
            Err(_) => {}
            Ok(m) => {
                let enc = serde_json::to_value(&m).map_err(|e| (vec!["C12"], format!("not encoded: {e}")))?;
                let kind = match &m {
                    Message::Request(q) => {
                        let p = q.params().map_err(|e| (vec!["C11"], e.to_string()))?;
                        agrees(out, &p).map_err(|e| (vec!["C11", "C15"], format!("params() {}: {e}", short(&p))))?;
                        if q.method() != v.method {
                            return Err((vec!["C11"], format!("method() {}", q.method())));
                        }
                        if serde_json::to_value(q.id()).unwrap() != idv {
                            return Err((vec!["C14"], format!("id() {}", q.id())));
                        }
                        "request"
                    }
                    Message::Notification(n) => {
                        if n.method() != v.method {
                            return Err((vec!["C11"], format!("method() {}", n.method())));
                        }
                        "notification"
                    }
                    Message::Response(_) => "response",
                };
                if kind != v.travels {
                    return Err((vec!["C10"], format!("({via}) taken as a {kind}")));
                }
                let raw: Value = serde_json::from_str(text).unwrap();
                let exp = match kind {
                    "request" => json!({"id": idv, "method": v.method, "params": out}),
                    "notification" => json!({"method": v.method, "params": out}),
                    _ => json!({"id": idv, "result": raw, "error": "$?"}),
                };
                agrees(&exp, &enc).map_err(|e| (if kind == "response" { vec!["C12", "C13"] } else { vec!["C12", "C15"] }, format!("({via}) sent on as {}: {e}", short(&enc))))?;
            }
        }
    }
    Ok(())
}

/// Typed construction of the message agrees with decoding it.
fn own_kind(v: &Vector, text: &str, salt: u64, r: &mut Rng) -> Result3 {
    let (_, idv) = some_id(salt);
    let (idt, mt) = (idv.to_string(), json!(v.method).to_string());
    match v.travels.as_str() {
        "request" => {
            let doc = object(&[("id", &idt), ("method", &mt), ("params", text), ("jsonrpc", "\"2.0\"")], r);
            for (via, m) in decode_all::<Request>(&doc) {
                if m.is_ok() != v.ok {
                    return Err((vec!["C10", "C15"], format!("as a request ({via}): {m:?}")));
                }
            }
        }
        "notification" => {
            let doc = object(&[("method", &mt), ("params", text), ("jsonrpc", "\"2.0\"")], r);
            for (via, m) in decode_all::<Notification>(&doc) {
                if m.is_ok() != v.ok {
                    return Err((vec!["C10", "C15"], format!("as a notification ({via}): {m:?}")));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn check(v: &Vector, salt: u64) -> Result3 {
    let mut r = Rng::new(&[&"payload", &salt, &v.doc]);
    let text = restyle(&concretise(&v.doc, salt), &mut r);
    let out: Value = serde_json::from_str(&concretise(&v.out, salt)).unwrap();
    typed_by_name(&v.ty, &text, v.ok, &out)?;
    if v.travels != "part" {
        travelling(v, &text, &out, salt, &mut r)?;
        own_kind(v, &text, salt, &mut r)?;
        if v.travels == "response" && v.ok {
            result_by_name(&v.ty, &text, &out, salt)?;
        }
    }
    Ok(())
}

/// payload VECTORS SALT0 SALTS OUT
pub fn main(args: &[String]) {
    let vs = vectors(&args[0]);
    let (s0, n): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let rep = Report::default();
    let chunks: Vec<&[Vector]> = vs.chunks(64).collect();
    parallel(chunks, 8, |chunk| {
        for v in chunk {
            for salt in crate::util::salts(s0, n, &v.doc) {
                rep.count(1);
                let r = quietly(|| check(v, salt)).unwrap_or_else(|p| Err((vec!["C15", "C10", "C12"], format!("panic: {p}"))));
                if let Err((props, what)) = r {
                    rep.fail(&props, format!("{} {} {}: {what}", v.ty, if v.ok { "legal" } else { "illegal" }, concretise(&v.doc, salt).chars().take(600).collect::<String>()),
                        json!({"vector": line(v), "salt": salt}));
                }
            }
            rep.traces(1);
        }
    });
    for v in vs.iter().step_by(vs.len() / 3 + 1) {
        rep.sample(json!({"type": v.ty, "legal": v.ok, "document": v.doc}));
    }
    rep.write(&args[3]);
}

pub fn line(v: &Vector) -> String {
    [v.ty.as_str(), &v.travels, &v.method, if v.ok { "ok" } else { "bad" }, &v.doc, &v.out].join("\t")
}
