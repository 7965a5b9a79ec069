//! Named values and their codes on the wire, against Codes.tla (C15; C12, C13, C11).
use crate::payload::decode_all;
use crate::report::Report;
use crate::util::{concretise, quietly, restyle, Rng};
use bsp_server::types::*;
use bsp_server::ErrorCode;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// A type whose values have names.
trait Named: Serialize + DeserializeOwned + Sized {
    fn make(name: &str, code: &Value) -> Self;
    fn name(&self) -> (&'static str, Option<&str>);
}

macro_rules! named {
    ($t:ident [$($n:ident),*] $(custom $c:ident)?) => {
        impl Named for $t {
            fn make(name: &str, code: &Value) -> Self {
                let _ = code;
                match name {
                    $(stringify!($n) => $t::$n,)*
                    $(stringify!($c) => $t::$c(code.as_str().unwrap().to_owned()),)?
                    n => panic!("no {n}"),
                }
            }
            fn name(&self) -> (&'static str, Option<&str>) {
                #[allow(unreachable_patterns)]
                match self {
                    $($t::$n => (stringify!($n), None),)*
                    $($t::$c(x) => (stringify!($c), Some(x.as_str())),)?
                    _ => ("another", None),
                }
            }
        }
    };
}
named!(TaskDataKind [CompileTask, CompileReport, TestTask, TestReport, TestStart, TestFinish] custom Custom);
named!(BuildTargetTag [Libary, Application, Test, IntegrationTest, Benchmark, NoIDE, Manual] custom Custom);
named!(TaskStatus [Ok, Error, Cancelled]);
named!(BuildTargetEventKind [Created, Changed, Deleted]);
named!(MessageType [Error, Warning, Info, Log]);
named!(SourceKind [File, Directory]);

fn is<T: Named>(v: &T, name: &str, code: &Value, via: &str) -> Result<(), String> {
    let (n, text) = v.name();
    if n != name || text.map_or(false, |t| json!(t) != *code) {
        return Err(format!("{via} read as {n}{text:?}, not {name}"));
    }
    let back = serde_json::to_value(v).map_err(|e| e.to_string())?;
    if back != *code || serde_json::to_string(v).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) != Some(code.clone()) {
        return Err(format!("{name} is written as {back}"));
    }
    Ok(())
}

fn alone<T: Named>(name: &str, code: &Value, text: &str) -> Result<(), String> {
    if name != "none" {
        is(&T::make(name, code), name, code, "value")?;
    }
    for (via, r) in decode_all::<T>(text) {
        match r {
            Ok(v) if name == "none" => return Err(format!("{via} accepted as {}", v.name().0)),
            Err(_) if name == "none" => {}
            Err(e) => return Err(format!("{via} rejected: {e}")),
            Ok(v) => is(&v, name, code, via)?,
        }
    }
    Ok(())
}

/// In a payload: the member holds it, and does when it was put there.
fn carried<P, T: Named>(name: &str, code: &Value, text: &str, member: &str, get: impl Fn(&mut P) -> Vec<&mut T>) -> Result<(), String>
where
    P: Serialize + DeserializeOwned,
{
    for (via, r) in decode_all::<P>(text) {
        let mut p = match r {
            Ok(_) if name == "none" => return Err(format!("{via} accepted")),
            Err(_) if name == "none" => continue,
            Err(e) => return Err(format!("{via} rejected: {e}")),
            Ok(p) => p,
        };
        let doc = serde_json::to_value(&p).map_err(|e| e.to_string())?;
        let shown = |doc: &Value| if doc[member].is_array() { doc[member][0].clone() } else { doc[member].clone() };
        if shown(&doc) != *code {
            return Err(format!("{via} sent on as {doc}"));
        }
        let mut at = get(&mut p);
        match at.first_mut() {
            None => return Err(format!("{via}: {member} is lost")),
            Some(v) => {
                is(*v, name, code, via)?;
                **v = T::make(name, code);
            }
        }
        if serde_json::to_value(&p).ok() != Some(doc.clone()) {
            return Err(format!("the same value again makes {doc} {}", serde_json::to_string(&p).unwrap_or_default()));
        }
    }
    Ok(())
}

fn check(f: &[&str], salt: u64) -> Result<(), String> {
    let (ty, name, carrier, member) = (f[0], f[1], f[3], f[4]);
    let code: Value = serde_json::from_str(f[2]).unwrap();
    let mut r = Rng::new(&[&"codes", &salt, &f[5]]);
    let text = restyle(&concretise(f[5], salt), &mut r);
    macro_rules! on {
        ($p:ty, $t:ty, |$x:ident| $get:expr) => {
            carried::<$p, $t>(name, &code, &text, member, |$x| $get)
        };
    }
    match (ty, carrier) {
        ("TaskDataKind", "") => alone::<TaskDataKind>(name, &code, &text),
        ("BuildTargetTag", "") => alone::<BuildTargetTag>(name, &code, &text),
        ("TaskStatus", "") => alone::<TaskStatus>(name, &code, &text),
        ("BuildTargetEventKind", "") => alone::<BuildTargetEventKind>(name, &code, &text),
        ("MessageType", "") => alone::<MessageType>(name, &code, &text),
        ("SourceKind", "") => alone::<SourceKind>(name, &code, &text),
        (_, "TaskStart") => on!(TaskStart, TaskDataKind, |x| vec![&mut x.data_kind]),
        (_, "TaskProgress") => on!(TaskProgress, TaskDataKind, |x| vec![&mut x.data_kind]),
        ("TaskDataKind", "TaskFinish") => on!(TaskFinish, TaskDataKind, |x| vec![&mut x.data_kind]),
        (_, "TaskFinish") => {
            on!(TaskFinish, TaskStatus, |x| vec![&mut x.status])?;
            if let Ok(x) = serde_json::from_str::<TaskFinish>(&text) {
                let says = [x.status.is_ok(), x.status.is_error(), x.status.is_cancelled()];
                if says != ["Ok", "Error", "Cancelled"].map(|n| n == name) || x.status.to_string() != name {
                    return Err(format!("{name} says {says:?}, {}", x.status));
                }
            }
            Ok(())
        }
        (_, "BuildTarget") => on!(BuildTarget, BuildTargetTag, |x| x.tags.iter_mut().collect()),
        (_, "BuildTargetEvent") => on!(BuildTargetEvent, BuildTargetEventKind, |x| x.kind.iter_mut().collect()),
        (_, "LogMessage") => on!(LogMessage, MessageType, |x| vec![&mut x.typ]),
        (_, "ShowMessage") => on!(ShowMessage, MessageType, |x| vec![&mut x.typ]),
        (_, "Sources") => {
            for (via, r) in decode_all::<Sources>(&text) {
                match r {
                    Ok(_) if name == "none" => return Err(format!("{via} accepted")),
                    Err(_) if name == "none" => {}
                    Err(e) => return Err(format!("{via} rejected: {e}")),
                    Ok(mut x) => {
                        is(x.kind(), name, &code, via)?;
                        x.set_kind(SourceKind::make(name, &code));
                        is(x.kind(), name, &code, "setter")?;
                    }
                }
            }
            Ok(())
        }
        c => Err(format!("harness: no carrier {c:?}")),
    }
}

/// codes VECTORS SALT0 SALTS OUT
pub fn main(args: &[String]) {
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let lines: Vec<Vec<&str>> = text.lines().map(|l| l.split('\t').collect()).collect();
    let (s0, n): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let rep = Report::default();
    for f in &lines {
        for salt in s0..s0 + n {
            rep.count(1);
            if let Err(e) = quietly(|| check(f, salt)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                rep.fail(&["C15", "C12"], format!("{} {} {} in {}: {e}", f[0], f[1], f[2], f[3]), json!({"vector": f.join("\t"), "salt": salt}));
            }
        }
        rep.traces(1);
    }
    // The remaining named constants.
    let codes = [
        (ErrorCode::ParseError as i32, -32700), (ErrorCode::InvalidRequest as i32, -32600), (ErrorCode::MethodNotFound as i32, -32601),
        (ErrorCode::InvalidParams as i32, -32602), (ErrorCode::InternalError as i32, -32603), (ErrorCode::ServerErrorStart as i32, -32099),
        (ErrorCode::ServerErrorEnd as i32, -32000), (ErrorCode::ServerNotInitialized as i32, -32002), (ErrorCode::RequestCanceled as i32, -32800),
        (ErrorCode::ContentModified as i32, -32801), (ErrorCode::ServerCancelled as i32, -32802),
    ];
    for (i, (is, exp)) in codes.iter().enumerate() {
        rep.count(1);
        if is != exp {
            rep.fail(&["C13"], format!("error code {i} is {is}, not {exp}"), json!({"code": exp}));
        }
    }
    if BuildTargetDidChange::METHOD != "buildTarget/didChange" {
        rep.fail(&["C11"], format!("METHOD is {}", BuildTargetDidChange::METHOD), json!({}));
    }
    rep.sample(json!(lines[0]));
    rep.write(&args[3]);
}
