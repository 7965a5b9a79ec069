//! Payloads built by constructors, setters and mutable references, against Builder.tla (C16).
use crate::report::Report;
use crate::util::{agrees, concretise, parallel, quietly, short};
use bsp_server::types::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

/// Free-form data given as null.
const GIVEN_NULL: &str = "$Z";

fn v<T: DeserializeOwned + 'static>(x: &Value) -> T {
    if x == GIVEN_NULL {
        let x: Box<dyn std::any::Any> = Box::new(Some(Value::Null));
        return *x.downcast().expect("optional data");
    }
    serde_json::from_value(x.clone()).unwrap_or_else(|e| panic!("argument {}: {e}", short(x)))
}

fn j<T: Serialize>(x: T) -> Value {
    serde_json::to_value(x).unwrap()
}

/// What a getter returns; data which are null are not the same as none.
struct Shown<T>(T);
trait Show {
    fn show(&self) -> Value;
}
impl<T: Serialize> Show for Shown<T> {
    fn show(&self) -> Value {
        j(&self.0)
    }
}
impl Shown<Option<&Value>> {
    fn show(&self) -> Value {
        match self.0 {
            Some(Value::Null) => json!(GIVEN_NULL),
            x => j(x),
        }
    }
}

/// A payload under construction.
trait Work {
    /// false: no such operation
    fn op(&mut self, o: &str, f: &str, t: &Value) -> bool;
    fn gets(&self) -> Vec<(&'static str, Value)>;
    fn doc(&self) -> Result<Value, String>;
    fn text(&self) -> String;
    fn other(&self) -> Result<(), String>;
}

macro_rules! work {
    ($t:ident { $(set $sf:literal $sm:ident;)* $(mut $mf:literal $mm:ident;)* $(vec $vf:literal $vm:ident;)* $(pub $pf:literal $pm:ident;)* $(get $gf:literal $gm:ident;)* $(also |$x:ident| $also:expr;)? }) => {
        impl Work for $t {
            #[allow(unused_variables, unreachable_code)]
            fn op(&mut self, o: &str, f: &str, t: &Value) -> bool {
                match (o, f) {
                    $(("set", $sf) => self.$sm(v(t)),)*
                    $(("mut", $mf) => *self.$mm() = v(t),)*
                    $(("mut", $vf) => *self.$vm() = v(t),)*
                    $(("push", $vf) => self.$vm().push(v(t)),)*
                    $(("pub", $pf) => self.$pm = v(t),)*
                    _ => return false,
                }
                true
            }
            fn gets(&self) -> Vec<(&'static str, Value)> {
                vec![$(($gf, Shown(self.$gm()).show()),)* $(($pf, j(&self.$pm)),)*]
            }
            fn doc(&self) -> Result<Value, String> {
                serde_json::to_value(self).map_err(|e| e.to_string())
            }
            fn text(&self) -> String {
                serde_json::to_string(self).unwrap_or_else(|e| e.to_string())
            }
            fn other(&self) -> Result<(), String> {
                let _ = format!("{self:?}");
                $(let $x = self; $also?;)?
                Ok(())
            }
        }
    };
}

fn ensure(ok: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(what())
    }
}

work!(BuildTargetCleanCache { set "targets" set_targets; vec "targets" targets_mut; get "targets" targets;
    also |x| ensure(x.is_empty() == x.targets().is_empty(), || format!("is_empty() is {}", x.is_empty())); });
work!(BuildTargetDependencyModules { set "targets" set_targets; vec "targets" targets_mut; get "targets" targets;
    also |x| ensure(x.is_empty() == x.targets().is_empty(), || format!("is_empty() is {}", x.is_empty())); });
work!(BuildTargetCleanCacheResult { set "message" set_message; set "cleaned" set_cleaned; get "message" message; get "cleaned" cleaned; });
work!(InitializeBuildResult { set "displayName" set_display_name; set "version" set_version; set "bspVersion" set_bsp_version;
    set "capabilities" set_capabilities; set "data" set_data; mut "data" data_mut;
    get "displayName" display_name; get "version" version; get "bspVersion" bsp_version; get "capabilities" capabilities; get "data" data; });
work!(InitializeBuild { set "displayName" set_display_name; set "version" set_version; set "bspVersion" set_bsp_version;
    set "rootUri" set_root_uri; set "capabilities" set_capabilities; set "data" set_data;
    get "displayName" display_name; get "version" version; get "bspVersion" bsp_version; get "rootUri" root_uri;
    get "capabilities" capabilities; get "data" data;
    also |x| root_path(x); });
work!(BuildTargetSources { set "targets" set_targets; get "targets" targets; });
work!(BuildTargetSourcesResult { set "items" set_items; get "items" items; });
work!(SourcesCollection { set "target" set_target; set "sources" set_sources; get "target" target; get "sources" sources; });
work!(Sources { set "uri" set_uri; set "kind" set_kind; set "generated" set_generated; get "uri" uri; get "kind" kind; get "generated" generated; });
work!(BuildTargetCapabilities { set "canCompile" set_can_compile; set "canTest" set_can_test; set "canRun" set_can_run; set "canDebug" set_can_debug;
    get "canCompile" can_compile; get "canTest" can_test; get "canRun" can_run; get "canDebug" can_debug; });
work!(BuildTargetResources { set "targets" set_targets; vec "targets" targets_mut; get "targets" targets; });
work!(BuildTargetResourcesResult { vec "items" items_mut; get "items" items; });
work!(BuildTargetDependencyModulesResult { vec "items" items_mut; get "items" items; });
work!(Resources { set "target" set_target; set "resources" set_resources; get "target" target; get "resources" resources; });
work!(DebugSessionStart { set "targets" set_targets; set "dataKind" set_data_kind; set "data" set_data;
    get "targets" targets; get "dataKind" data_kind; get "data" data; });
work!(DebugSessionStartResult {});
work!(BuildTargetIdentifier { set "uri" set_uri; get "uri" uri; });
work!(BuildTargetCompile { set "target" set_target; set "originId" set_origin_id; set "arguments" set_arguments;
    get "target" target; get "originId" origin_id; get "arguments" arguments; });
work!(BuildTargetTest { set "target" set_target; set "originId" set_origin_id; set "arguments" set_arguments; set "dataKind" set_data_kind; set "data" set_data;
    get "target" target; get "originId" origin_id; get "arguments" arguments; get "dataKind" data_kind; get "data" data; });
work!(BuildTargetRun { set "target" set_target; set "originId" set_origin_id; set "arguments" set_arguments; set "dataKind" set_data_kind; set "data" set_data;
    get "target" target; get "originId" origin_id; get "arguments" arguments; get "dataKind" data_kind; get "data" data; });
work!(BuildTargetCompileResult { set "originId" set_origin_id; set "statusCode" set_status_code; set "dataKind" set_data_kind; set "data" set_data;
    get "originId" origin_id; get "statusCode" status_code; get "dataKind" data_kind; get "data" data; });
work!(BuildTargetTestResult { set "originId" set_origin_id; set "statusCode" set_status_code; set "dataKind" set_data_kind; set "data" set_data;
    get "originId" origin_id; get "statusCode" status_code; get "dataKind" data_kind; get "data" data; });
work!(BuildTargetRunResult { set "originId" set_origin_id; set "statusCode" set_status_code; get "originId" origin_id; get "statusCode" status_code; });
work!(DependencyModulesItem { set "modules" set_modules; get "target" target; get "modules" modules; });
work!(DependencyModule { set "name" set_name; set "version" set_version; set "dataKind" set_data_kind; get "name" name; get "version" version; get "dataKind" data_kind; });
work!(ServerCapabilities { set "compileProvider" set_compile_provider; set "testProvider" set_test_provider; set "runProvider" set_run_provider;
    set "debugProvider" set_debug_provider; set "inverseSourcesProvider" set_inverse_sources_provider;
    set "dependencySourcesProvider" set_dependency_sources_provider; set "dependencyModulesProvider" set_dependency_modules_provider;
    set "resourcesProvider" set_resources_provider; set "canReload" set_can_reload; set "buildTargetChangedProvider" set_build_target_changed_provider;
    get "compileProvider" compile_provider; get "testProvider" test_provider; get "runProvider" run_provider; get "debugProvider" debug_provider;
    get "inverseSourcesProvider" inverse_sources_provider; get "dependencySourcesProvider" dependency_sources_provider;
    get "dependencyModulesProvider" dependency_modules_provider; get "resourcesProvider" resources_provider; get "canReload" can_reload;
    get "buildTargetChangedProvider" build_target_changed_provider; });
work!(ClientCapabilities { set "languageIds" set_language_ids; vec "languageIds" language_ids_mut; get "languageIds" language_ids; });
work!(TextDocumentInverseSources { set "textDocument" set_text_document; get "textDocument" text_document; });
work!(BuildTargetDependencySources { set "textDocument" set_text_document; get "textDocument" text_document; });
work!(DependencySourcesItem { set "target" set_target; set "sources" set_sources; get "target" target; get "sources" sources; });
work!(LogMessage { pub "type" typ; pub "task" task; pub "originId" origin_id; pub "message" message; });
work!(ShowMessage { pub "type" typ; pub "task" task; pub "originId" origin_id; pub "message" message; });
work!(BuildTarget { pub "id" id; pub "displayName" display_name; pub "baseDirectory" base_directory; pub "tags" tags;
    pub "capabilities" capabilities; pub "languageIds" language_ids; pub "dependencies" dependencies; });
work!(BuildTargetEvent { pub "target" target; pub "kind" kind; pub "data" data; });
work!(BuildTargetDidChange { pub "changes" changes; });
work!(WorkspaceBuildTargetsResult { pub "targets" targets; });
work!(TaskStart { pub "taskId" task_id; pub "eventTime" event_time; pub "message" message; pub "dataKind" data_kind; pub "data" data; });
work!(TaskProgress { pub "taskId" task_id; pub "eventTime" event_time; pub "message" message; pub "total" total; pub "progress" progress;
    pub "unit" unit; pub "dataKind" data_kind; pub "data" data; });
work!(TaskFinish { pub "taskId" task_id; pub "eventTime" event_time; pub "message" message; pub "status" status; pub "dataKind" data_kind; pub "data" data;
    also |x| ensure(
        [x.status.is_ok(), x.status.is_error(), x.status.is_cancelled()] == [1, 2, 3].map(|n| j(&x.status) == json!(n)),
        || format!("{:?} says ok: {}, error: {}, cancelled: {}", x.status, x.status.is_ok(), x.status.is_error(), x.status.is_cancelled())); });

struct Task(TaskId);
impl Work for Task {
    fn op(&mut self, o: &str, _: &str, t: &Value) -> bool {
        o == "add" && {
            self.0.add_parent(v(t));
            true
        }
    }
    fn gets(&self) -> Vec<(&'static str, Value)> {
        vec![]
    }
    fn doc(&self) -> Result<Value, String> {
        serde_json::to_value(&self.0).map_err(|e| e.to_string())
    }
    fn text(&self) -> String {
        serde_json::to_string(&self.0).unwrap()
    }
    fn other(&self) -> Result<(), String> {
        Ok(())
    }
}

/// The path of a root URI, decoded by hand.
fn root_path(x: &InitializeBuild) -> Result<(), String> {
    let uri = x.root_uri().as_str();
    let path = match uri.strip_prefix("file://") {
        Some(p) if p.starts_with('/') => p.split(['?', '#']).next().unwrap(),
        _ => return Ok(()),
    };
    let mut bytes = vec![];
    let mut it = path.bytes();
    while let Some(b) = it.next() {
        if b == b'%' {
            let hex: String = [it.next(), it.next()].into_iter().flatten().map(char::from).collect();
            match u8::from_str_radix(&hex, 16) {
                Ok(b) => bytes.push(b),
                Err(_) => return Ok(()),
            }
        } else {
            bytes.push(b);
        }
    }
    use std::os::unix::ffi::OsStrExt;
    let got = x.root_path();
    let trim = |b: &[u8]| -> Vec<u8> { String::from_utf8_lossy(b).trim_end_matches('/').as_bytes().to_vec() };
    ensure(trim(got.as_os_str().as_bytes()) == trim(&bytes), || format!("root_path() is {got:?} for {uri}"))
}

fn make(ty: &str, ctor: &str, a: &Value) -> Result<Box<dyn Work>, String> {
    macro_rules! d {
        ($($t:ident),*) => {
            match ty {
                $(stringify!($t) => return serde_json::from_value::<$t>(a.clone()).map(|x| Box::new(x) as Box<dyn Work>).map_err(|e| e.to_string()),)*
                "TaskId" => return serde_json::from_value::<TaskId>(a.clone()).map(|x| Box::new(Task(x)) as Box<dyn Work>).map_err(|e| e.to_string()),
                _ => return Err(format!("no type {ty}")),
            }
        };
    }
    fn g<T: DeserializeOwned + 'static>(a: &Value, f: &str) -> T {
        v(&a[f])
    }
    macro_rules! n {
        ($t:ident :: $c:ident ( $($f:literal),* )) => { Box::new($t::$c($(g(a, $f)),*)) };
        ($t:ident :: $c:ident str ( $($f:literal),* ; $($r:literal),* )) => { Box::new($t::$c($(g::<String>(a, $f)),* $(, g(a, $r))*)) };
    }
    macro_rules! m {
        ($t:ident :: $c:ident) => { Box::new($t::$c(g::<String>(a, "message"), g(a, "task"), g(a, "originId"))) };
    }
    let mt = || g(a, "type");
    Ok(match (ty, ctor) {
        (_, "decode") => d!(BuildTargetCleanCache, BuildTargetDependencyModules, BuildTargetCleanCacheResult, InitializeBuildResult, InitializeBuild,
            BuildTargetSources, BuildTargetSourcesResult, SourcesCollection, Sources, BuildTargetCapabilities, BuildTargetResources,
            BuildTargetResourcesResult, BuildTargetDependencyModulesResult, Resources, DebugSessionStart, DebugSessionStartResult,
            BuildTargetIdentifier, BuildTargetCompile, BuildTargetTest, BuildTargetRun, BuildTargetCompileResult, BuildTargetTestResult,
            BuildTargetRunResult, DependencyModulesItem, DependencyModule, ServerCapabilities, ClientCapabilities, TextDocumentInverseSources,
            BuildTargetDependencySources, DependencySourcesItem, LogMessage, ShowMessage, BuildTarget, BuildTargetEvent, BuildTargetDidChange,
            WorkspaceBuildTargetsResult, TaskStart, TaskProgress, TaskFinish),
        ("TaskId", "new") => Box::new(Task(TaskId::new(g(a, "id"), g(a, "parents")))),
        ("TaskId", "from_string") => Box::new(Task(TaskId::from(g::<String>(a, "id")))),
        ("TaskId", "from_str") => Box::new(Task(TaskId::from(g::<String>(a, "id").as_str()))),
        ("TaskStart", "default") => Box::new(TaskStart::default()),
        ("TaskFinish", "default") => Box::new(TaskFinish::default()),
        ("TaskProgress", "default") => Box::new(TaskProgress::default()),
        ("ServerCapabilities", "default") => Box::new(ServerCapabilities::default()),
        ("TaskStart", "new") => Box::new(TaskStart::new(g::<TaskId>(a, "taskId"))),
        ("TaskFinish", "new") => n!(TaskFinish::new("taskId")),
        ("BuildTargetCleanCacheResult", "new") => n!(BuildTargetCleanCacheResult::new("message", "cleaned")),
        ("BuildTargetCleanCacheResult", "new_simple") => n!(BuildTargetCleanCacheResult::new_simple("cleaned")),
        ("InitializeBuildResult", "new") => n!(InitializeBuildResult::new str("displayName", "version", "bspVersion"; "capabilities", "data")),
        ("InitializeBuildResult", "new_simple") => n!(InitializeBuildResult::new_simple str("displayName", "version", "bspVersion"; "capabilities")),
        ("InitializeBuild", "new") => n!(InitializeBuild::new str("displayName", "version", "bspVersion"; "rootUri", "capabilities", "data")),
        ("InitializeBuild", "new_simple") => n!(InitializeBuild::new_simple str("displayName", "version", "bspVersion"; "rootUri", "capabilities")),
        ("BuildTargetSources", "new") => n!(BuildTargetSources::new("targets")),
        ("BuildTargetSourcesResult", "new") => n!(BuildTargetSourcesResult::new("items")),
        ("SourcesCollection", "new") => n!(SourcesCollection::new("target", "sources")),
        ("Sources", "new") => n!(Sources::new("uri", "kind", "generated")),
        ("BuildTargetCapabilities", "new") => n!(BuildTargetCapabilities::new("canCompile", "canTest", "canRun", "canDebug")),
        ("BuildTargetResources", "new") => n!(BuildTargetResources::new("targets")),
        ("BuildTargetResourcesResult", "new") => n!(BuildTargetResourcesResult::new("items")),
        ("BuildTargetDependencyModulesResult", "new") => n!(BuildTargetDependencyModulesResult::new("items")),
        ("Resources", "new") => n!(Resources::new("target", "resources")),
        ("DebugSessionStart", "new") => n!(DebugSessionStart::new("targets", "dataKind", "data")),
        ("DebugSessionStartResult", "new") => n!(DebugSessionStartResult::new("uri")),
        ("BuildTargetIdentifier", "new") => n!(BuildTargetIdentifier::new("uri")),
        ("BuildTargetCompile", "new") => n!(BuildTargetCompile::new("target", "originId", "arguments")),
        ("BuildTargetCompile", "new_simple") => n!(BuildTargetCompile::new_simple("target")),
        ("BuildTargetTest", "new") => n!(BuildTargetTest::new("target", "originId", "arguments", "dataKind", "data")),
        ("BuildTargetTest", "new_simple") => n!(BuildTargetTest::new_simple("target")),
        ("BuildTargetRun", "new") => n!(BuildTargetRun::new("target", "originId", "arguments", "dataKind", "data")),
        ("BuildTargetRun", "new_simple") => n!(BuildTargetRun::new_simple("target")),
        ("BuildTargetCompileResult", "new") => n!(BuildTargetCompileResult::new("originId", "statusCode", "dataKind", "data")),
        ("BuildTargetCompileResult", "new_simple") => n!(BuildTargetCompileResult::new_simple("statusCode")),
        ("BuildTargetTestResult", "new") => n!(BuildTargetTestResult::new("originId", "statusCode", "dataKind", "data")),
        ("BuildTargetTestResult", "new_simple") => n!(BuildTargetTestResult::new_simple("statusCode")),
        ("BuildTargetRunResult", "new") => n!(BuildTargetRunResult::new("originId", "statusCode")),
        ("DependencyModulesItem", "new") => n!(DependencyModulesItem::new("target", "modules")),
        ("DependencyModule", "new") => n!(DependencyModule::new("name", "version", "dataKind", "data")),
        ("DependencyModule", "new_simple") => n!(DependencyModule::new_simple("name", "version")),
        ("BuildTargetEvent", "new") => n!(BuildTargetEvent::new("target", "kind", "data")),
        ("BuildTargetEvent", "new_simple") => n!(BuildTargetEvent::new_simple("target")),
        ("BuildTarget", "new") => n!(BuildTarget::new("id", "displayName", "baseDirectory", "tags", "capabilities", "languageIds", "dependencies")),
        ("BuildTarget", "new_simple") => n!(BuildTarget::new_simple("id", "tags", "capabilities", "languageIds", "dependencies")),
        ("WorkspaceBuildTargetsResult", "new") => n!(WorkspaceBuildTargetsResult::new("targets")),
        ("WorkspaceBuildTargetsResult", "from") => Box::new(WorkspaceBuildTargetsResult::from(v::<BuildTarget>(&a["targets"][0]))),
        ("ClientCapabilities", "new") => n!(ClientCapabilities::new("languageIds")),
        ("TextDocumentInverseSources", "new") => n!(TextDocumentInverseSources::new("textDocument")),
        ("BuildTargetDependencySources", "new") => n!(BuildTargetDependencySources::new("textDocument")),
        ("LogMessage", "new") => Box::new(LogMessage::new(mt(), g::<String>(a, "message"), g(a, "task"), g(a, "originId"))),
        ("ShowMessage", "new") => Box::new(ShowMessage::new(mt(), g::<String>(a, "message"), g(a, "task"), g(a, "originId"))),
        ("LogMessage", "info") => m!(LogMessage::info),
        ("LogMessage", "warn") => m!(LogMessage::warn),
        ("LogMessage", "error") => m!(LogMessage::error),
        ("LogMessage", "log") => Box::new(LogMessage::log::<String>(g(a, "message"), g(a, "task"), g(a, "originId"))),
        ("ShowMessage", "info") => m!(ShowMessage::info),
        ("ShowMessage", "warn") => m!(ShowMessage::warn),
        ("ShowMessage", "error") => m!(ShowMessage::error),
        ("ShowMessage", "log") => m!(ShowMessage::log),
        _ => return Err(format!("no constructor {ctor}")),
    })
}

fn check(line: &str, salt: u64) -> Result<(), String> {
    let f: Vec<&str> = line.split('\t').collect();
    let c = |s: &str| -> Value { serde_json::from_str(&concretise(s, salt)).unwrap() };
    let (args, ops, exp) = (c(f[2]), c(f[3]), c(f[4]));
    let mut x = make(f[0], f[1], &args)?;
    for op in ops.as_array().unwrap() {
        let (o, fl) = (op["o"].as_str().unwrap(), op["f"].as_str().unwrap());
        ensure(x.op(o, fl, &op["t"]), || format!("harness: no operation {o} {fl}"))?;
    }
    let doc = x.doc()?;
    agrees(&exp, &doc).map_err(|e| format!("encoded as {}: {e}", short(&doc)))?;
    let text: Value = serde_json::from_str(&x.text()).map_err(|e| e.to_string())?;
    agrees(&exp, &text).map_err(|e| format!("encoded as {}: {e}", short(&text)))?;
    for (n, got) in x.gets() {
        if n == "data" && (f[5] == "null" || got == GIVEN_NULL) {
            ensure(f[5] == "null" && got == GIVEN_NULL, || format!("data shows {}", short(&got)))?;
            continue;
        }
        agrees(&json!({ n: exp[n] }), &json!({ n: got })).map_err(|e| format!("{n} shows {}: {e}", short(&got)))?;
    }
    x.other()
}

/// builder VECTORS SALT0 SALTS OUT
pub fn main(args: &[String]) {
    let text = std::fs::read_to_string(&args[0]).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let (s0, n): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
    let rep = Report::default();
    parallel(lines.chunks(64).collect(), 8, |chunk: &[&str]| {
        for l in chunk {
            for salt in crate::util::salts(s0, n, l) {
                rep.count(1);
                if let Err(e) = quietly(|| check(l, salt)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                    rep.fail(&["C16"], format!("{}: {e}", concretise(l, salt).chars().take(700).collect::<String>().replace('\t', " ")), json!({"vector": l, "salt": salt}));
                }
            }
            rep.traces(1);
        }
    });
    for l in lines.iter().step_by(lines.len() / 3 + 1) {
        rep.sample(json!(l));
    }
    rep.write(&args[3]);
}
