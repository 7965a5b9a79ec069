-------------------------------- MODULE Payload --------------------------------
(****************************************************************************)
(* The wire schema of every protocol payload, and what decoding a document   *)
(* against it must give: Decode(type, doc) is                                *)
(*   ok = "ok"   accepted; re-encoding the value must give the document t    *)
(*   ok = "bad"  rejected                                                    *)
(*   ok = "any"  not determined by the protocol (never checked)              *)
(* Types are names: str, url, bool, u32, u64, i32, any, enum2..enum4, dk     *)
(* (task data kind), tag (build target tag), nos (number or string), "[]T",  *)
(* or an object type of Fields.  Field rules:                                *)
(*   req   required                  opt   optional: missing or null = unset *)
(*   dstr  optional, unset = ""      dvec  optional, unset = []              *)
(*   def   optional, unset = Default(type), always written                   *)
(****************************************************************************)
EXTENDS Tree

F(n, ty, r) == [n |-> n, ty |-> ty, r |-> r]

ObjectTypes == {
  "InitializeBuild", "ClientCapabilities", "InitializeBuildResult", "ServerCapabilities", "Provider",
  "BuildTargetIdentifier", "TextDocumentIdentifier", "BuildTargetCompile", "BuildTargetCompileResult",
  "BuildTargetTest", "BuildTargetTestResult", "BuildTargetRun", "BuildTargetRunResult",
  "BuildTargetCleanCache", "BuildTargetCleanCacheResult", "BuildTargetResources",
  "BuildTargetResourcesResult", "Resources", "BuildTargetSources", "BuildTargetSourcesResult",
  "SourcesCollection", "Sources", "TextDocumentInverseSources", "BuildTargetInverseSourcesResult",
  "BuildTargetDependencySources", "BuildTargetDependencySourcesResult", "DependencySourcesItem",
  "BuildTargetDependencyModules", "BuildTargetDependencyModulesResult", "DependencyModulesItem",
  "DependencyModule", "DebugSessionStart", "DebugSessionStartResult", "WorkspaceBuildTargetsResult",
  "BuildTarget", "BuildTargetCapabilities", "LogMessage", "ShowMessage", "PublishDiagnostics",
  "TaskStart", "TaskProgress", "TaskFinish", "TaskId", "BuildTargetDidChange", "BuildTargetEvent",
  "Diagnostic", "Range", "Position", "CodeDescription", "RelatedInformation", "Location" }

Targets == <<F("targets", "[]BuildTargetIdentifier", "req")>>
Document == <<F("textDocument", "TextDocumentIdentifier", "req")>>
DataPair == <<F("dataKind", "str", "opt"), F("data", "any", "opt")>>
RunFields == <<F("target", "BuildTargetIdentifier", "req"), F("originId", "str", "opt"),
               F("arguments", "str", "opt")>>
StatusFields == <<F("originId", "str", "opt"), F("statusCode", "u64", "req")>>
TaskFields == <<F("taskId", "TaskId", "def"), F("eventTime", "u64", "opt"), F("message", "nstr", "dstr"),
                F("dataKind", "dk", "opt"), F("data", "any", "opt")>>

Fields(ty) ==
  CASE ty = "InitializeBuild" ->
         <<F("displayName", "str", "req"), F("version", "nstr", "dstr"), F("bspVersion", "nstr", "dstr"),
           F("rootUri", "url", "req"), F("capabilities", "ClientCapabilities", "def"), F("data", "any", "opt")>>
    [] ty = "ClientCapabilities" -> <<F("languageIds", "[]str", "req")>>
    [] ty = "InitializeBuildResult" ->
         <<F("displayName", "str", "req"), F("version", "str", "req"), F("bspVersion", "str", "req"),
           F("capabilities", "ServerCapabilities", "req"), F("data", "any", "opt")>>
    [] ty = "ServerCapabilities" ->
         <<F("compileProvider", "Provider", "opt"), F("testProvider", "Provider", "opt"),
           F("runProvider", "Provider", "opt"), F("debugProvider", "Provider", "opt"),
           F("inverseSourcesProvider", "bool", "opt"), F("dependencySourcesProvider", "bool", "opt"),
           F("dependencyModulesProvider", "bool", "opt"), F("resourcesProvider", "bool", "opt"),
           F("canReload", "bool", "opt"), F("buildTargetChangedProvider", "bool", "opt")>>
    [] ty = "Provider" -> <<F("languageIds", "[]str", "req")>>
    [] ty \in {"BuildTargetIdentifier", "TextDocumentIdentifier", "DebugSessionStartResult"} -> <<F("uri", "url", "req")>>
    [] ty = "BuildTargetCompile" -> RunFields
    [] ty \in {"BuildTargetTest", "BuildTargetRun"} -> RunFields \o DataPair
    [] ty \in {"BuildTargetCompileResult", "BuildTargetTestResult"} -> StatusFields \o DataPair
    [] ty = "BuildTargetRunResult" -> StatusFields
    [] ty \in {"BuildTargetCleanCache", "BuildTargetResources", "BuildTargetSources",
               "BuildTargetInverseSourcesResult", "BuildTargetDependencyModules"} -> Targets
    [] ty = "BuildTargetCleanCacheResult" -> <<F("message", "str", "opt"), F("cleaned", "bool", "req")>>
    [] ty = "BuildTargetResourcesResult" -> <<F("items", "[]Resources", "req")>>
    [] ty = "Resources" -> <<F("target", "BuildTargetIdentifier", "req"), F("resources", "[]str", "req")>>
    [] ty = "BuildTargetSourcesResult" -> <<F("items", "[]SourcesCollection", "req")>>
    [] ty = "SourcesCollection" -> <<F("target", "BuildTargetIdentifier", "req"), F("sources", "[]Sources", "req")>>
    [] ty = "Sources" -> <<F("uri", "url", "req"), F("kind", "enum2", "req"), F("generated", "bool", "req")>>
    [] ty \in {"TextDocumentInverseSources", "BuildTargetDependencySources"} -> Document
    [] ty = "BuildTargetDependencySourcesResult" -> <<F("items", "[]DependencySourcesItem", "req")>>
    [] ty = "DependencySourcesItem" -> <<F("target", "BuildTargetIdentifier", "req"), F("sources", "[]str", "req")>>
    [] ty = "BuildTargetDependencyModulesResult" -> <<F("items", "[]DependencyModulesItem", "req")>>
    [] ty = "DependencyModulesItem" -> <<F("target", "BuildTargetIdentifier", "req"), F("modules", "[]DependencyModule", "req")>>
    [] ty = "DependencyModule" -> <<F("name", "str", "req"), F("version", "str", "req")>> \o DataPair
    [] ty = "DebugSessionStart" ->
         <<F("targets", "[]BuildTargetIdentifier", "def"), F("dataKind", "str", "def"), F("data", "any", "opt")>>
    [] ty = "WorkspaceBuildTargetsResult" -> <<F("targets", "[]BuildTarget", "req")>>
    [] ty = "BuildTarget" ->
         <<F("id", "BuildTargetIdentifier", "req"), F("displayName", "str", "opt"), F("baseDirectory", "str", "opt"),
           F("tags", "[]tag", "req"), F("capabilities", "BuildTargetCapabilities", "req"),
           F("languageIds", "[]str", "req"), F("dependencies", "[]BuildTargetIdentifier", "req")>>
    [] ty = "BuildTargetCapabilities" ->
         <<F("canCompile", "bool", "req"), F("canTest", "bool", "req"), F("canRun", "bool", "req"), F("canDebug", "bool", "req")>>
    [] ty \in {"LogMessage", "ShowMessage"} ->
         <<F("type", "enum4", "req"), F("task", "TaskId", "opt"), F("originId", "str", "opt"), F("message", "str", "req")>>
    [] ty = "PublishDiagnostics" ->
         <<F("textDocument", "TextDocumentIdentifier", "req"), F("buildTarget", "BuildTargetIdentifier", "req"),
           F("originId", "str", "opt"), F("diagnostics", "[]Diagnostic", "req"), F("reset", "bool", "req")>>
    [] ty = "TaskStart" -> TaskFields
    [] ty = "TaskProgress" ->
         TaskFields \o <<F("total", "u32", "opt"), F("progress", "u32", "opt"), F("unit", "nstr", "dstr")>>
    [] ty = "TaskFinish" -> TaskFields \o <<F("status", "enum3", "def")>>
    [] ty = "TaskId" -> <<F("id", "str", "def"), F("parents", "[]str", "dvec")>>
    [] ty = "BuildTargetDidChange" -> <<F("changes", "[]BuildTargetEvent", "req")>>
    [] ty = "BuildTargetEvent" ->
         <<F("target", "BuildTargetIdentifier", "req"), F("kind", "enum3", "opt"), F("data", "any", "opt")>>
    [] ty = "Diagnostic" ->
         <<F("range", "Range", "req"), F("severity", "i32", "opt"), F("code", "nos", "opt"),
           F("codeDescription", "CodeDescription", "opt"), F("source", "str", "opt"), F("message", "str", "req"),
           F("relatedInformation", "[]RelatedInformation", "opt"), F("tags", "[]i32", "opt"), F("data", "any", "opt")>>
    [] ty = "Range" -> <<F("start", "Position", "req"), F("end", "Position", "req")>>
    [] ty = "Position" -> <<F("line", "u32", "req"), F("character", "u32", "req")>>
    [] ty = "CodeDescription" -> <<F("href", "url", "req")>>
    [] ty = "RelatedInformation" -> <<F("location", "Location", "req"), F("message", "str", "req")>>
    [] ty = "Location" -> <<F("uri", "url", "req"), F("range", "Range", "req")>>

\* Payloads which travel as the params of a request, of a notification, as a result.
RequestPayloads == {"InitializeBuild", "BuildTargetDependencyModules", "DebugSessionStart", "BuildTargetSources",
  "TextDocumentInverseSources", "BuildTargetDependencySources", "BuildTargetResources", "BuildTargetRun",
  "BuildTargetCompile", "BuildTargetTest", "BuildTargetCleanCache"}
NotificationPayloads == {"ShowMessage", "LogMessage", "PublishDiagnostics", "TaskStart", "TaskFinish",
  "TaskProgress", "BuildTargetDidChange"}
ResultPayloads == {"InitializeBuildResult", "WorkspaceBuildTargetsResult", "DebugSessionStartResult",
  "BuildTargetSourcesResult", "BuildTargetTestResult", "BuildTargetRunResult", "BuildTargetCompileResult",
  "BuildTargetResourcesResult", "BuildTargetDependencyModulesResult", "BuildTargetCleanCacheResult",
  "BuildTargetInverseSourcesResult", "BuildTargetDependencySourcesResult"}
Payloads == RequestPayloads \cup NotificationPayloads \cup ResultPayloads

(******************************** decoding *********************************)

IsArr(ty) == Len(ty) > 2 /\ SubSeq(ty, 1, 2) = "[]"
Elem(ty) == SubSeq(ty, 3, Len(ty))

Default(ty) == CASE ty = "TaskId" -> Obj(<<Mem("id", Str("")), Mem("parents", Str("$?A"))>>)
                 [] ty = "ClientCapabilities" -> Obj(<<Mem("languageIds", Arr(<<>>))>>)
                 [] ty = "enum3" -> Num("1")
                 [] ty = "str" -> Str("")
                 [] IsArr(ty) -> Arr(<<>>)

Good(t) == [ok |-> "ok", t |-> t]
Bad == [ok |-> "bad", t |-> Null]
AnyRes == [ok |-> "any", t |-> Null]
If(c, t) == IF c THEN Good(t) ELSE Bad

UrlOk(v) == IsTok(v) /\ TokClass(v) = "U"
EnumMax(ty) == CASE ty = "enum2" -> {"1", "2"} [] ty = "enum3" -> {"1", "2", "3"} [] ty = "enum4" -> {"1", "2", "3", "4"}

\* The worst of a set of verdicts: "bad" beats "any" beats "ok".
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "any" \in S THEN "any" ELSE "ok"

Unset(rule, ty) == CASE rule = "opt" -> Str("$?") [] rule = "dstr" -> Str("$?E")
                     [] rule = "dvec" -> Str("$?A") [] rule = "def" -> Default(ty)

RECURSIVE Decode(_, _)
DecodeField(f, t) ==
  IF ~Has(t, f.n) THEN (IF f.r = "req" THEN (IF f.ty = "any" THEN Good(Null) ELSE Bad) ELSE Good(Unset(f.r, f.ty)))
  ELSE LET x == Get(t, f.n) IN
       IF x.k = "null"
       THEN CASE f.r = "opt" -> Good(Unset("opt", f.ty))
              [] f.r = "req" -> Decode(f.ty, x)
              [] OTHER -> AnyRes
       ELSE IF f.r = "dstr" /\ x.k = "str" /\ IsTok(x.v) /\ TokClass(x.v) # "N" THEN AnyRes   \* may be ""
       ELSE IF f.r = "dstr" /\ x = Str("") THEN Good(Unset("dstr", f.ty))
       ELSE IF f.r = "dvec" /\ x.k = "arr" /\ x.e = <<>> THEN Good(Unset("dvec", f.ty))
       ELSE Decode(f.ty, x)

Decode(ty, t) ==
  CASE t.k = "raw" /\ ty # "any" /\ ~(ty = "[]str" /\ TokClass(t.v) \in {"L", "P"}) -> AnyRes   \* any JSON at all
    [] ty \in {"str", "nstr", "tag"} -> If(t.k = "str", t)
    [] ty = "url" -> If(t.k = "str" /\ UrlOk(t.v), t)
    [] ty = "bool" -> If(t.k = "bool", t)
    [] ty \in {"u32", "u64", "i32"} -> If(t.k = "num" /\ ty \in NumTypes(t.v), t)
    [] ty \in {"enum2", "enum3", "enum4"} -> If(t.k = "num" /\ t.v \in EnumMax(ty), t)
    [] ty = "any" -> Good(t)
    [] ty = "dk" -> IF t.k = "str" THEN Good(t) ELSE AnyRes
    [] ty = "nos" -> If(t.k = "str" \/ (t.k = "num" /\ "i32" \in NumTypes(t.v)), t)
    [] IsArr(ty) ->
         IF t.k = "arr"
         THEN LET rs == [i \in 1..Len(t.e) |-> Decode(Elem(ty), t.e[i])]
              IN [ok |-> Worst({rs[i].ok : i \in 1..Len(rs)}), t |-> Arr([i \in 1..Len(rs) |-> rs[i].t])]
         ELSE If(t.k = "raw", t)
    [] OTHER ->
         IF t.k = "arr" THEN AnyRes             \* a structure written as an array
         ELSE IF t.k # "obj" THEN Bad
         ELSE LET fs == Fields(ty)
                  rs == [i \in 1..Len(fs) |-> DecodeField(fs[i], t)]
              IN [ok |-> Worst({rs[i].ok : i \in 1..Len(fs)}),
                  t |-> Obj([i \in 1..Len(fs) |-> Mem(fs[i].n, rs[i].t)])]

\* What a receiver finds when a value marked as undetermined has been left out.
RECURSIVE Settle(_)
Settle(t) ==
  IF t.k = "obj" THEN LET ms == SelectSeq(t.m, LAMBDA x : ~(x.t.k = "str" /\ x.t.v \in {"$?", "$?E", "$?A"}))
                      IN Obj([i \in 1..Len(ms) |-> Mem(ms[i].n, Settle(ms[i].t))])
  ELSE IF t.k = "arr" THEN Arr([i \in 1..Len(t.e) |-> Settle(t.e[i])])
  ELSE t

(******************************* instances *********************************)

TagLits == <<"library", "application", "test", "integration-test", "benchmark", "no-ide", "manual">>
DkLits == <<"compile-task", "compile-report", "test-task", "test-report", "test-start", "test-finish">>

\* st.lit = 0: tokens; 1..7: the literal of that number where there are named ones.
\* st.opt: optional members present; st.lst: string arrays of arbitrary length
RECURSIVE Inst(_, _, _)
Inst(ty, p, st) ==
  CASE ty = "str" -> Str(Tok("S", p))
    [] ty = "nstr" -> Str(Tok("N", p))
    [] ty = "tag" -> IF st.lit = 0 THEN Str(Tok("S", p)) ELSE Str(TagLits[st.lit])
    [] ty = "dk" -> IF st.lit = 0 THEN Str(Tok("S", p)) ELSE Str(DkLits[IF st.lit > 6 THEN 6 ELSE st.lit])
    [] ty = "url" -> Str(Tok("U", p))
    [] ty = "bool" -> Bool(st.lit % 2 = 1)
    [] ty = "u32" -> Num(Tok("V", p))
    [] ty = "u64" -> Num(Tok("W", p))
    [] ty = "i32" -> Num(Tok("I", p))
    [] ty = "enum2" -> Num(IF st.lit % 2 = 0 THEN "1" ELSE "2")
    [] ty = "enum3" -> Num(<<"1", "2", "3">>[(st.lit % 3) + 1])
    [] ty = "enum4" -> Num(<<"1", "2", "3", "4">>[(st.lit % 4) + 1])
    [] ty = "nos" -> IF st.lit % 2 = 0 THEN Num(Tok("I", p)) ELSE Str(Tok("S", p))
    [] ty = "any" -> Raw(Tok("J", p))
    [] ty = "[]str" /\ st.lst -> Raw(Tok("L", p))
    [] IsArr(ty) -> IF st.opt THEN Arr(<<Inst(Elem(ty), p \o "1", st), Inst(Elem(ty), p \o "2", [st EXCEPT !.opt = FALSE])>>)
                    ELSE Arr(<<Inst(Elem(ty), p \o "1", st)>>)
    [] OTHER -> LET fs == SelectSeq(Fields(ty), LAMBDA f : f.r = "req" \/ st.opt)
                IN Obj([i \in 1..Len(fs) |-> 
                     LET q == p \o "." \o fs[i].n
                     IN Mem(fs[i].n, IF fs[i].r = "dvec" /\ st.lst THEN Raw(Tok("P", q)) ELSE Inst(fs[i].ty, q, st))])

Full == [opt |-> TRUE, lst |-> FALSE, lit |-> 0]
Min  == [opt |-> FALSE, lst |-> FALSE, lit |-> 0]
Styles == {[opt |-> o, lst |-> l, lit |-> k] : o, l \in BOOLEAN, k \in 0..7}

Optional(ty) == {Fields(ty)[i].n : i \in {j \in 1..Len(Fields(ty)) : Fields(ty)[j].r # "req"}}
\* The full instance without the members named in S.
Lacking(t, S) == Obj(SelectSeq(t.m, LAMBDA x : x.n \notin S))
=============================================================================
