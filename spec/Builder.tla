-------------------------------- MODULE Builder --------------------------------
(****************************************************************************)
(* A payload under construction: a record of its fields, changed by setters, *)
(* by assignments through mutable references and to public fields, and by    *)
(* appending to lists.  Every operation changes its own field and no other.  *)
(* Every reachable record is exported with the operations which lead to it.  *)
(****************************************************************************)
EXTENDS Payload, TLC

CONSTANTS Types, MaxOps

VARIABLES ty, ctor,  \* the constructor's name
          args,      \* and arguments: a set of <<field, tree>>
          ops,       \* operations so far: sequence of [o, f, t]
          rec        \* the record: field name -> tree (Null: not set)
vars == <<ty, ctor, args, ops, rec>>

Lists == {"targets", "items", "sources", "resources", "modules"}
Setters(t) ==
  CASE t \in {"BuildTargetCleanCache", "BuildTargetSources", "BuildTargetResources", "BuildTargetDependencyModules"} -> {"targets"}
    [] t = "BuildTargetCleanCacheResult" -> {"message", "cleaned"}
    [] t = "InitializeBuildResult" -> {"displayName", "version", "bspVersion", "capabilities", "data"}
    [] t = "InitializeBuild" -> {"displayName", "version", "bspVersion", "rootUri", "capabilities", "data"}
    [] t = "BuildTargetSourcesResult" -> {"items"}
    [] t = "SourcesCollection" -> {"target", "sources"}
    [] t = "Sources" -> {"uri", "kind", "generated"}
    [] t = "BuildTargetCapabilities" -> {"canCompile", "canTest", "canRun", "canDebug"}
    [] t = "Resources" -> {"target", "resources"}
    [] t = "DebugSessionStart" -> {"targets", "dataKind", "data"}
    [] t = "BuildTargetIdentifier" -> {"uri"}
    [] t = "BuildTargetCompile" -> {"target", "originId", "arguments"}
    [] t \in {"BuildTargetTest", "BuildTargetRun"} -> {"target", "originId", "arguments", "dataKind", "data"}
    [] t \in {"BuildTargetCompileResult", "BuildTargetTestResult"} -> {"originId", "statusCode", "dataKind", "data"}
    [] t = "BuildTargetRunResult" -> {"originId", "statusCode"}
    [] t = "DependencyModulesItem" -> {"modules"}
    [] t = "DependencyModule" -> {"name", "version", "dataKind"}
    [] t = "ServerCapabilities" -> {Fields(t)[i].n : i \in 1..Len(Fields(t))}
    [] t = "ClientCapabilities" -> {"languageIds"}
    [] t \in {"TextDocumentInverseSources", "BuildTargetDependencySources"} -> {"textDocument"}
    [] t = "DependencySourcesItem" -> {"target", "sources"}
    [] OTHER -> {}
Mutables(t) ==
  CASE t \in {"BuildTargetCleanCache", "BuildTargetResources", "BuildTargetDependencyModules"} -> {"targets"}
    [] t \in {"BuildTargetResourcesResult", "BuildTargetDependencyModulesResult"} -> {"items"}
    [] t = "InitializeBuildResult" -> {"data"}
    [] t = "ClientCapabilities" -> {"languageIds"}
    [] OTHER -> {}
Publics(t) ==
  IF t \in {"TaskStart", "TaskProgress", "TaskFinish", "LogMessage", "ShowMessage", "BuildTarget", "BuildTargetEvent",
            "BuildTargetDidChange", "WorkspaceBuildTargetsResult"}
  THEN {Fields(t)[i].n : i \in 1..Len(Fields(t))} ELSE {}

\* Constructors: name -> the fields they are given.
AllOf(t) == {Fields(t)[i].n : i \in 1..Len(Fields(t))}
ReqOf(t) == {Fields(t)[i].n : i \in {j \in 1..Len(Fields(t)) : Fields(t)[j].r = "req"}}
WithNew == {"BuildTargetCleanCacheResult", "InitializeBuildResult", "InitializeBuild", "BuildTargetSources", "BuildTargetSourcesResult",
  "SourcesCollection", "Sources", "TaskId", "BuildTargetCapabilities", "BuildTargetResources", "BuildTargetResourcesResult", "Resources",
  "DebugSessionStart", "DebugSessionStartResult", "BuildTargetIdentifier", "BuildTargetCompile", "BuildTargetCompileResult",
  "BuildTargetTest", "BuildTargetTestResult", "BuildTargetRun", "BuildTargetRunResult", "BuildTargetDependencyModulesResult",
  "DependencyModulesItem", "DependencyModule", "BuildTargetEvent", "BuildTarget", "WorkspaceBuildTargetsResult", "LogMessage", "ShowMessage",
  "TextDocumentInverseSources", "BuildTargetDependencySources", "ClientCapabilities"}
WithSimple == {"BuildTargetCleanCacheResult", "InitializeBuildResult", "InitializeBuild", "BuildTargetCompile", "BuildTargetCompileResult",
  "BuildTargetTest", "BuildTargetTestResult", "BuildTargetRun", "DependencyModule", "BuildTargetEvent", "BuildTarget"}
Ctors(t) ==
  {<<"decode", AllOf(t)>>}
  \cup (IF t \in WithNew THEN {<<"new", AllOf(t)>>} ELSE {})
  \cup (IF t \in WithSimple
        THEN {<<"new_simple", IF t = "InitializeBuild" THEN AllOf(t) \ {"data"} ELSE ReqOf(t)>>} ELSE {})
  \cup (IF t \in {"LogMessage", "ShowMessage"} THEN {<<c, AllOf(t) \ {"type"}>> : c \in {"info", "log", "warn", "error"}} ELSE {})
  \cup (IF t \in {"TaskStart", "TaskFinish"} THEN {<<"new", {"taskId"}>>} ELSE {})
  \cup (IF t \in {"TaskStart", "TaskFinish", "TaskProgress", "ServerCapabilities"} THEN {<<"default", {}>>} ELSE {})
  \cup (IF t = "TaskId" THEN {<<c, {"id"}>> : c \in {"from_string", "from_str"}} ELSE {})
  \cup (IF t = "WorkspaceBuildTargetsResult" THEN {<<"from", {"targets"}>>} ELSE {})
MessageTypes == [error |-> "1", warn |-> "2", info |-> "3", log |-> "4"]

FieldOf(t, n) == Fields(t)[CHOOSE i \in 1..Len(Fields(t)) : Fields(t)[i].n = n]
\* Free-form data may be given as null, which is not the same as not given; it is written as null or not at all.
GivenNull == Str("$Z")
NullGiven(t, n) == n = "data" /\ t \in {"InitializeBuild", "InitializeBuildResult", "BuildTargetTest", "BuildTargetRun", "BuildTargetCompileResult", "BuildTargetTestResult"}
\* The values a field is given: two distinct ones, the empty one, none.
Style(v) == IF v = 1 THEN Full ELSE [opt |-> FALSE, lst |-> FALSE, lit |-> 3]
Val(t, n, v) == LET f == FieldOf(t, n) IN
  IF v = 0 THEN Null
  ELSE IF v = 4 THEN GivenNull
  ELSE IF v = 3 THEN (IF IsArr(f.ty) THEN Arr(<<>>) ELSE IF f.ty \in {"u32", "u64"} THEN Num("0") ELSE IF f.ty = "any" THEN Arr(<<>>) ELSE Str(""))
  ELSE Inst(f.ty, n \o (IF v = 1 THEN "1" ELSE "2"), Style(v))
Values(t, n) == LET f == FieldOf(t, n) IN
  {1, 2} \cup (IF f.r = "opt" THEN {0} ELSE {})
  \cup (IF IsArr(f.ty) \/ f.ty \in {"str", "nstr", "u32", "u64", "any"} THEN {3} ELSE {})
  \cup (IF NullGiven(t, n) THEN {4} ELSE {})

\* Arguments: all the first values, all the second, or one which differs.
ArgSets(t, c) ==
  LET ns == c[2] pick(S) == {<<n, Val(t, n, IF n \in S THEN 2 ELSE 1)>> : n \in ns}
      none == {<<n, IF FieldOf(t, n).r = "opt" /\ ~(c[1] = "new" /\ n = "data" /\ t \in {"InitializeBuild", "InitializeBuildResult"})
                    THEN Null ELSE Val(t, n, 2)>> : n \in ns}
      single == {<<n, Arr(<<Inst("BuildTarget", n, Full)>>)>> : n \in ns}
  IN IF c[1] = "from" THEN {single}
     ELSE {pick(S) : S \in {{}, ns} \cup {{n} : n \in ns}} \cup {none}

Start(t, c, as) ==
  [n \in AllOf(t) |->
     IF n = "type" /\ c[1] \in DOMAIN MessageTypes THEN Num(MessageTypes[c[1]])
     ELSE IF \E a \in as : a[1] = n THEN (CHOOSE a \in as : a[1] = n)[2]
     ELSE Null]

Init == /\ ty \in Types
        /\ \E c \in Ctors(ty) : ctor = c[1] /\ args \in ArgSets(ty, c) /\ rec = Start(ty, c, args)
        /\ ops = <<>>

Set(o, f, v) ==
  /\ ops' = Append(ops, [o |-> o, f |-> f, t |-> Val(ty, f, v)])
  /\ rec' = [rec EXCEPT ![f] = Val(ty, f, v)]
Push(o, f) ==
  LET x == Inst(Elem(FieldOf(ty, f).ty), f \o "3", Full)
      old == IF rec[f].k = "arr" THEN rec[f].e ELSE <<>>
  IN /\ ops' = Append(ops, [o |-> o, f |-> f, t |-> x])
     /\ rec' = [rec EXCEPT ![f] = Arr(Append(old, x))]
\* Longer histories only from a constructor's plainest arguments.
Plainest == \A a \in args : a[2] = Val(ty, a[1], 1)
Next ==
  /\ Len(ops) < (IF Plainest THEN MaxOps ELSE 1)
  /\ \/ \E f \in Setters(ty) : \E v \in Values(ty, f) : Set("set", f, v)
     \/ \E f \in Mutables(ty) : \E v \in Values(ty, f) : Set("mut", f, v)
     \/ \E f \in Publics(ty) : \E v \in Values(ty, f) : Set("pub", f, v)
     \/ \E f \in Mutables(ty) : IsArr(FieldOf(ty, f).ty) /\ Push("push", f)
     \/ ty = "TaskId" /\ Push("add", "parents")
  /\ UNCHANGED <<ty, ctor, args>>
Spec == Init /\ [][Next]_vars

\* The document the record must be encoded as, with unset members marked.
Written == Obj([i \in 1..Len(Fields(ty)) |->
             LET f == Fields(ty)[i] IN
             Mem(f.n, IF rec[f.n].k = "null" \/ rec[f.n] = GivenNull THEN Unset(f.r, f.ty)
                      ELSE DecodeField(f, Obj(<<Mem(f.n, rec[f.n])>>)).t)])

\* Only the last operation's field has changed.
Frame == ops # <<>> => LET l == ops[Len(ops)] IN rec[l.f] = l.t \/ l.o \in {"push", "add"}
Local == \A f \in AllOf(ty) : (ops' # ops /\ ops'[Len(ops')].f # f) => rec'[f] = rec[f]
OthersStay == [][Local]_vars
\* What is built is a payload: the other end accepts it as what it is.
Acceptable == LET d == Decode(ty, Settle(Written)) IN d.ok = "ok" => Settle(d.t) = Settle(Written)
Inv == Frame /\ Acceptable

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<Mem(a[1], a[2])>> \o SeqOf(S \ {a})
ArgText == Obj(SeqOf(args))
RECURSIVE OpsOf(_)
OpsOf(i) == [j \in 1..i |-> Obj(<<Mem("o", Str(ops[j].o)), Mem("f", Str(ops[j].f)), Mem("t", ops[j].t)>>)]
Emit == PrintT("@@" \o ty \o "\t" \o ctor \o "\t" \o Text(ArgText) \o "\t" \o Text(Arr(OpsOf(Len(ops)))) \o "\t" \o Text(Written) \o "\t" \o (IF \E f \in AllOf(ty) : rec[f] = GivenNull THEN "null" ELSE "-"))
AllTypes == {t \in WithNew \cup {"BuildTargetCleanCache", "BuildTargetDependencyModules", "TaskStart", "TaskFinish", "TaskProgress",
  "ServerCapabilities", "DependencySourcesItem", "BuildTargetDidChange"} : TRUE}
=============================================================================
