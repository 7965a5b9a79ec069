--------------------------------- MODULE Wire ---------------------------------
(****************************************************************************)
(* JSON-RPC messages of the protocol: which documents are messages, of which *)
(* kind, what their accessors report, and how they are written.              *)
(* Classify(doc) is [ok, kind, var, id, method, params, out]:                *)
(*   ok      "ok", "bad" (to be rejected), or "any": rejected, or received   *)
(*           as this kind of message, this type, and under this id           *)
(*   kind    "request" / "notification" / "response"                         *)
(*   var     the message type: the payload's name, "Custom", "Shutdown", ... *)
(*   out     the document which sending the message on must produce          *)
(****************************************************************************)
EXTENDS Payload

RequestMethods == <<
  <<"build/initialize", "InitializeBuild">>, <<"build/shutdown", "Shutdown">>,
  <<"workspace/buildTargets", "WorkspaceBuildTargets">>, <<"workspace/reload", "WorkspaceReload">>,
  <<"buildTarget/dependencyModules", "BuildTargetDependencyModules">>, <<"debugSession/start", "DebugSessionStart">>,
  <<"buildTarget/sources", "BuildTargetSources">>, <<"buildTarget/inverseSources", "TextDocumentInverseSources">>,
  <<"buildTarget/dependencySources", "BuildTargetDependencySources">>, <<"buildTarget/resources", "BuildTargetResources">>,
  <<"buildTarget/run", "BuildTargetRun">>, <<"buildTarget/compile", "BuildTargetCompile">>,
  <<"buildTarget/test", "BuildTargetTest">>, <<"buildTarget/cleanCache", "BuildTargetCleanCache">> >>
NotificationMethods == <<
  <<"build/exit", "Exit">>, <<"build/initialized", "Initialized">>, <<"build/showMessage", "ShowMessage">>,
  <<"build/logMessage", "LogMessage">>, <<"build/publishDiagnostics", "PublishDiagnostics">>,
  <<"build/taskStart", "TaskStart">>, <<"build/taskFinish", "TaskFinish">>, <<"build/taskProgress", "TaskProgress">>,
  <<"buildTarget/didChange", "BuildTargetDidChange">> >>

Lookup(table, m) == IF \E i \in 1..Len(table) : table[i][1] = m
                    THEN table[CHOOSE i \in 1..Len(table) : table[i][1] = m][2] ELSE "Custom"
MethodOf(table, v) == table[CHOOSE i \in 1..Len(table) : table[i][2] = v][1]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

\* A name is one type's in each direction, and each type has one name.
TablesBijective ==
  /\ \A i, j \in 1..Len(RequestMethods) : i # j => RequestMethods[i][1] # RequestMethods[j][1] /\ RequestMethods[i][2] # RequestMethods[j][2]
  /\ \A i, j \in 1..Len(NotificationMethods) : i # j => NotificationMethods[i][1] # NotificationMethods[j][1] /\ NotificationMethods[i][2] # NotificationMethods[j][2]
ASSUME TablesBijective

ErrorCodes == <<
  <<"parse_error", "-32700">>, <<"invalid_request", "-32600">>, <<"method_not_found", "-32601">>,
  <<"invalid_params", "-32602">>, <<"internal_error", "-32603">>, <<"server_error_start", "-32099">>,
  <<"server_error_end", "-32000">>, <<"server_not_initialized", "-32002">>, <<"request_canceled", "-32800">>,
  <<"content_modified", "-32801">>, <<"server_canceled", "-32802">> >>

IdOk(t) == \/ t.k = "str" \/ (t.k = "num" /\ "i32" \in NumTypes(t.v)) \/ (t.k = "raw" /\ TokClass(t.v) = "K")

Verdict(ok, kind, var, id, method, params, out) ==
  [ok |-> ok, kind |-> kind, var |-> var, id |-> id, method |-> method, params |-> params, out |-> out]
No(ok) == Verdict(ok, "", "", Null, Null, Null, Null)

Absent == Str("$?")
ParamsOf(t) == IF Has(t, "params") THEN Get(t, "params") ELSE Null
NullAsAbsent(t) == IF t.k = "null" THEN Absent ELSE t

Parameterless == {"Shutdown", "WorkspaceBuildTargets", "WorkspaceReload", "Exit", "Initialized"}
\* The verdict on params for message type v: [ok, t (on the wire)]
Params(v, t) ==
  CASE v \in Parameterless -> Good(Absent)      \* whatever is written
    [] v = "Custom" -> Good(NullAsAbsent(ParamsOf(t)))
    [] OTHER -> IF Has(t, "params") THEN Decode(v, Get(t, "params")) ELSE Bad

ClassifyCall(t) ==
  LET isReq == Has(t, "id")
      id == IF isReq THEN Get(t, "id") ELSE Null
      method == Get(t, "method")
  IN IF method.k # "str" \/ (isReq /\ ~IdOk(id)) THEN No("bad")
     ELSE LET v == Lookup(IF isReq THEN RequestMethods ELSE NotificationMethods, method.v)
              p == Params(v, t)
              rest == <<Mem("method", method), Mem("params", p.t)>>
          IN IF p.ok = "bad" THEN No("bad")
             ELSE Verdict(p.ok, IF isReq THEN "request" ELSE "notification", v, id, method, p.t,
                          Obj(IF isReq THEN <<Mem("id", id)>> \o rest ELSE rest))

ErrorFields == <<F("code", "i32", "req"), F("message", "str", "req"), F("data", "any", "opt")>>
DecodeError(t) ==
  IF t.k \in {"arr", "raw"} THEN AnyRes
  ELSE IF t.k # "obj" THEN Bad
  ELSE LET rs == [i \in 1..3 |-> DecodeField(ErrorFields[i], t)]
       IN [ok |-> Worst({rs[i].ok : i \in 1..3}),
           t |-> Obj([i \in 1..3 |-> Mem(ErrorFields[i].n, rs[i].t)])]

ClassifyResponse(t) ==
  LET id == IF Has(t, "id") THEN Get(t, "id") ELSE Null
      hasRes == Has(t, "result")
      hasErr == Has(t, "error") /\ Get(t, "error").k # "null"
      err == DecodeError(Get(t, "error"))
      res == IF hasRes THEN <<Mem("result", Get(t, "result"))>> ELSE <<>>
  IN IF ~IdOk(id) THEN No("bad")
     ELSE IF hasErr /\ err.ok = "bad" THEN No("bad")
     ELSE IF hasErr /\ (hasRes \/ err.ok = "any") THEN Verdict("any", "response", "error", id, Null, Null, Null)
     ELSE IF hasErr THEN Verdict("ok", "response", "error", id, Null, Null, Obj(<<Mem("id", id), Mem("error", err.t)>>))
     ELSE Verdict("ok", "response", IF hasRes THEN "result" ELSE "empty", id, Null, Null,
                  Obj(<<Mem("id", id)>> \o res \o <<Mem("error", Absent)>>))

Classify(t) ==
  IF t.k # "obj" THEN No("bad")
  ELSE IF Has(t, "method") THEN ClassifyCall(t)
  ELSE ClassifyResponse(t)

(****************************** messages ***********************************)

Version == Mem("jsonrpc", Str("2.0"))
Id == Raw(Tok("K", "id"))
Message(ms) == Obj(<<Version>> \o ms)
\* The params a message of type v is written with: none, a payload, any JSON.
ParamsFor(v, st) ==
  CASE v \in Parameterless -> <<>>
    [] v = "Custom" -> IF st.opt THEN <<Mem("params", Raw(Tok("J", "p")))>> ELSE <<>>
    [] OTHER -> <<Mem("params", Inst(v, "p", st))>>
RequestOf(v, st) == Message(<<Mem("id", Id), Mem("method", Str(IF v = "Custom" THEN Tok("M", "m") ELSE MethodOf(RequestMethods, v)))>> \o ParamsFor(v, st))
NotificationOf(v, st) == Message(<<Mem("method", Str(IF v = "Custom" THEN Tok("M", "m") ELSE MethodOf(NotificationMethods, v)))>> \o ParamsFor(v, st))
ResponseOf(v, st) ==
  Message(<<Mem("id", Id)>> \o
    (CASE v = "value" -> <<Mem("result", Raw(Tok("J", "r")))>>
       [] v = "null" -> <<Mem("result", Null)>>
       [] v = "empty" -> <<>>
       [] v = "error" -> <<Mem("error", Obj(<<Mem("code", Num(Tok("I", "c"))), Mem("message", Str(Tok("S", "m")))>>
                             \o IF st.opt THEN <<Mem("data", Raw(Tok("J", "d")))>> ELSE <<>>))>>
       [] OTHER -> <<Mem("result", Inst(v, "r", st))>>))

RequestVars == {RequestMethods[i][2] : i \in 1..Len(RequestMethods)} \cup {"Custom"}
NotificationVars == {NotificationMethods[i][2] : i \in 1..Len(NotificationMethods)} \cup {"Custom"}
ResponseVars == {"value", "null", "empty", "error"} \cup ResultPayloads
MessageOf(kind, v, st) == CASE kind = "request" -> RequestOf(v, st)
                            [] kind = "notification" -> NotificationOf(v, st)
                            [] kind = "response" -> ResponseOf(v, st)
=============================================================================
