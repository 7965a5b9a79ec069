---------------------------------- MODULE Api ----------------------------------
(****************************************************************************)
(* The ways an application builds messages, and what each must put on the    *)
(* wire: a constructor is applied to arguments, the message is sent, and     *)
(* received by the other end as the same message.                            *)
(****************************************************************************)
EXTENDS Wire, TLC

VARIABLES ctor, var, st, stage
vars == <<ctor, var, st, stage>>

NoParams == {"Shutdown", "WorkspaceBuildTargets", "WorkspaceReload"}
ErrorNames == {ErrorCodes[i][1] : i \in 1..Len(ErrorCodes)}
Constructors ==
  {<<c, v>> : c \in {"request.variant", "request.from", "message.from.request"}, v \in RequestPayloads \cup {"Custom"}}
  \cup {<<"request.variant", v>> : v \in NoParams}
  \cup {<<c, v>> : c \in {"notification.variant", "notification.from", "message.from.notification"}, v \in NotificationPayloads \cup {"Custom"}}
  \cup {<<c, v>> : c \in {"notification.variant", "notification.named"}, v \in {"Exit", "Initialized"}}
  \cup {<<c, v>> : c \in {"response.ok", "message.from.result"}, v \in ResultPayloads \cup {"value", "null", "string"}}
  \cup {<<"response.ok", v>> : v \in {"unit", "none", "false", "zero", "empty", "list"}}
  \cup {<<"response.err", "error">>, <<"response.fields", "error">>, <<"response.fields", "empty">>, <<"response.fields", "value">>}
  \cup {<<"response.named", v>> : v \in ErrorNames}

CodeOf(v) == ErrorCodes[CHOOSE i \in 1..Len(ErrorCodes) : ErrorCodes[i][1] = v][2]
ErrorMessage == Str(Tok("S", "m"))
IsRequest == ctor \in {"request.variant", "request.from", "message.from.request"}
IsNotification == ctor \in {"notification.variant", "notification.from", "message.from.notification", "notification.named"}

ResultOf(v) == CASE v = "value" -> Raw(Tok("J", "r"))
                 [] v = "string" -> Str(Tok("S", "r"))
                 [] v \in {"null", "unit", "none"} -> Null
                 [] v = "false" -> Bool(FALSE)
                 [] v = "zero" -> Num("0")
                 [] v = "empty" -> Str("")
                 [] v = "list" -> Arr(<<>>)
                 [] OTHER -> Inst(v, "r", st)

\* The document the message must be on the wire.
Built ==
  IF IsRequest THEN RequestOf(var, st)
  ELSE IF IsNotification THEN NotificationOf(var, st)
  ELSE IF ctor \in {"response.ok", "message.from.result"} \/ var = "value"
       THEN Message(<<Mem("id", Id), Mem("result", ResultOf(var))>>)
  ELSE IF var = "error" THEN ResponseOf("error", [st EXCEPT !.opt = @ /\ ctor = "response.fields"])
  ELSE IF ctor = "response.named"
       THEN Message(<<Mem("id", Id), Mem("error", Obj(<<Mem("code", Num(CodeOf(var))), Mem("message", ErrorMessage)>>))>>)
  ELSE Message(<<Mem("id", Id)>>)

\* The arguments the constructor is applied to.
OrNull(t, n) == IF t.k = "obj" /\ Has(t, n) THEN Get(t, n) ELSE Null
Args ==
  LET b == Built err == OrNull(b, "error") IN
  Obj(<<Mem("id", OrNull(b, "id")), Mem("method", OrNull(b, "method")),
        Mem("arg", IF Has(b, "result") THEN Get(b, "result") ELSE OrNull(b, "params")),
        Mem("code", OrNull(err, "code")), Mem("message", OrNull(err, "message")), Mem("data", OrNull(err, "data"))>>)

V == Classify(Built)
Init == \E c \in Constructors : ctor = c[1] /\ var = c[2] /\ st \in Styles /\ stage = "build"
Build == stage = "build" /\ stage' = "sent" /\ UNCHANGED <<ctor, var, st>>
Receive == stage = "sent" /\ stage' = (IF V.ok = "ok" THEN "received" ELSE "lost") /\ UNCHANGED <<ctor, var, st>>
Next == Build \/ Receive
Spec == Init /\ [][Next]_vars

\* Whatever can be built arrives, as the kind and type it was built as.
Arrives == stage # "lost"
AsBuilt == stage = "received" =>
  /\ V.kind = (IF IsRequest THEN "request" ELSE IF IsNotification THEN "notification" ELSE "response")
  /\ (IsRequest \/ IsNotification) => V.var = var
  /\ ctor = "response.named" => Get(Get(V.out, "error"), "code") = Num(CodeOf(var))
  /\ ctor \in {"response.ok", "message.from.result"} => V.var = "result" /\ ~Has(Settle(V.out), "error")
\* No two named errors share a code.
CodesDistinct == \A i, j \in 1..Len(ErrorCodes) : i # j => ErrorCodes[i][2] # ErrorCodes[j][2]
Inv == Arrives /\ AsBuilt /\ CodesDistinct

\* A result which was built from a payload shows as that payload does: members
\* which are not set may be null.
Shown(v) == IF ctor \in {"response.ok", "message.from.result"} /\ var \in ResultPayloads
            THEN Obj([i \in 1..Len(v.out.m) |-> IF v.out.m[i].n = "result" THEN Mem("result", Decode(var, ResultOf(var)).t) ELSE v.out.m[i]])
            ELSE v.out
Line(v) == "@@" \o ctor \o "/" \o var \o "\t" \o v.ok \o "\t" \o v.kind \o "\t" \o v.var \o "\t" \o Text(v.id)
           \o "\t" \o Text(v.method) \o "\t" \o Text(v.params) \o "\t" \o Text(Args) \o "\t" \o Text(Shown(v))
Emit == stage = "received" => PrintT(Line(V))
=============================================================================
