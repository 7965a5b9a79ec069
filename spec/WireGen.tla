-------------------------------- MODULE WireGen --------------------------------
(****************************************************************************)
(* A message between two endpoints: written (a legal message, its members in *)
(* some order, changed at up to MaxEdits places), received as one kind or    *)
(* rejected, sent on, received again.                                        *)
(****************************************************************************)
EXTENDS Wire, TLC

CONSTANTS Kinds,     \* kinds of message to write
          Vars,      \* message types to write (those the kind has)
          MaxEdits,
          Depth,     \* changes are made at sites up to this depth
          Orders     \* TRUE: also every order of the members

\* A message may also be given another method of the protocol.
AllMethods == {RequestMethods[i][1] : i \in 1..Len(RequestMethods)} \cup {NotificationMethods[i][1] : i \in 1..Len(NotificationMethods)}

\* Names which are nearly a protocol name, and so are not.
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Char(s, i) == SubSeq(s, i, i)
InStr(c, s) == \E i \in 1..Len(s) : Char(s, i) = c
Index(c, s) == CHOOSE i \in 1..Len(s) : Char(s, i) = c
LowerC(c) == IF InStr(c, Upper) THEN Char(Lower, Index(c, Upper)) ELSE c
UpperC(c) == IF InStr(c, Lower) THEN Char(Upper, Index(c, Lower)) ELSE c
RECURSIVE MapStr(_, _, _)
MapStr(f(_), s, i) == IF i > Len(s) THEN "" ELSE f(Char(s, i)) \o MapStr(f, s, i + 1)
Slash(s) == Index("/", s)
Before(s) == SubSeq(s, 1, Slash(s) - 1)
After(s) == SubSeq(s, Slash(s) + 1, Len(s))
Capital(s) == UpperC(Char(s, 1)) \o SubSeq(s, 2, Len(s))
Small(s) == LowerC(Char(s, 1)) \o SubSeq(s, 2, Len(s))
NearMisses(m) == {
  m \o "/", m \o "s", m \o " ", m \o "\\n", m \o "\\u0000", m \o "/x", m \o "?", m \o "()",
  " " \o m, "/" \o m, "$/" \o m, "\\ufeff" \o m, "x" \o m, "bsp/" \o m,
  SubSeq(m, 1, Len(m) - 1), SubSeq(m, 2, Len(m)), Before(m), After(m), Before(m) \o "/", "/" \o After(m),
  Before(m) \o "." \o After(m), Before(m) \o "//" \o After(m), Before(m) \o "\\\\" \o After(m), Before(m) \o ":" \o After(m),
  Before(m) \o " / " \o After(m), Before(m) \o "%2F" \o After(m), Before(m) \o After(m), Before(m) \o "_" \o After(m),
  MapStr(LowerC, m, 1) \o (IF MapStr(LowerC, m, 1) = m THEN "x" ELSE ""), MapStr(UpperC, m, 1), Capital(m),
  Before(m) \o "/" \o Capital(After(m)), Capital(Before(m)) \o "/" \o After(m),
  MapStr(LAMBDA c : IF InStr(c, Upper) THEN "_" \o LowerC(c) ELSE c, m, 1) \o (IF \E i \in 1..Len(m) : InStr(Char(m, i), Upper) THEN "" ELSE "_"),
  IF Before(m) = "build" THEN "buildTarget/" \o After(m) ELSE "build/" \o After(m),
  "workspace/" \o After(m) \o "s" } \ AllMethods
AllNames == AllMethods \cup UNION {NearMisses(m) : m \in AllMethods}

VARIABLES kind, var, st, ord, edits, stage
vars == <<kind, var, st, ord, edits, stage>>

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Base == LET t == MessageOf(kind, var, st)
        IN IF ord = <<>> THEN t ELSE Obj([i \in 1..Len(t.m) |-> t.m[ord[i]]])

\* Members which may be added to the message itself.
Adds == [
  a1 |-> Mem("id", Raw(Tok("K", "id2"))), a2 |-> Mem("id", Null), a3 |-> Mem("id", Num("2147483648")), a4 |-> Mem("id", Num("1.5")),
  a5 |-> Mem("method", Str(Tok("M", "m2"))), a6 |-> Mem("method", Null), a7 |-> Mem("method", Num("5")),
  a8 |-> Mem("method", Str("build/shutdown")), a9 |-> Mem("method", Str("build/exit")), aA |-> Mem("method", Str("buildTarget/run")),
  aB |-> Mem("params", Raw(Tok("J", "p2"))), aC |-> Mem("params", Null), aD |-> Mem("params", Obj(<<>>)),
  aE |-> Mem("result", Raw(Tok("J", "r2"))), aF |-> Mem("result", Null), aG |-> Mem("error", Null),
  aH |-> Mem("error", Obj(<<Mem("code", Num("1")), Mem("message", Str("x"))>>)), aI |-> Mem("error", Str("x")),
  aJ |-> Mem("data", Raw(Tok("J", "d2")))]
AllVars == RequestVars \cup NotificationVars \cup ResponseVars
Fits(t, a) == ~Has(t, Adds[a].n)

RECURSIVE Edited(_, _)
Edited(t, i) == IF i > Len(edits) THEN t
                ELSE IF edits[i].op \in AllNames
                THEN Edited(Obj([j \in 1..Len(t.m) |-> IF t.m[j].n = "method" THEN Mem("method", Str(edits[i].op)) ELSE t.m[j]]), i + 1)
                ELSE IF edits[i].op \in DOMAIN Adds THEN Edited(Obj(t.m \o <<Adds[edits[i].op]>>), i + 1)
                ELSE Edited(Apply(t, edits[i].p, edits[i].op), i + 1)
Doc == Edited(Base, 1)
V == Classify(Doc)

VarsOf(k) == CASE k = "request" -> RequestVars [] k = "notification" -> NotificationVars [] k = "response" -> ResponseVars

Init == /\ kind \in Kinds /\ var \in Vars \cap VarsOf(kind)
        /\ edits = <<>> /\ stage = "write"
        /\ \/ st \in Styles /\ ord = <<>>
           \/ Orders /\ st = Full /\ ord \in Perms(Len(MessageOf(kind, var, Full).m))

Edit == /\ stage = "write" /\ ord = <<>> /\ st \in {Full, Min} /\ Len(edits) < MaxEdits
        /\ LET d == Doc IN
           \/ \E p \in {q \in Sites(d) : Len(q) <= Depth \/ var = "error"} : \E op \in Ops(At(d, p)) :
                edits' = Append(edits, [p |-> p, op |-> op])
           \/ d.k = "obj" /\ Has(d, "method") /\ \E m \in AllMethods : edits' = Append(edits, [p |-> <<>>, op |-> m])
           \/ d.k = "obj" /\ Has(d, "method") /\ edits = <<>> /\ ~IsTok(Get(d, "method").v)
              /\ \E m \in NearMisses(Get(d, "method").v) : edits' = Append(edits, [p |-> <<>>, op |-> m])
           \/ d.k = "obj" /\ \E a \in {x \in DOMAIN Adds : Fits(d, x)} : edits' = Append(edits, [p |-> <<>>, op |-> a])
        /\ UNCHANGED <<kind, var, st, ord, stage>>

Send == stage = "write" /\ stage' = "text" /\ UNCHANGED <<kind, var, st, ord, edits>>
Receive == /\ stage = "text"
           /\ stage' = (LET ok == V.ok IN IF ok = "ok" THEN "value" ELSE ok)
           /\ UNCHANGED <<kind, var, st, ord, edits>>
Forward == /\ stage = "value"
           /\ stage' = (IF Classify(Obj(<<Version>> \o Settle(V.out).m)) = V THEN "revalue" ELSE "lost")
           /\ UNCHANGED <<kind, var, st, ord, edits>>
Next == Edit \/ Send \/ Receive \/ Forward
Spec == Init /\ [][Next]_vars

\* C12: forwarding changes nothing.
RoundTrip == stage # "lost"
\* C10: kinds are never confused, whatever else a message carries.
KindByMembers == stage = "value" =>
  /\ Has(Doc, "method") /\ Has(Doc, "id") <=> V.kind = "request"
  /\ Has(Doc, "method") /\ ~Has(Doc, "id") <=> V.kind = "notification"
  /\ ~Has(Doc, "method") <=> V.kind = "response"
\* C14: the id received is the id written, and is a valid one.
IdKept == stage = "value" => IF V.kind = "notification" THEN V.id = Null ELSE V.id = Get(Doc, "id") /\ IdOk(V.id)
\* C11: a name outside the protocol is custom, kept with its params.
CustomKept == stage = "value" /\ V.var = "Custom" => V.method = Get(Doc, "method") /\ V.params = NullAsAbsent(ParamsOf(Doc))
\* Whatever is written without changes is received as what it is.
LegalAccepted == edits = <<>> /\ stage = "value" => V.kind = kind /\ (kind # "response" => V.var = var)
LegalNotBad == edits = <<>> => stage \notin {"bad", "any"}
\* C13: an outcome is a result or an error, never both, and null is a result.
Outcome == stage = "value" /\ V.kind = "response" =>
  /\ ~(Has(V.out, "result") /\ V.var = "error")
  /\ V.var = "result" <=> Has(V.out, "result")
Inv == RoundTrip /\ KindByMembers /\ IdKept /\ CustomKept /\ LegalAccepted /\ LegalNotBad /\ Outcome

\* One line: what was written, verdict, kind, type received, then texts: id, method, params, document, forwarded.
Line(v) == "@@" \o kind \o "." \o var \o "\t" \o v.ok \o "\t" \o v.kind \o "\t" \o v.var \o "\t" \o Text(v.id)
           \o "\t" \o Text(v.method) \o "\t" \o Text(v.params) \o "\t" \o Text(Doc) \o "\t" \o Text(v.out)
Emit == stage \in {"value", "bad", "any"} => PrintT(Line(V))
=============================================================================
