--------------------------------- MODULE Codes ---------------------------------
(****************************************************************************)
(* Values which have a name in the API and a code on the wire.  A named      *)
(* value is written, alone or as a member of a payload, as its code, and the *)
(* code is read as the value of that name.  Text codes are an open set: any  *)
(* other text is a custom value, kept as it is; numeric ones are closed.     *)
(****************************************************************************)
EXTENDS Wire, TLC

Texts == [
  TaskDataKind |-> <<<<"CompileTask", "compile-task">>, <<"CompileReport", "compile-report">>, <<"TestTask", "test-task">>,
                     <<"TestReport", "test-report">>, <<"TestStart", "test-start">>, <<"TestFinish", "test-finish">>>>,
  BuildTargetTag |-> <<<<"Libary", "library">>, <<"Application", "application">>, <<"Test", "test">>, <<"IntegrationTest", "integration-test">>,
                       <<"Benchmark", "benchmark">>, <<"NoIDE", "no-ide">>, <<"Manual", "manual">>>>]
Numbers_ == [
  TaskStatus |-> <<<<"Ok", "1">>, <<"Error", "2">>, <<"Cancelled", "3">>>>,
  BuildTargetEventKind |-> <<<<"Created", "1">>, <<"Changed", "2">>, <<"Deleted", "3">>>>,
  MessageType |-> <<<<"Error", "1">>, <<"Warning", "2">>, <<"Info", "3">>, <<"Log", "4">>>>,
  SourceKind |-> <<<<"File", "1">>, <<"Directory", "2">>>>]
IsText(ty) == ty \in DOMAIN Texts
Table(ty) == IF IsText(ty) THEN Texts[ty] ELSE Numbers_[ty]
Codes(ty) == {Table(ty)[i][2] : i \in 1..Len(Table(ty))}
Names_(ty) == {Table(ty)[i][1] : i \in 1..Len(Table(ty))}
CodeFor(ty, n) == Table(ty)[CHOOSE i \in 1..Len(Table(ty)) : Table(ty)[i][1] = n][2]
NameFor(ty, c) == IF c \in Codes(ty) THEN Table(ty)[CHOOSE i \in 1..Len(Table(ty)) : Table(ty)[i][2] = c][1]
                  ELSE IF IsText(ty) THEN "Custom" ELSE "none"
Types_ == DOMAIN Texts \cup DOMAIN Numbers_

\* Texts which are nearly a code.
Dash(s) == IF \E i \in 1..Len(s) : SubSeq(s, i, i) = "-" THEN CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = "-" ELSE 0
Nearly(c) == {c \o " ", " " \o c, c \o "s", c \o "-", SubSeq(c, 1, Len(c) - 1), SubSeq(c, 2, Len(c)), c \o "\\n", "x-" \o c}
             \cup (IF Dash(c) = 0 THEN {} ELSE LET a == SubSeq(c, 1, Dash(c) - 1) b == SubSeq(c, Dash(c) + 1, Len(c))
                   IN {a \o "_" \o b, a \o b, a, b, b \o "-" \o a, a \o " " \o b})
Odd(ty) == IF IsText(ty) THEN (UNION {Nearly(c) : c \in Codes(ty)} \cup Names_(ty) \cup {"", "Custom", "none", "None", "null", "test-end", "noide", "other"}) \ Codes(ty)
           ELSE {"0", "5", "-1", "257", "65537", "4294967297"} \cup ({"3", "4"} \ Codes(ty))

\* Where such a value travels: alone, or as a member.
Carriers(ty) ==
  CASE ty = "TaskDataKind" -> {<<"TaskStart", "dataKind">>, <<"TaskProgress", "dataKind">>, <<"TaskFinish", "dataKind">>}
    [] ty = "BuildTargetTag" -> {<<"BuildTarget", "tags">>}
    [] ty = "TaskStatus" -> {<<"TaskFinish", "status">>}
    [] ty = "BuildTargetEventKind" -> {<<"BuildTargetEvent", "kind">>}
    [] ty = "MessageType" -> {<<"LogMessage", "type">>, <<"ShowMessage", "type">>}
    [] ty = "SourceKind" -> {<<"Sources", "kind">>}
Alone == <<"", "">>

VARIABLES ty, name, code, carrier, stage
vars == <<ty, name, code, carrier, stage>>

Value(c) == IF IsText(ty) THEN Str(c) ELSE Num(c)
Doc == IF carrier = Alone THEN Value(code)
       ELSE LET f == Inst(carrier[1], "p", Full)
                x == IF ty = "BuildTargetTag" THEN Arr(<<Value(code), Str("other"), Value(code)>>) ELSE Value(code)
            IN Obj([i \in 1..Len(f.m) |-> IF f.m[i].n = carrier[2] THEN Mem(carrier[2], x) ELSE f.m[i]])

Init == /\ ty \in Types_ /\ carrier \in Carriers(ty) \cup {Alone}
        /\ \/ name \in Names_(ty) /\ code = CodeFor(ty, name) /\ stage = "value"
           \/ code \in Odd(ty) /\ name = (IF IsText(ty) THEN "Custom" ELSE "none") /\ stage = "text"
Write == stage = "value" /\ stage' = "text" /\ UNCHANGED <<ty, name, code, carrier>>
Read == stage = "text" /\ stage' = (IF NameFor(ty, code) = name THEN "back" ELSE "lost") /\ UNCHANGED <<ty, name, code, carrier>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars

Kept == stage # "lost"
OneEach == \A t \in Types_ : \A i, j \in 1..Len(Table(t)) : i # j => Table(t)[i][1] # Table(t)[j][1] /\ Table(t)[i][2] # Table(t)[j][2]
\* The payload specification agrees about what these payloads are.
Schema == carrier # Alone => Decode(carrier[1], Doc).ok = (IF name = "none" THEN "bad" ELSE "ok")
Inv == Kept /\ OneEach /\ Schema
Emit == stage = "back" => PrintT("@@" \o ty \o "\t" \o name \o "\t" \o Text(Value(code)) \o "\t" \o carrier[1] \o "\t" \o carrier[2] \o "\t" \o Text(Doc))
=============================================================================
