------------------------------ MODULE PayloadGen ------------------------------
(****************************************************************************)
(* A payload on its way: a document arrives, is decoded to a value or        *)
(* rejected, the value is encoded, the encoded document decoded again.       *)
(* The document is an instance of a payload type in some style, with some    *)
(* optional members left out, changed at up to MaxEdits places.  Every       *)
(* reachable decision is exported as one implementation test.                *)
(****************************************************************************)
EXTENDS Wire, TLC

CONSTANTS Types,     \* the payload types to explore
          MaxEdits,  \* changes per document
          SoftOnly   \* TRUE: all changes but the last concern presence only

VARIABLES ty,     \* payload type
          st,     \* style of the instance
          lack,   \* optional members left out
          edits,  \* changes made, in order: sequence of [p |-> site, op |-> operation]
          stage   \* "write": being written; then "text", "value", "retext", "revalue" / "bad" / "any"

vars == <<ty, st, lack, edits, stage>>

Base == Lacking(Inst(ty, "p", st), lack)
RECURSIVE Edited(_, _)
Edited(t, i) == IF i > Len(edits) THEN t ELSE Edited(Apply(t, edits[i].p, edits[i].op), i + 1)
Doc == Edited(Base, 1)
Res == Decode(ty, Doc)

Init == /\ ty \in Types
        /\ edits = <<>> /\ stage = "write"
        /\ \/ st \in Styles /\ lack = {}
           \/ st = Full /\ lack \in SUBSET Optional(ty)

\* Documents which get changed: the complete and the minimal one.
Editable == lack = {} /\ st \in {Full, Min}

Edit == /\ stage = "write" /\ Editable /\ Len(edits) < MaxEdits
        /\ LET d == Doc IN
           \E p \in Sites(d) :
             \E op \in (IF SoftOnly THEN SoftOps(At(d, p)) ELSE Ops(At(d, p))) :
               edits' = Append(edits, [p |-> p, op |-> op])
        /\ UNCHANGED <<ty, st, lack, stage>>

Send == stage = "write" /\ stage' = "text" /\ UNCHANGED <<ty, st, lack, edits>>

DecodeStep ==
  /\ stage = "text"
  /\ stage' = (LET ok == Res.ok IN IF ok = "ok" THEN "value" ELSE ok)
  /\ UNCHANGED <<ty, st, lack, edits>>

Reencode ==
  /\ stage = "value"
  /\ stage' = (IF Decode(ty, Settle(Res.t)) = Res THEN "revalue" ELSE "lost")
  /\ UNCHANGED <<ty, st, lack, edits>>

Next == Edit \/ Send \/ DecodeStep \/ Reencode
Spec == Init /\ [][Next]_vars

\* What was accepted and encoded is accepted again and means the same value.
RoundTrip == stage # "lost"
\* Instances are accepted whatever optional members are left out.
InstancesOk == edits = <<>> => stage # "bad"
\* Member order and unknown members never matter.
NoMatter == stage = "bad" /\ Len(edits) = 1 => edits[1].op \notin {"rev"} \cup DOMAIN UnknownMembers \cup DOMAIN Front
Inv == RoundTrip /\ InstancesOk /\ NoMatter

\* One line: type, how it travels, its method, verdict, document, value.
Travels == IF ty \in RequestPayloads THEN "request" ELSE IF ty \in NotificationPayloads THEN "notification"
           ELSE IF ty \in ResultPayloads THEN "response" ELSE "part"
Method == CASE Travels = "request" -> MethodOf(RequestMethods, ty)
            [] Travels = "notification" -> MethodOf(NotificationMethods, ty)
            [] OTHER -> ""
Line(ok, out) == "@@" \o ty \o "\t" \o Travels \o "\t" \o Method \o "\t" \o ok \o "\t" \o Text(Doc) \o "\t" \o out
Emit == /\ stage = "value" => PrintT(Line("ok", Text(Res.t)))
        /\ stage = "bad" => PrintT(Line("bad", "null"))
\* Parts of payloads which deserve to be explored by themselves.
AllTypes == Payloads \cup {"ServerCapabilities", "ClientCapabilities", "BuildTarget", "TaskId", "BuildTargetEvent",
                           "BuildTargetCapabilities", "SourcesCollection", "Sources", "Resources", "DependencyModulesItem",
                           "DependencyModule", "DependencySourcesItem", "BuildTargetIdentifier"}
=============================================================================
