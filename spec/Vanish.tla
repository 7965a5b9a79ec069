-------------------------------- MODULE Vanish --------------------------------
(****************************************************************************)
(* Clients which write on but cannot be written to any more: at position     *)
(* `gone` of its history, once all is quiet, the client gives up its reading *)
(* side (and only that), then goes on as before.                             *)
(****************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS Alphabet, MaxLen, MaxTail

VARIABLES gone,   \* messages written before that
          seen    \* replies read before that

vvars == <<vars, gone, seen>>

Seqs(k) == UNION {[1..m -> Alphabet] : m \in 0..k}
Scripts == Seqs(MaxLen) \cup {<<"init", "inited">> \o t : t \in Seqs(MaxTail)}

Init == \E s \in Scripts, e \in {"eof", "late"} : \E g \in 0..Len(s) : InitWith(s, e) /\ gone = g /\ seen = 0

VBusy == \/ (cw # gone \/ ~copen) /\ ClientWrite
         \/ ClientRead \/ (~copen /\ ClientClose) \/ Reader \/ Server
         \* a pipe tells at once that nobody reads it
         \/ WrWrite \/ WrFail \/ WrEnd
VQuiet == ~ENABLED VBusy

Go == /\ copen /\ cw = gone /\ VQuiet
      /\ copen' = FALSE /\ outq' = <<>> /\ seen' = Len(cread)
      /\ UNCHANGED <<script, ending, cw, cclosed, inq, rvars, svars, wvars, cread, gone>>
VLate == /\ ~copen /\ ending = "late" /\ VQuiet /\ sv # "end" /\ Close /\ UNCHANGED <<gone, seen>>

VNext == (VBusy /\ UNCHANGED <<gone, seen>>) \/ Go \/ VLate
Spec == Init /\ [][VNext]_vvars /\ WF_vvars(VNext)

\* Nobody is told that all was written when it was not.
Told == jn = "ok" => sent = cread \o outq

Terminal == sv = "end" /\ outq = <<>> /\ wr = "done" /\ rd = "done" /\ ~copen
Outcome == [s |-> script, e |-> ending, hs |-> hs, cb |-> cb, sd |-> sd, got |-> got, rep |-> cread, jn |-> jn,
            closed |-> cclosed, gone |-> gone, seen |-> seen]
Emit == Terminal => PrintT("@@" \o ToJson(Outcome))
=============================================================================
