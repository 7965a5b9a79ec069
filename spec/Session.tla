------------------------------- MODULE Session -------------------------------
(****************************************************************************)
(* A build-server session end to end: a client, the byte pipe to the server, *)
(* the reader thread, the rendezvous channel to the server's own thread (the *)
(* handshake, the request loop, the shutdown handling and the final join),   *)
(* the rendezvous channel to the writer thread, and the pipe back.  With     *)
(* Bytes = FALSE it is a connection in memory: no I/O threads, two queues    *)
(* (unbounded, or of any capacity the program gave its channels).            *)
(*                                                                           *)
(* One action per linearization point of the code:                           *)
(*   RdTake/RdEof        Message::read returns (reader thread)               *)
(*   RdHand              reader_sender.send meets a receive                  *)
(*   SvRecv*             the server thread's receive, by phase               *)
(*   SvSend*             a send accepted by (or failing at) the channel      *)
(*   WrWrite/WrFail/WrEnd  Message::write returns / the channel closed       *)
(*   SvDrop, SvJoinR, SvJoinW   dropping the Connection, IoThreads::join     *)
(*                                                                           *)
(* Messages are positions in `script`, the client's history; kinds:          *)
(*   init    build/initialize request      inited  build/initialized notif.  *)
(*   shut    build/shutdown request        exit    build/exit notification   *)
(*   req     any other request             note    any other notification    *)
(*   resp    a response                    bad     a malformed message       *)
(****************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS
  Bytes,      \* TRUE: byte transport with I/O threads, FALSE: in memory
  MayVanish,  \* TRUE: the client may stop reading (or vanish) at any time
  MayTimeout, \* TRUE: a quiescent wait for exit may reach its time limit
  PipeCap     \* capacity of each byte pipe, or of each channel in memory, in messages

Kinds == {"init", "inited", "shut", "exit", "req", "note", "resp", "bad"}
Requests == {"init", "shut", "req"}

VARIABLES
  script,   \* the client's history: a sequence of kinds
  ending,   \* "eof": the client closes at once; "late": once all is quiet
  cw,       \* messages the client has written
  cclosed,  \* the client has closed its writing side
  copen,    \* the client still reads
  inq,      \* written by the client, not yet read
  rd, rdm, rres,  \* reader thread: pc, message in hand, result
  sv, svm,  \* server thread: pc, request in hand
  hs, cb, sd,     \* results of the handshake, callback runs, shutdown result
  live,     \* the server holds its connection
  eaten,    \* messages received by the server thread, in order
  got,      \* those of them received by the server's own loop
  sent,     \* replies accepted by a send
  wr, wrm, wres,  \* writer thread: pc, reply in hand, result
  outq,     \* written, not yet read by the client
  cread,    \* replies read by the client
  jn        \* result of the join

cvars == <<script, ending, cw, cclosed, copen>>
rvars == <<rd, rdm, rres>>
svars == <<sv, svm, hs, cb, sd, live, eaten, got, sent, jn>>
wvars == <<wr, wrm, wres>>
vars  == <<cvars, inq, rvars, svars, wvars, outq, cread>>

NoMsg == 0
NoReply == [n |-> 0, c |-> "none"]
Kind(n) == script[n]

InitWith(S, E) ==
  /\ script = S /\ ending = E
  /\ cw = 0 /\ cclosed = FALSE /\ copen = TRUE
  /\ inq = <<>>
  /\ rd = IF Bytes THEN "read" ELSE "done"
  /\ rdm = NoMsg /\ rres = "none"
  /\ sv = "hs1" /\ svm = NoMsg
  /\ hs = "none" /\ cb = 0 /\ sd = "none"
  /\ live = TRUE /\ eaten = <<>> /\ got = <<>> /\ sent = <<>>
  /\ wr = IF Bytes THEN "idle" ELSE "done"
  /\ wrm = NoReply /\ wres = "none"
  /\ outq = <<>> /\ cread = <<>> /\ jn = "none"

(*************************** the server's channels **************************)

\* The message a receive by the server thread would return now, if any.
Offered == IF Bytes THEN (IF rd = "offer" THEN {rdm} ELSE {})
           ELSE (IF inq # <<>> THEN {Head(inq)} ELSE {})

\* The receive fails: nothing is left and nothing can come.
InGone == IF Bytes THEN rd = "done" ELSE inq = <<>> /\ cclosed

\* The other half of a receive of n: the rendezvous frees the reader, which
\* stops after exit; in memory the queue is popped.
Take(n) ==
  /\ n \in Offered
  /\ eaten' = Append(eaten, n)
  /\ IF Bytes
     THEN /\ rdm' = NoMsg
          /\ rd' = IF Kind(n) = "exit" THEN "done" ELSE "read"
          /\ rres' = IF Kind(n) = "exit" THEN "ok" ELSE rres
          /\ UNCHANGED inq
     ELSE inq' = Tail(inq) /\ UNCHANGED rvars

\* A send is accepted: by the idle writer, or by the in-memory queue.
CanSend == IF Bytes THEN wr = "idle" ELSE copen /\ Len(outq) < PipeCap
Accept(r) ==
  /\ CanSend
  /\ sent' = Append(sent, r)
  /\ IF Bytes THEN wr' = "write" /\ wrm' = r /\ UNCHANGED <<wres, outq>>
     ELSE outq' = Append(outq, r) /\ UNCHANGED wvars

\* A send fails: the writer is gone, or the client's end of the memory pair.
SendFails == IF Bytes THEN wr = "done" ELSE ~copen

(******************************** the client *******************************)

ClientWrite ==
  /\ cw < Len(script) /\ ~cclosed
  /\ Len(inq) < PipeCap
  /\ cw' = cw + 1
  /\ inq' = Append(inq, cw + 1)
  /\ UNCHANGED <<script, ending, cclosed, copen, rvars, svars, wvars, outq, cread>>

ClientRead ==
  /\ outq # <<>> /\ copen
  /\ cread' = Append(cread, Head(outq)) /\ outq' = Tail(outq)
  /\ UNCHANGED <<cvars, inq, rvars, svars, wvars>>

Close ==
  /\ ~cclosed
  /\ cclosed' = TRUE
  /\ UNCHANGED <<script, ending, cw, copen, inq, rvars, svars, wvars, outq, cread>>

ClientClose == ending = "eof" /\ cw = Len(script) /\ Close

\* The client stops reading; replies already written but unread are lost.
ClientVanish ==
  /\ MayVanish /\ copen
  /\ copen' = FALSE /\ outq' = <<>>
  /\ UNCHANGED <<script, ending, cw, cclosed, inq, rvars, svars, wvars, cread>>

(****************************** reader thread ******************************)

RdTake ==
  /\ Bytes /\ rd = "read" /\ inq # <<>>
  /\ inq' = Tail(inq)
  /\ IF Kind(Head(inq)) = "bad"
     THEN rd' = "done" /\ rres' = "err" /\ UNCHANGED rdm
     ELSE rd' = "offer" /\ rdm' = Head(inq) /\ UNCHANGED rres
  /\ UNCHANGED <<cvars, svars, wvars, outq, cread>>

RdEof ==
  /\ Bytes /\ rd = "read" /\ inq = <<>> /\ cclosed
  /\ rd' = "done" /\ rres' = "ok"
  /\ UNCHANGED <<cvars, inq, rdm, svars, wvars, outq, cread>>

\* The server dropped its connection while a message was being handed over.
RdGone ==
  /\ Bytes /\ rd = "offer" /\ ~live
  /\ rd' = "done" /\ rres' = "err" /\ rdm' = NoMsg
  /\ UNCHANGED <<cvars, inq, svars, wvars, outq, cread>>

(****************************** writer thread ******************************)

WrWrite ==
  /\ Bytes /\ wr = "write" /\ copen /\ Len(outq) < PipeCap
  /\ outq' = Append(outq, wrm) /\ wr' = "idle" /\ wrm' = NoReply
  /\ UNCHANGED <<cvars, inq, rvars, svars, wres, cread>>

WrFail ==
  /\ Bytes /\ wr = "write" /\ ~copen
  /\ wr' = "done" /\ wres' = "err" /\ wrm' = NoReply
  /\ UNCHANGED <<cvars, inq, rvars, svars, outq, cread>>

\* A socket may swallow writes for a while after its peer has gone.
WrLost ==
  /\ Bytes /\ wr = "write" /\ ~copen
  /\ wr' = "idle" /\ wrm' = NoReply
  /\ UNCHANGED <<cvars, inq, rvars, svars, wres, outq, cread>>

WrEnd ==
  /\ Bytes /\ wr = "idle" /\ ~live
  /\ wr' = "done" /\ wres' = "ok"
  /\ UNCHANGED <<cvars, inq, rvars, svars, wrm, outq, cread>>

(************************ server thread: the handshake *********************)

HsFail == hs' = "err" /\ sv' = "drop" /\ UNCHANGED <<svm, cb>>

\* initialize_start
SvRecvHs1(n) ==
  /\ sv = "hs1" /\ Take(n)
  /\ CASE Kind(n) = "init" -> sv' = "hs2" /\ svm' = n /\ cb' = cb + 1 /\ UNCHANGED hs
       [] Kind(n) \in Requests \ {"init"} -> sv' = "hsrefuse" /\ svm' = n /\ UNCHANGED <<hs, cb>>
       [] Kind(n) \in {"note", "inited"} -> UNCHANGED <<sv, svm, hs, cb>>
       [] OTHER -> HsFail                                 \* exit, resp
  /\ UNCHANGED <<cvars, sd, live, got, sent, jn, wvars, outq, cread>>

SvRefuse ==
  /\ sv = "hsrefuse" /\ Accept([n |-> svm, c |-> "-32002"])
  /\ sv' = "hs1" /\ svm' = NoMsg
  /\ UNCHANGED <<cvars, inq, rvars, hs, cb, sd, live, eaten, got, jn, cread>>

\* initialize_finish
SvAnswer ==
  /\ sv = "hs2" /\ Accept([n |-> svm, c |-> "init"])
  /\ sv' = "hs3" /\ UNCHANGED svm
  /\ UNCHANGED <<cvars, inq, rvars, hs, cb, sd, live, eaten, got, jn, cread>>

SvRecvHs3(n) ==
  /\ sv = "hs3" /\ Take(n)
  /\ IF Kind(n) = "inited" THEN hs' = "ok" /\ sv' = "loop" /\ UNCHANGED <<svm, cb>>
                           ELSE HsFail
  /\ UNCHANGED <<cvars, sd, live, got, sent, jn, wvars, outq, cread>>

SvHsGone ==
  /\ \/ sv \in {"hs1", "hs3"} /\ InGone
     \/ sv \in {"hsrefuse", "hs2"} /\ SendFails
  /\ HsFail
  /\ UNCHANGED <<cvars, inq, rvars, sd, live, eaten, got, sent, jn, wvars, outq, cread>>

(********************** server thread: the request loop ********************)

SvRecvLoop(n) ==
  /\ sv = "loop" /\ Take(n)
  /\ got' = Append(got, n)
  /\ CASE Kind(n) = "shut" -> sv' = "sdreply" /\ svm' = n
       [] Kind(n) \in Requests \ {"shut"} -> sv' = "reply" /\ svm' = n
       [] OTHER -> UNCHANGED <<sv, svm>>
  /\ UNCHANGED <<cvars, hs, cb, sd, live, sent, jn, wvars, outq, cread>>

SvReply ==
  /\ sv = "reply" /\ Accept([n |-> svm, c |-> "ok"])
  /\ sv' = "loop" /\ svm' = NoMsg
  /\ UNCHANGED <<cvars, inq, rvars, hs, cb, sd, live, eaten, got, jn, cread>>

SvLoopEnd ==
  /\ \/ sv = "loop" /\ InGone
     \/ sv = "reply" /\ SendFails
  /\ sv' = "drop"
  /\ UNCHANGED <<cvars, inq, rvars, svm, hs, cb, sd, live, eaten, got, sent, jn, wvars, outq, cread>>

(********************** server thread: handle_shutdown *********************)

SvSdReply ==
  /\ sv = "sdreply"
  /\ \/ Accept([n |-> svm, c |-> "null"])
     \/ SendFails /\ UNCHANGED <<sent, wvars, outq>>      \* the failure is ignored
  /\ sv' = "sdwait" /\ UNCHANGED svm
  /\ UNCHANGED <<cvars, inq, rvars, hs, cb, sd, live, eaten, got, jn, cread>>

SvSdRecv(n) ==
  /\ sv = "sdwait" /\ Take(n)
  /\ sd' = IF Kind(n) = "exit" THEN "done" ELSE "err"
  /\ sv' = "drop"
  /\ UNCHANGED <<cvars, svm, hs, cb, live, got, sent, jn, wvars, outq, cread>>

SvSdGone ==
  /\ sv = "sdwait" /\ InGone
  /\ sd' = "err" /\ sv' = "drop"
  /\ UNCHANGED <<cvars, inq, rvars, svm, hs, cb, live, eaten, got, sent, jn, wvars, outq, cread>>

(************************ server thread: the end of it *********************)

SvDrop ==
  /\ sv = "drop"
  /\ live' = FALSE
  /\ sv' = IF Bytes THEN "joinR" ELSE "end"
  /\ UNCHANGED <<cvars, inq, rvars, svm, hs, cb, sd, eaten, got, sent, jn, wvars, outq, cread>>

SvJoinR ==
  /\ sv = "joinR" /\ rd = "done"
  /\ IF rres = "ok" THEN sv' = "joinW" /\ UNCHANGED jn ELSE sv' = "end" /\ jn' = "err"
  /\ UNCHANGED <<cvars, inq, rvars, svm, hs, cb, sd, live, eaten, got, sent, wvars, outq, cread>>

SvJoinW ==
  /\ sv = "joinW" /\ wr = "done"
  /\ sv' = "end" /\ jn' = wres
  /\ UNCHANGED <<cvars, inq, rvars, svm, hs, cb, sd, live, eaten, got, sent, wvars, outq, cread>>

(******************************* composition *******************************)

Server ==
  \/ \E n \in Offered : SvRecvHs1(n) \/ SvRecvHs3(n) \/ SvRecvLoop(n) \/ SvSdRecv(n)
  \/ SvRefuse \/ SvAnswer \/ SvHsGone \/ SvReply \/ SvLoopEnd
  \/ SvSdReply \/ SvSdGone \/ SvDrop \/ SvJoinR \/ SvJoinW
Reader == RdTake \/ RdEof \/ RdGone
Writer == WrWrite \/ WrFail \/ WrLost \/ WrEnd
Busy == ClientWrite \/ ClientRead \/ ClientClose \/ Reader \/ Server \/ Writer

\* Nothing moves without the client closing its side or time passing.
Quiet == ~ENABLED Busy

LateClose == ending = "late" /\ Quiet /\ sv # "end" /\ Close

\* handle_shutdown gives up after its time limit.
SvTimeout ==
  /\ MayTimeout /\ sv = "sdwait" /\ Quiet
  /\ sd' = "err" /\ sv' = "drop"
  /\ UNCHANGED <<cvars, inq, rvars, svm, hs, cb, live, eaten, got, sent, jn, wvars, outq, cread>>

Next == Busy \/ ClientVanish \/ LateClose \/ SvTimeout

Fairness == WF_vars(Busy) /\ WF_vars(LateClose)

(******************************** properties *******************************)

Range(s) == {s[i] : i \in 1..Len(s)}
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
FirstOr(P(_), s, d) == IF \E i \in 1..Len(s) : P(s[i])
                       THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..i-1 : ~P(s[j])
                       ELSE d

\* Positions are received in order, none skipped, none twice: eaten = 1..k.
InOrder == \A i \in 1..Len(eaten) : eaten[i] = i

\* The client's own history says where the handshake's request is.
InitPos == FirstOr(LAMBDA k : k \notin {"shut", "req", "note", "inited"}, script, Len(script) + 1)
EarlyRequests == SelectSeq([i \in 1..(InitPos - 1) |-> i], LAMBDA i : script[i] \in Requests)
HasInit == InitPos <= Len(script) /\ script[InitPos] = "init"
HandshakeOk == HasInit /\ InitPos < Len(script) /\ script[InitPos + 1] = "inited"

C01_EarlyRefused ==
  LET before == SelectSeq(sent, LAMBDA r : r.n < InitPos)
  IN /\ \A i \in 1..Len(sent) : sent[i].n < InitPos => sent[i].c = "-32002"
     /\ IsPrefixOf([i \in 1..Len(before) |-> before[i].n], EarlyRequests)
     /\ (cb > 0 => Len(before) = Len(EarlyRequests))
     /\ (~HasInit => sent = before)

C02_Handshake ==
  /\ hs = "ok" => HandshakeOk
  /\ cb <= 1 /\ (hs = "ok" => cb = 1)
  /\ Cardinality({i \in 1..Len(sent) : sent[i].c = "init"}) <= 1
  /\ \A i \in 1..Len(sent) : sent[i].c = "init" => sent[i].n = InitPos
  /\ hs = "ok" => \E i \in 1..Len(sent) : sent[i].c = "init"
  /\ (sv = "end" /\ HandshakeOk /\ copen /\ ~(\E i \in 1..InitPos : script[i] = "bad")) => hs = "ok"

C03_ConsumesOwn ==
  /\ hs = "ok" => IsPrefixOf(got, [i \in 1..(Len(script) - InitPos - 1) |-> InitPos + 1 + i])
  /\ hs # "ok" => got = <<>>
  /\ sv = "end" /\ sd # "none" => Len(eaten) <= Len(got) + InitPos + 1 + 1

C04_Shutdown ==
  /\ sd = "done" => /\ Kind(eaten[Len(eaten)]) = "exit"
                    /\ Kind(got[Len(got)]) = "shut" /\ eaten[Len(eaten)] = got[Len(got)] + 1
  /\ \A i \in 1..Len(sent) : sent[i].c = "null" <=> (sent[i].n > InitPos + 1 /\ Kind(sent[i].n) = "shut")
  /\ sv = "sdwait" /\ copen => sent # <<>> /\ sent[Len(sent)] = [n |-> svm, c |-> "null"]

\* Each request gets at most one reply, in the order of the requests.
AtMostOnce == \A i, j \in 1..Len(sent) : i < j => sent[i].n < sent[j].n
OnlyRequests == \A i \in 1..Len(sent) : Kind(sent[i].n) \in Requests

C06_ExitLast ==
  /\ Bytes => \A i \in 1..Len(eaten) : i < Len(eaten) => Kind(eaten[i]) # "exit"
  /\ Bytes /\ eaten # <<>> /\ Kind(eaten[Len(eaten)]) = "exit" => rd = "done" /\ rres = "ok"

C07_Outbound ==
  /\ copen => IsPrefixOf(cread \o outq, sent)
  /\ IsPrefixOf(cread, sent)
  /\ copen /\ jn = "ok" => cread \o outq = sent

C08_NothingAfterBad == \A i \in 1..Len(eaten) : Kind(eaten[i]) # "bad"

C09_JoinResult ==
  /\ jn = "ok" => rres = "ok" /\ wres = "ok"
  /\ sv = "end" /\ Bytes => jn # "none"

C19_Bounded ==
  /\ Len(inq) <= PipeCap /\ Len(outq) <= PipeCap
  /\ Bytes =>
           /\ Len(eaten) + Len(inq) + 1 >= cw - (IF rd = "done" THEN Len(script) ELSE 0)
           /\ Len(sent) - Len(cread) <= PipeCap + 1 \/ ~copen

Inv == /\ InOrder /\ AtMostOnce /\ OnlyRequests
       /\ C01_EarlyRefused /\ C02_Handshake /\ C03_ConsumesOwn /\ C04_Shutdown
       /\ C06_ExitLast /\ C07_Outbound /\ C08_NothingAfterBad /\ C09_JoinResult /\ C19_Bounded

\* The server always gets to its end (the client reads and finally closes).
Termination == <>(sv = "end")

=============================================================================
