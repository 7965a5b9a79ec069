-------------------------------- MODULE Flow --------------------------------
(****************************************************************************)
(* Backpressure of a byte transport.  A reader thread (which holds at most   *)
(* one message), a writer thread (likewise) and two byte pipes of capacity P *)
(* messages between a peer and a server, both of which do nothing but what   *)
(* the current command of a program says.  A command ends when nothing it    *)
(* allows can move any more; what can be seen then is recorded as a token.   *)
(* The two halves of a connection are independent: a server may give up its  *)
(* sender ("mute") or its receiver ("deaf") and go on with the other one.     *)
(* Every program of at most MaxCmds commands and an ending is explored.      *)
(****************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS P, MaxCmds, Endings, Cmds

VARIABLES
  inp, rd, rdm, rres,      \* inbound pipe; reader: "read", "offer", "done"
  outp, wr, wrm, wres,     \* outbound pipe; writer: "idle", "write", "done"
  wrote, got,              \* messages written by the peer, received by the server
  sent, read,              \* messages sent by the server with success, read by the peer
  next,                    \* number of the server's next message
  eof, here,               \* the peer closed its writing side; it has not vanished
  live, ears,              \* the server holds its connection's sender, its receiver
  waits,                   \* number of the message of a plain send which waits; 0: none
  cur, budget, prog        \* the current command; what it may still do; commands and tokens so far

io == <<inp, rd, rdm, rres, outp, wr, wrm, wres>>
vars == <<io, wrote, got, sent, read, next, eof, here, live, ears, waits, cur, budget, prog>>

Exit == 1000    \* the number of the exit notification

Init ==
  /\ inp = <<>> /\ rd = "read" /\ rdm = 0 /\ rres = "none"
  /\ outp = <<>> /\ wr = "idle" /\ wrm = 0 /\ wres = "none"
  /\ wrote = 0 /\ got = <<>> /\ sent = <<>> /\ read = <<>> /\ next = 1
  /\ eof = FALSE /\ here = TRUE /\ live = TRUE /\ ears = TRUE /\ waits = 0
  /\ cur = "pick" /\ budget = 0 /\ prog = <<>>

(**************************** the I/O threads ******************************)
RdTake == /\ rd = "read" /\ inp # <<>>
          /\ rd' = "offer" /\ rdm' = Head(inp) /\ inp' = Tail(inp) /\ UNCHANGED <<rres, outp, wr, wrm, wres>>
RdEof == /\ rd = "read" /\ inp = <<>> /\ eof
         \* the end a peer which vanishes leaves may be a clean one or not
         /\ \E r \in (IF here THEN {"ok"} ELSE {"ok", "err"}) : rres' = r
         /\ rd' = "done" /\ UNCHANGED <<inp, rdm, outp, wr, wrm, wres>>
RdGone == /\ rd = "offer" /\ ~ears
          /\ rd' = "done" /\ rres' = "err" /\ rdm' = 0 /\ UNCHANGED <<inp, outp, wr, wrm, wres>>
\* What a vanished peer had written may be lost.
RdLost == /\ ~here /\ rd = "read"
          /\ rd' = "done" /\ rres' = "err" /\ inp' = <<>> /\ UNCHANGED <<rdm, outp, wr, wrm, wres>>
WrWrite == /\ wr = "write" /\ here /\ Len(outp) < P
           /\ outp' = Append(outp, wrm) /\ wr' = "idle" /\ wrm' = 0 /\ UNCHANGED <<inp, rd, rdm, rres, wres>>
WrFail == /\ wr = "write" /\ ~here
          /\ wr' = "done" /\ wres' = "err" /\ wrm' = 0 /\ UNCHANGED <<inp, rd, rdm, rres, outp>>
WrEnd == /\ wr = "idle" /\ ~live
         /\ wr' = "done" /\ wres' = "ok" /\ UNCHANGED <<inp, rd, rdm, rres, outp, wrm>>
Threads == (RdTake \/ RdEof \/ RdGone \/ RdLost \/ WrWrite \/ WrFail \/ WrEnd)
           /\ UNCHANGED <<wrote, got, sent, read, next, eof, here, live, ears, waits, cur, budget, prog>>

(**************************** peer and server ******************************)
PWrite == /\ budget > 0 /\ Len(inp) < P /\ here /\ ~eof
          /\ inp' = Append(inp, IF cur = "exit" THEN Exit ELSE wrote + 1)
          /\ wrote' = (IF cur = "exit" THEN wrote ELSE wrote + 1) /\ budget' = budget - 1
          /\ UNCHANGED <<rd, rdm, rres, outp, wr, wrm, wres, got, sent, read, next, eof, here, live, ears, waits, cur, prog>>
SRecv == /\ rd = "offer" /\ ears
         /\ got' = Append(got, rdm) /\ rdm' = 0
         /\ rd' = (IF rdm = Exit THEN "done" ELSE "read") /\ rres' = (IF rdm = Exit THEN "ok" ELSE rres)
         /\ UNCHANGED <<inp, outp, wr, wrm, wres, wrote, sent, read, next, eof, here, live, ears, waits, cur, budget, prog>>
SSend == /\ budget > 0 /\ wr = "idle" /\ live /\ waits = 0
         /\ wr' = "write" /\ wrm' = next /\ sent' = Append(sent, next) /\ next' = next + 1 /\ budget' = budget - 1
         /\ UNCHANGED <<inp, rd, rdm, rres, outp, wres, wrote, got, read, eof, here, live, ears, waits, cur, prog>>
PRead == /\ outp # <<>> /\ here
         /\ read' = Append(read, Head(outp)) /\ outp' = Tail(outp)
         /\ UNCHANGED <<inp, rd, rdm, rres, wr, wrm, wres, wrote, got, sent, next, eof, here, live, ears, waits, cur, budget, prog>>
\* A plain send which waited.
SWaited == /\ waits > 0 /\ wr = "idle"
           /\ wr' = "write" /\ wrm' = waits /\ sent' = Append(sent, waits) /\ waits' = 0
           /\ UNCHANGED <<inp, rd, rdm, rres, outp, wres, wrote, got, read, next, eof, here, live, ears, cur, budget, prog>>
SDrop == /\ live \/ ears
         /\ waits = 0 /\ live' = FALSE /\ ears' = FALSE
         /\ UNCHANGED <<io, wrote, got, sent, read, next, eof, here, waits, cur, budget, prog>>

InFull == rd = "offer" /\ Len(inp) = P
OutFull == wr = "write" /\ Len(outp) = P
Many == P + 5

\* A plain send which waits fails once the writer is gone.
WaitFails ==
  /\ waits > 0 /\ wr = "done" /\ waits' = 0
  /\ UNCHANGED <<io, wrote, got, sent, read, next, eof, here, live, ears, cur, budget, prog>>

(* What moves while a command runs. *)
Moves ==
  \/ Threads \/ SWaited \/ WaitFails
  \/ cur \in {"flood-in", "ping-in", "exit"} /\ PWrite
  \/ cur \in {"drain-in", "ping-in", "exit", "eof", "vanish"} /\ SRecv
  \/ cur \in {"flood-out", "ping-out"} /\ SSend
  \/ cur \in {"drain-out", "ping-out", "exit", "eof", "drop"} /\ PRead
  \* the server ends once its input has ended
  \/ cur \in {"exit", "eof"} /\ rd = "done" /\ SDrop
  \* a send to a vanished peer
  \/ cur = "vanish" /\ rd = "done" /\ SSend
  \/ cur = "vanish" /\ rd = "done" /\ wr = "done" /\ SDrop
  \/ cur = "drop" /\ SDrop

Quiet == ~ENABLED Moves

Start(c) ==
  /\ cur' = c
  /\ budget' = IF c \in {"flood-in", "flood-out", "vanish"} THEN Many ELSE IF c \in {"ping-in", "ping-out", "exit"} THEN 1 ELSE 0
  /\ eof' = (eof \/ c \in {"eof", "vanish"})
  /\ here' = (here /\ c # "vanish")
  /\ waits' = IF c = "wait-out" THEN next ELSE waits
  /\ next' = IF c = "wait-out" \/ (c = "try-out" /\ OutFull) THEN next + 1 ELSE next
  /\ live' = (live /\ c # "mute") /\ ears' = (ears /\ c # "deaf")
  /\ UNCHANGED <<io, wrote, got, sent, read, prog>>

\* Closing after drop lets the reader come to its end.
CloseAfterDrop ==
  /\ cur = "drop" /\ Quiet /\ ~eof /\ rd # "done" /\ eof' = TRUE
  /\ UNCHANGED <<io, wrote, got, sent, read, next, here, live, ears, waits, cur, budget, prog>>

Sensible(c) ==
  CASE c = "flood-in"  -> ~InFull /\ ears
    [] c = "drain-in"  -> InFull
    [] c = "ping-in"   -> ~InFull /\ ears
    [] c = "flood-out" -> ~OutFull /\ live
    [] c = "try-out"   -> OutFull /\ waits = 0 /\ live
    [] c = "wait-out"  -> OutFull /\ waits = 0 /\ live
    [] c = "drain-out" -> OutFull
    [] c = "ping-out"  -> ~OutFull /\ live
    [] c = "mute"      -> live /\ ears /\ waits = 0
    [] c = "deaf"      -> live /\ ears /\ ~InFull
    [] c \in {"exit", "eof"} -> ~InFull
    [] c = "drop" -> waits = 0
    [] OTHER -> TRUE

Pick ==
  /\ cur = "pick" /\ (Quiet \/ prog = <<>>)
  /\ \/ \E c \in Cmds : Len(prog) < MaxCmds /\ Sensible(c) /\ Start(c)
     \/ \E c \in Endings : Sensible(c) /\ Start(c)

\* A message which finds no receiver may or may not be called a failure of reading.
Did(c) == \E i \in 1..Len(prog) : prog[i][1] = c
Unheard == rres = "err" /\ Did("deaf")
JoinResult == IF Unheard /\ wres = "ok" THEN "any" ELSE IF rres = "err" THEN "err" ELSE wres

\* What is to be seen at the end of a command.
Token ==
  CASE cur \in {"flood-in"} -> IF budget > 0 /\ InFull THEN "blocked" ELSE "unbounded"
    [] cur = "flood-out" -> IF budget > 0 /\ OutFull THEN "blocked" ELSE "unbounded"
    [] cur \in {"drain-in", "ping-in"} -> IF inp = <<>> /\ rd = "read" /\ Len(got) = wrote THEN "all" ELSE "missing"
    [] cur \in {"drain-out", "ping-out"} -> IF read = sent THEN "all" ELSE "missing"
    [] cur = "try-out" -> "full"
    [] cur = "wait-out" -> IF waits > 0 THEN "waits" ELSE "done"
    [] cur \in {"exit", "eof"} ->
         (IF (Unheard \/ SelectSeq(got, LAMBDA x : x # Exit) = [i \in 1..wrote |-> i]) /\ read = sent THEN "all " ELSE "missing ") \o JoinResult
    [] cur = "vanish" -> IF wres = "ok" /\ Did("mute") THEN "any" ELSE JoinResult
    \* what was not read yet may be lost with a connection given up in the middle of the input
    [] cur = "drop" -> IF JoinResult = "err" THEN "err" ELSE (IF read = sent THEN "all " ELSE "missing ") \o JoinResult
    [] OTHER -> "-"

Finish ==
  /\ cur \notin {"pick", "end"} /\ Quiet
  /\ ~ENABLED CloseAfterDrop
  /\ prog' = Append(prog, <<cur, Token>>)
  /\ cur' = IF cur \in Endings THEN "end" ELSE "pick"
  /\ budget' = 0
  /\ UNCHANGED <<io, wrote, got, sent, read, next, eof, here, live, ears, waits>>

Next == Moves \/ Pick \/ CloseAfterDrop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(******************************** properties *******************************)
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
InOrder == IsPrefix(SelectSeq(got, LAMBDA x : x # Exit), [i \in 1..wrote |-> i])
OutOrder == IsPrefix(read, sent)
OutKept == here => read \o outp \o (IF wr = "write" THEN <<wrm>> ELSE <<>>) = sent
InKept == here /\ rd # "done" => SelectSeq(got, LAMBDA x : x # Exit) \o (IF rd = "offer" /\ rdm # Exit THEN <<rdm>> ELSE <<>>) \o SelectSeq(inp, LAMBDA x : x # Exit) = [i \in 1..wrote |-> i]
Bounded == Len(inp) <= P /\ Len(outp) <= P /\ wrote <= Len(got) + P + 1
           /\ (here => Len(sent) <= Len(read) + P + 1)
Tokens == \A i \in 1..Len(prog) : prog[i][2] \notin {"unbounded", "missing", "missing ok", "missing err", "none", "all none"}
JoinOk == JoinResult = "ok" /\ cur = "end" /\ ~eof => read = sent
Inv == InOrder /\ OutOrder /\ OutKept /\ InKept /\ Bounded /\ Tokens /\ JoinOk
Ends == <>(cur = "end")

RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN "|" ELSE "") \o s[i][1] \o ":" \o s[i][2] \o Join(s, i + 1)
Emit == cur = "end" => PrintT("@@" \o Join(prog, 1))

AllCmds == {"flood-in", "drain-in", "ping-in", "flood-out", "drain-out", "ping-out", "try-out", "wait-out", "mute", "deaf"}
AllEndings == {"exit", "eof", "vanish", "drop"}
=============================================================================
