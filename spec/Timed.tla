------------------------------- MODULE Timed --------------------------------
(****************************************************************************)
(* Sends which wait: several callers on one bounded channel, a receiver      *)
(* which takes messages, or goes, at given times.  Discrete time; all that   *)
(* is scheduled in one program is scheduled for different times, so the only *)
(* choice left is which of several waiting callers goes first.  Emits, per   *)
(* program, what each call may return and when.                              *)
(****************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Caps,      \* capacities
          Callers,   \* 1..n
          Modes,     \* "plain", "try", "timed", "deadline"
          Starts,    \* Starts[i]: when caller i may call
          Limits,    \* limits of timed and deadline sends, 0 included
          Takes,     \* receiver actions: <<"take", at, how long>>, <<"drop", at, 0>>
          MaxTakes,
          End        \* the receiver goes at the end at the latest

Forever == 1000

Calls(i) == {[m |-> m, at |-> t, lim |-> l] : m \in Modes \cap {"timed", "deadline"}, t \in Starts[i], l \in Limits}
       \cup {[m |-> m, at |-> t, lim |-> IF m = "try" THEN 0 ELSE Forever] : m \in Modes \cap {"plain", "try"}, t \in Starts[i]}

\* Times something is scheduled for.
Times(c, tk) == [i \in 1..(2 * Len(c) + 2 * Len(tk)) |->
  IF i <= Len(c) THEN c[i].at
  ELSE IF i <= 2 * Len(c) THEN c[i - Len(c)].at + c[i - Len(c)].lim
  ELSE IF i <= 2 * Len(c) + Len(tk) THEN tk[i - 2 * Len(c)][2]
  ELSE tk[i - 2 * Len(c) - Len(tk)][2] + tk[i - 2 * Len(c) - Len(tk)][3]]

Legal(c, tk) ==
  LET ts == Times(c, tk)
      own == {<<i, i + Len(c)>> : i \in {i \in 1..Len(c) : c[i].lim = 0}}
       \cup {<<2 * Len(c) + k, 2 * Len(c) + Len(tk) + k>> : k \in {k \in 1..Len(tk) : tk[k][3] = 0}}
  IN /\ \A i, j \in 1..Len(ts) : i < j /\ ts[i] < Forever => (ts[i] # ts[j] \/ <<i, j>> \in own)
     /\ \A i \in 1..Len(ts) : ts[i] < End \/ ts[i] >= Forever
     \* one receiver: its actions follow each other
     /\ \A k \in 1..(Len(tk) - 1) : tk[k][2] + tk[k][3] < tk[k + 1][2] /\ tk[k][1] # "drop"

VARIABLES cap, call, take,      \* the program
          now, open, buf,       \* time; the receiver exists; messages in the channel
          st, res,              \* st[i]: "todo", "wait", "done"; res[i]: <<result, when>>
          rk, rst, rres         \* receiver: next action, waiting?, results

vars == <<cap, call, take, now, open, buf, st, res, rk, rst, rres>>

Takings == UNION {[1..k -> Takes] : k \in 0..MaxTakes}

Init ==
  /\ cap \in Caps
  /\ call \in {c \in [Callers -> UNION {Calls(i) : i \in Callers}] : \A i \in Callers : c[i] \in Calls(i)}
  /\ take \in Takings
  /\ Legal(call, take)
  /\ now = 0 /\ open = TRUE /\ buf = <<>>
  /\ st = [i \in Callers |-> "todo"] /\ res = [i \in Callers |-> <<"none", 0>>]
  /\ rk = 1 /\ rst = FALSE /\ rres = <<>>

Waiting == {i \in Callers : st[i] = "wait"}
Done(i, x) == st' = [st EXCEPT ![i] = "done"] /\ res' = [res EXCEPT ![i] = <<x, now>>]
prog == <<cap, call, take>>

\* Caller i calls.
Call(i) ==
  /\ st[i] = "todo" /\ call[i].at = now
  /\ IF ~open THEN Done(i, "disconnected") /\ UNCHANGED <<buf, rk, rst, rres>>
     ELSE IF rst THEN
       /\ Done(i, "ok") /\ rst' = FALSE /\ rk' = rk + 1 /\ rres' = Append(rres, <<ToString(i), now>>) /\ UNCHANGED buf
     ELSE IF Len(buf) < cap THEN Done(i, "ok") /\ buf' = Append(buf, i) /\ UNCHANGED <<rk, rst, rres>>
     ELSE IF call[i].lim = 0
       THEN Done(i, IF call[i].m = "try" THEN "full" ELSE "timeout") /\ UNCHANGED <<buf, rk, rst, rres>>
     ELSE st' = [st EXCEPT ![i] = "wait"] /\ UNCHANGED <<res, buf, rk, rst, rres>>
  /\ UNCHANGED <<prog, now, open>>

Expire(i) ==
  /\ st[i] = "wait" /\ call[i].at + call[i].lim = now
  /\ Done(i, "timeout")
  /\ UNCHANGED <<prog, now, open, buf, rk, rst, rres>>

\* The receiver begins to take.
Take ==
  /\ rk <= Len(take) /\ ~rst /\ take[rk][1] = "take" /\ take[rk][2] = now
  /\ IF buf # <<>> THEN
        /\ rres' = Append(rres, <<ToString(Head(buf)), now>>) /\ rk' = rk + 1 /\ UNCHANGED rst
        /\ IF Waiting = {} THEN buf' = Tail(buf) /\ UNCHANGED <<st, res>>
           ELSE \E i \in Waiting : Done(i, "ok") /\ buf' = Append(Tail(buf), i)
     ELSE IF Waiting # {} THEN     \* only where nothing fits into the channel
        \E i \in Waiting : Done(i, "ok") /\ rres' = Append(rres, <<ToString(i), now>>) /\ rk' = rk + 1 /\ UNCHANGED <<buf, rst>>
     ELSE IF take[rk][3] = 0 THEN rres' = Append(rres, <<"empty", now>>) /\ rk' = rk + 1 /\ UNCHANGED <<buf, rst, st, res>>
     ELSE rst' = TRUE /\ UNCHANGED <<buf, rk, rres, st, res>>
  /\ UNCHANGED <<prog, now, open>>

TakeEnds ==
  /\ rst /\ take[rk][2] + take[rk][3] = now
  /\ rst' = FALSE /\ rk' = rk + 1 /\ rres' = Append(rres, <<"empty", now>>)
  /\ UNCHANGED <<prog, now, open, buf, st, res>>

Drop ==
  /\ open
  /\ now = End \/ (rk <= Len(take) /\ take[rk][1] = "drop" /\ take[rk][2] = now)
  /\ open' = FALSE /\ buf' = <<>>
  /\ st' = [i \in Callers |-> IF st[i] = "wait" THEN "done" ELSE st[i]]
  /\ res' = [i \in Callers |-> IF st[i] = "wait" THEN <<"disconnected", now>> ELSE res[i]]
  /\ rk' = Len(take) + 1
  /\ UNCHANGED <<prog, now, rst, rres>>

Due == \/ \E i \in Callers : Call(i) \/ Expire(i)
       \/ Take \/ TakeEnds \/ Drop

Tick == now < End /\ ~ENABLED Due /\ now' = now + 1 /\ UNCHANGED <<prog, open, buf, st, res, rk, rst, rres>>

Next == Due \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(******************************** properties *******************************)
Ids == {ToString(i) : i \in Callers}
Got == {rres[k][1] : k \in 1..Len(rres)} \cap Ids
\* Exactly the accepted messages are delivered, or still in the channel, or lost with the receiver.
Success == \A i \in Callers : (ToString(i) \in Got \/ (\E k \in 1..Len(buf) : buf[k] = i)) => res[i][1] = "ok"
Failure == \A i \in Callers : st[i] = "done" /\ res[i][1] # "ok" => ToString(i) \notin Got
Once == Cardinality(Got) = Len(SelectSeq(rres, LAMBDA r : r[1] \in Ids))
Reason == \A i \in Callers :
  /\ res[i][1] = "timeout" => res[i][2] = call[i].at + call[i].lim /\ call[i].m \in {"timed", "deadline"}
  /\ res[i][1] = "full" => call[i].m = "try" /\ res[i][2] = call[i].at
  /\ res[i][1] = "disconnected" => ~open
  /\ st[i] = "done" => res[i][2] >= call[i].at /\ (call[i].lim < Forever => res[i][2] <= call[i].at + call[i].lim)
Fits == Len(buf) <= cap
Inv == Success /\ Failure /\ Once /\ Reason /\ Fits
Terminates == <>(\A i \in Callers : st[i] = "done")

Finished == now = End /\ ~open
RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN "|" ELSE "") \o s[i] \o Join(s, i + 1)
S(x) == ToString(x)
Emit == Finished =>
  PrintT("@@" \o S(cap) \o "\t" \o S(End) \o "\t"
    \o Join([i \in 1..Len(call) |-> call[i].m \o " " \o S(call[i].at) \o " " \o S(call[i].lim)], 1) \o "\t"
    \o Join([k \in 1..Len(take) |-> take[k][1] \o " " \o S(take[k][2]) \o " " \o S(take[k][3])], 1) \o "\t"
    \o Join([i \in 1..Len(call) |-> res[i][1] \o " " \o S(res[i][2])], 1) \o "\t"
    \o Join([k \in 1..Len(rres) |-> rres[k][1] \o " " \o S(rres[k][2])], 1))

One == 1..1
Two == 1..2
Three == 1..3
AllModes == {"plain", "try", "timed", "deadline"}
Starts1 == <<{0, 3}>>
Starts2 == <<{0}, {1, 4}>>
Starts3 == <<{0}, {1}, {2}>>
Takes1 == {<<"take", 2, 0>>, <<"take", 2, 3>>, <<"take", 1, 0>>, <<"take", 1, 1>>, <<"take", 6, 0>>, <<"take", 6, 2>>, <<"take", 4, 0>>, <<"take", 7, 0>>, <<"drop", 2, 0>>, <<"drop", 5, 0>>, <<"drop", 7, 0>>}
=============================================================================
