------------------------------ MODULE Patience ------------------------------
(****************************************************************************)
(* Sessions in time.  Session.tla lets every step take as long as it likes;  *)
(* here steps are instantaneous and only the client and the server's own     *)
(* program are slow, by a schedule: when each message is written, when the   *)
(* client begins to read, when the server begins the handshake and when its  *)
(* loop begins to receive.  The one time limit there is is that of           *)
(* handle_shutdown, and nothing else may depend on the schedule.             *)
(****************************************************************************)
EXTENDS Session, TLC, Json

CONSTANTS
  Limit,     \* the time limit of handle_shutdown, in ticks
  Gaps,      \* how long somebody is slow
  Plan       \* which schedules: "one" slow moment, or "two"

VARIABLES now, sched, sdat,
  endat,     \* when the server's program ended
  closedat   \* when the client closed after all the rest

tvars == <<now, sched, sdat, endat, closedat>>
avars == <<vars, tvars>>

\* Histories which reach every phase.
Full == <<"req", "init", "inited", "req", "note", "shut", "exit">>
Stories == {Full,
  <<"init", "inited", "resp", "req">>,
  <<"init", "inited", "shut">>, <<"init", "inited", "shut", "req">>, <<"init", "inited", "shut", "note", "exit">>,
  <<"note", "shut", "exit">>, <<"init", "note", "inited">>, <<"init">>, <<"init", "inited", "exit">>,
  <<"init", "inited", "req", "exit", "req">>}
  \cup (IF Bytes THEN {<<"init", "inited", "req", "bad">>, <<"init", "bad">>}
      ELSE {<<"req", "shut", "note", "req", "init", "inited", "req", "req", "shut", "exit">>})

AllAt(n, f(_)) == [i \in 1..n |-> f(i)]
Zero(n) == [at |-> AllAt(n, LAMBDA i : 0), read |-> 0, hs |-> 0, loop |-> 0]
OneSlow(n) ==
  {[Zero(n) EXCEPT !.at = AllAt(n, LAMBDA i : IF i >= k THEN g ELSE 0)] : k \in 1..n, g \in Gaps}
  \cup {[Zero(n) EXCEPT !.read = g] : g \in Gaps}
  \cup {[Zero(n) EXCEPT !.hs = g, !.loop = g] : g \in Gaps}
  \cup {[Zero(n) EXCEPT !.loop = g] : g \in Gaps}
TwoSlow(n) ==
  {[Zero(n) EXCEPT !.at = AllAt(n, LAMBDA i : IF i >= k2 THEN g + h ELSE IF i >= k THEN g ELSE 0)] : k \in 1..n, k2 \in 1..n, g \in Gaps, h \in Gaps}
  \cup {[Zero(n) EXCEPT !.at = AllAt(n, LAMBDA i : IF i >= k THEN g ELSE 0), !.loop = h] : k \in 1..n, g \in Gaps, h \in Gaps}
Schedules(n) == IF Plan = "one" THEN OneSlow(n) ELSE TwoSlow(n)

Init == \E s \in Stories, e \in {"late", "eof"} : \E d \in Schedules(Len(s)) :
          InitWith(s, e) /\ now = 0 /\ sched = d /\ sdat = 0 /\ endat = 0 /\ closedat = 0

MayWrite == cw < Len(script) /\ now >= sched.at[cw + 1]
MayRead == now >= sched.read
\* The server's own replies are large in these sessions: none is written before the client reads.
MayPut == wrm.c \notin {"init", "ok"} \/ now >= sched.read

MayHs == sv # "hs1" \/ now >= sched.hs
MayLoop == sv # "loop" \/ now >= sched.loop

Instant ==
  \/ MayWrite /\ ClientWrite
  \/ MayRead /\ ClientRead
  \/ ClientClose
  \/ Reader
  \/ MayHs /\ MayLoop /\ Server
  \/ (MayPut /\ WrWrite) \/ WrFail \/ WrLost \/ WrEnd

Stopped == ~ENABLED Instant

Step == /\ Instant
        /\ sdat' = (IF sv' = "sdwait" /\ sv # "sdwait" THEN now ELSE sdat)
        /\ endat' = (IF sv' = "end" /\ sv # "end" THEN now ELSE endat)
        /\ UNCHANGED <<now, sched, closedat>>

Expired == sv = "sdwait" /\ now >= sdat + Limit
GiveUp ==
  /\ Stopped /\ Expired
  /\ sd' = "err" /\ sv' = "drop"
  /\ UNCHANGED <<cvars, inq, rvars, svm, hs, cb, live, eaten, got, sent, jn, wvars, outq, cread, tvars>>

\* When somebody's time comes which has not come yet.
Upcoming == {x \in (IF cw < Len(script) /\ ~cclosed /\ sv # "end" THEN {sched.at[cw + 1]} ELSE {})
                \cup {sched.read}
                \cup (IF sv = "hs1" THEN {sched.hs} ELSE {})
                \cup (IF sv = "loop" THEN {sched.loop} ELSE {})
                \cup (IF sv = "sdwait" THEN {sdat + Limit} ELSE {}) : x > now}
Coming == Upcoming # {}
\* Time passes while nobody moves, up to the next moment at which somebody may.
Tick == /\ Stopped /\ Coming /\ ~Expired
        /\ now' = (CHOOSE x \in Upcoming : \A y \in Upcoming : x <= y)
        /\ UNCHANGED <<vars, sched, sdat, endat, closedat>>

LastClose == /\ Stopped /\ ~Coming /\ ending = "late" /\ sv \notin {"end", "sdwait"} /\ Close
             /\ closedat' = now /\ UNCHANGED <<now, sched, sdat, endat>>

TNext == Step \/ GiveUp \/ Tick \/ LastClose
Spec == Init /\ [][TNext]_avars /\ WF_avars(TNext)

(* What the schedule cannot change: but for the shutdown, the same as without it. *)
NoGiveUp == sd = "err" /\ sv = "end" => \/ now >= sdat + Limit
                                        \/ eaten # <<>> /\ Kind(eaten[Len(eaten)]) # "exit"
                                        \/ InGone
InTime == sd = "done" => sdat + Limit > sched.at[Len(eaten)] \/ sched.at[Len(eaten)] <= sdat
HandshakeAnyway == sv = "end" /\ HandshakeOk => hs = "ok"

Terminal == sv = "end" /\ outq = <<>> /\ wr = "done" /\ rd = "done"
Outcome == [s |-> script, e |-> ending, hs |-> hs, cb |-> cb, sd |-> sd, got |-> got, rep |-> cread, jn |-> jn,
            closed |-> cclosed, d |-> sched, end |-> endat, close |-> closedat]
Emit == Terminal => PrintT("@@" \o ToJson(Outcome))
=============================================================================
