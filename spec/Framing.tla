-------------------------------- MODULE Framing --------------------------------
(****************************************************************************)
(* The reading side, byte by byte.  A stream of bytes is read one after      *)
(* another; at any point the stream may end.  What has been delivered, and   *)
(* what the end of the stream would mean there, is exported for every        *)
(* position of every stream.                                                 *)
(*                                                                           *)
(* A stream is a sequence of units: one ASCII character, "<XX>" for another  *)
(* byte, or "<c*N>" for N times c.                                            *)
(****************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Plan    \* which streams: "one" (a variant among good frames), "two" (pairs), "pads"

CRLF == <<"\r", "\n">>
Sum(S, n) == [i \in 1..n |-> S[i]]
\* A string with "<..>" units to its units.
RECURSIVE Units(_)
Units(s) ==
  IF s = "" THEN <<>>
  ELSE IF SubSeq(s, 1, 1) = "<"
       THEN LET e == CHOOSE e \in 2..Len(s) : SubSeq(s, e, e) = ">" /\ \A i \in 2..(e - 1) : SubSeq(s, i, i) # ">"
            IN <<SubSeq(s, 1, e)>> \o Units(SubSeq(s, e + 1, Len(s)))
       ELSE <<SubSeq(s, 1, 1)>> \o Units(SubSeq(s, 2, Len(s)))

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
RECURSIVE Value(_)
Value(s) == IF s = "" THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + DigitVal(SubSeq(s, Len(s), Len(s)))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digits[n + 1] ELSE Dec(n \div 10) \o Digits[(n % 10) + 1]

Weight(u) == IF Len(u) > 3 /\ SubSeq(u, 3, 3) = "*" THEN Value(SubSeq(u, 4, Len(u) - 1)) ELSE 1
RECURSIVE Bytes(_)
Bytes(us) == IF us = <<>> THEN 0 ELSE Weight(Head(us)) + Bytes(Tail(us))
RECURSIVE Join(_)
Join(us) == IF us = <<>> THEN "" ELSE Head(us) \o Join(Tail(us))

(****************************** documents **********************************)
Good == <<
  "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":null}",
  "{\"jsonrpc\":\"2.0\",\"method\":\"m\",\"params\":[1]}",
  "{\"id\":\"a\",\"method\":\"q\",\"params\":{\"b\":\"}\"}}",
  "{\"method\":\"<C3><A9><F0><9F><98><80>\",\"params\":0}",
  "{\"id\":-2,\"error\":{\"code\":-1,\"message\":\"Content-Length: 3\\r\\n\\r\\n{}\"}}",
  "{\"method\":\"build/initialized\"}",
  "{\"id\":1,\"method\":\"build/exit\"}",
  "{\"method\":\"build/exit/\"}",
  "{\"method\":\"Build/exit\"}",
  "{\"id\":3,\"result\":\"build/exit\"}" >>
Exits == <<
  "{\"method\":\"build/exit\"}",
  "{\"jsonrpc\":\"2.0\",\"method\":\"build/exit\",\"params\":null}",
  "{\"params\":{},\"method\":\"build\\/exit\"}" >>
Invalid == <<
  "", "null", "1", "\"x\"", "[]", "{}", "true", "nul", "{\"id\":null,\"result\":1}", "{\"id\":1.5,\"result\":1}",
  "{\"id\":2147483648,\"result\":1}", "{\"method\":5}", "{\"id\":1,\"method\":\"build/initialize\"}",
  "{\"method\":\"build/showMessage\",\"params\":{}}", "{\"id\":1,\"result\":1", "{\"id\":1,\"result\":1}}",
  "{\"id\":1,\"result\":1}{\"id\":2,\"result\":1}", "{\"id\":1,\"result\":1},", "{'id':1,'result':1}",
  "{\"id\":1,\"result\":1,}", "{\"id\":1,\"result\":01}", "{\"id\":1,\"result\":NaN}", "{\"id\":1,\"result\":\"\t\"}",
  "{\"id\":1,\"result\":\"\\x\"}", "{\"id\":1,\"result\":\"}", "{\"method\":\"build/exit\"}}", "{\"method\":\"build/exit\"",
  "{\"id\":1,\"result\":\"<FF>\"}", "{\"id\":1,\"result\":\"<C3>\"}", "{\"id\":1,\"result\":\"<C0><80>\"}",
  "{\"id\":1,\"result\":\"<ED><A0><80>\"}", "{\"id\":1,\"result\":\"<F5><80><80><80>\"}", "{\"id\":1,\"result\":\"<E2><82>\"}",
  "<EF><BB><BF>{\"id\":1,\"result\":1}", "{\"method\":\"<FF>\"}", "{\"method\":\"build/exit\",\"x\":\"<80>\"}", "<00>", "{\"id\":1,\"result\":1}<00>" >>
Unclear == << "{\"id\":1,\"result\":\"\\ud800\"}", "{\"id\":1,\"result\":1e999}", "{\"id\":1,\"id\":1,\"result\":1}" >>
\* Blank space around a document is part of neither.
Spaces == <<" ", "\t", "\r\n", "\n", " \r\n\t ">>

Range(s) == {s[i] : i \in 1..Len(s)}
Blank == {" ", "\t", "\r", "\n"}
RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN s
           ELSE IF SubSeq(s, 1, 1) \in Blank THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF SubSeq(s, Len(s), Len(s)) \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1))
           ELSE s
\* Documents with a long string inside are recognised by their ends.
PadHead == "{\"id\":9,\"result\":\""
PadTail == "\"}"
IsPadded(s) == /\ Len(s) > Len(PadHead) + Len(PadTail)
               /\ SubSeq(s, 1, Len(PadHead) + 3) = PadHead \o "<a*"
               /\ SubSeq(s, Len(s) - 2, Len(s)) = ">" \o PadTail
Judge(s) == LET d == Trim(s) IN
            IF d \in Range(Good) \/ IsPadded(d) THEN "good" ELSE IF d \in Range(Exits) THEN "exit"
            ELSE IF d \in Range(Unclear) THEN "any" ELSE "bad"

(******************************* streams ***********************************)
CL(n) == "Content-Length: " \o n \o "\r\n"
CT == "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
\* Header blocks without the blank line, for a body of n bytes.
GoodHeads(n) == << CL(n), CT \o CL(n), CL(n) \o CT, "X: \r\n" \o CL(n), "X: a: b\r\n" \o CL(n) \o "Y: Content-Length: 1\r\n",
  CL(n) \o CL(n), "Content-Length-X: 1\r\n" \o CL(n) \o "X-Content-Length: 2\r\n" >>
OddHeads(n) == <<
  \* no length
  "", CT, "X: " \o n \o "\r\n", "X-Content-Length: " \o n \o "\r\n", "Content-Lengt: " \o n \o "\r\n",
  \* no number, or not that of the body
  CL(""), CL("-1"), CL("-" \o n), CL("abc"), CL(n \o "x"), CL("x" \o n), CL(n \o ".0"), CL("1e1"), CL("0x10"), CL(n \o "," \o n),
  CL(n \o " " \o n), CL(n \o ";"), CL("<D9><A5>"), CL("0"), CL(Dec(Value(n) + 1)), CL(Dec(Value(n) + 2)), CL(Dec(Value(n) - 1)), CL(Dec(Value(n) \div 2)),
  CL(n \o "0"), CL("1000000000"), CL("1000000000000"), CL("9223372036854775807"), CL("9223372036854775808"),
  CL("18446744073709551615"), CL("18446744073709551616"), CL("99999999999999999999999999999999"),
  \* lines which are no header lines
  "Content-Length:" \o n \o "\r\n", "Content-Length " \o n \o "\r\n", "Content-Length\r\n", CL(n) \o "X\r\n", "X\r\n" \o CL(n), CL(n) \o "X:y\r\n",
  "Content-Length: " \o n \o "\n", "Content-Length: " \o n \o "\r", CL(n) \o "X: y\n", CL(n) \o "\n", "Content-Length: " \o n \o "\r\r\n",
  "\r\n" \o CL(n), "\n" \o CL(n), "<FF>" \o CL(n), CL(n) \o "X: <FF>\r\n", "X<80>: y\r\n" \o CL(n),
  CL(n) \o "Content-Length: -1\r\n", "Content-Length: x\r\n" \o CL(n),
  "{\"id\":1,\"result\":1}\r\n",
  \* not for this specification to say
  "content-length: " \o n \o "\r\n", CL("+" \o n), CL("0" \o n), CL(" " \o n), CL(n \o " "), CL("1") \o CL(n), "Content-Length:  " \o n \o "\r\n",
  "X: <C3><A9>\r\n" \o CL(n) >>

Size(body) == Dec(Bytes(Units(body)))
Frames(heads, body) == [i \in 1..Len(heads) |-> heads[i] \o "\r\n" \o body]
Plain(body) == CL(Size(body)) \o "\r\n" \o body
OddFrames == Range(Frames(OddHeads(Size(Good[2])), Good[2]))
             \cup Range(Frames(OddHeads(Size(Exits[1])), Exits[1]))
             \cup {Plain(Invalid[i]) : i \in 1..Len(Invalid)} \cup {Plain(Unclear[i]) : i \in 1..Len(Unclear)}
             \* lengths in characters, or of a part
             \cup {CL(Dec(Bytes(Units(Good[4])) - k)) \o "\r\n" \o Good[4] : k \in 1..4}
FineFrames == Range(Frames(GoodHeads(Size(Good[1])), Good[1])) \cup {Plain(Good[i]) : i \in 1..Len(Good)}
              \cup {Plain(Exits[i]) : i \in 1..Len(Exits)}
              \cup {Plain(Spaces[i] \o Good[2] \o Spaces[j]) : i, j \in 1..Len(Spaces)}
              \cup {Plain(Spaces[i] \o Exits[1]) : i \in 1..Len(Spaces)}
A == Plain(Good[2])
B == Plain(Good[3])
Pads == {7, 4000, 8100, 16000, 65000, 1048000, 5000000}
PadFrame(n) == Plain(PadHead \o "<a*" \o Dec(n) \o ">" \o PadTail)
\* A frame of exactly n bytes, n in the thousands.
Exactly(n) == LET k == Bytes(Units(PadFrame(n))) - n IN PadFrame(n - k)
Boundaries == {8192, 16384, 65536} 
PadFrames == {PadFrame(n) : n \in Pads} \cup {Exactly(b + d) : b \in Boundaries, d \in {-2, -1, 0, 1, 2}}

Streams ==
  CASE Plan = "one" -> {"", "\r", "\n", "\r\n", "C", "{", " "}
                       \cup UNION {{v, A \o v, v \o B, A \o v \o B, A \o B \o v} : v \in OddFrames}
                       \cup UNION {{v \o B, A \o v \o v} : v \in FineFrames}
    [] Plan = "two" -> {v \o w : v \in FineFrames, w \in FineFrames \cup OddFrames}
    [] Plan = "pads" -> UNION {{v, A \o v, v \o B, v \o Plain(Exits[1])} : v \in PadFrames}
                        \* no document, and very deep: at any depth an error, and nothing else
                        \cup UNION {{v, A \o v \o B} : v \in {Plain("{\"id\":1,\"result\":<[*" \o Dec(n) \o ">}") : n \in {100, 130, 5000, 200000}}
                                                          \cup {Plain("<[*" \o Dec(n) \o ">") : n \in {100, 130, 5000, 200000}}}

(****************************** the reader *********************************)
VARIABLES stream,  \* all units which are to come, as the peer has written them
          pos,     \* how many of them have been read
          mode,    \* "line", "body"; "exit", "bad", "any": reading is over
          line, fresh, size, body, got,
          marks    \* what the end of the stream would mean at each position so far
vars == <<stream, pos, mode, line, fresh, size, body, got, marks>>

None == -1
Huge == 100000000
SizeOf(v) ==
  IF v = "" \/ \E i \in 1..Len(v) : ~IsDigit(SubSeq(v, i, i))
  THEN (IF v # "" /\ Trim(v) # "" /\ (SubSeq(v, 1, 1) \in {"+", " ", "\t"} \/ SubSeq(v, Len(v), Len(v)) \in {" ", "\t"})
           /\ LET w == Trim(IF SubSeq(v, 1, 1) = "+" THEN SubSeq(v, 2, Len(v)) ELSE v) IN w # "" /\ \A i \in 1..Len(w) : IsDigit(SubSeq(w, i, i))
        THEN [k |-> "any", n |-> 0] ELSE [k |-> "bad", n |-> 0])
  ELSE IF Len(v) > 1 /\ SubSeq(v, 1, 1) = "0" THEN [k |-> "any", n |-> 0]
  ELSE IF Len(v) > 20 \/ v = "18446744073709551616" THEN [k |-> "bad", n |-> 0]     \* no length of anything
  ELSE [k |-> "ok", n |-> IF Len(v) > 8 THEN Huge ELSE Value(v)]
SplitAt(l) == {i \in 1..(Len(l) - 1) : SubSeq(l, i, i + 1) = ": "}
HasRaw(l) == \E i \in 1..Len(l) : SubSeq(l, i, i) = "<"
\* Units which are not ASCII but may be well-formed UTF-8.
HasUtf(l) == \E i \in 1..Len(l) : i + 3 <= Len(l) /\ SubSeq(l, i, i + 3) \in {"<C3>", "<D9>"}
Lower(n) == n = "content-length"

\* The meaning of a complete header line (with its line feed).
Header(l) ==
  IF Len(l) < 2 \/ SubSeq(l, Len(l) - 1, Len(l)) # "\r\n" THEN [k |-> "bad", n |-> 0]
  ELSE LET h == SubSeq(l, 1, Len(l) - 2) IN
       IF h = "" THEN [k |-> "blank", n |-> 0]
       ELSE IF HasRaw(h) /\ ~HasUtf(h) THEN [k |-> "bad", n |-> 0]
       ELSE IF SplitAt(h) = {} THEN [k |-> "bad", n |-> 0]
       ELSE LET i == CHOOSE i \in SplitAt(h) : \A j \in SplitAt(h) : i <= j
                name == SubSeq(h, 1, i - 1) val == SubSeq(h, i + 2, Len(h))
            IN IF name = "Content-Length" THEN (IF HasUtf(val) THEN [k |-> "bad", n |-> 0] ELSE SizeOf(val))
               ELSE IF Lower(name) \/ name = "" \/ HasUtf(h) THEN [k |-> "any", n |-> 0]
               ELSE [k |-> "other", n |-> 0]

Init == /\ stream \in {Units(s) : s \in Streams}
        /\ pos = 0 /\ mode = "line" /\ line = "" /\ fresh = TRUE /\ size = None /\ body = "" /\ got = <<>>
        /\ marks = "o"

\* Deliver a complete body, or fail.
Complete(text, n) ==
  LET j == Judge(text) IN
  /\ mode' = CASE j = "good" -> "line" [] j = "exit" -> "exit" [] j = "any" -> "any" [] OTHER -> "badbody"
  /\ got' = IF j \in {"good", "exit"} THEN Append(got, [n |-> n, d |-> Trim(text)]) ELSE got
  /\ line' = "" /\ fresh' = TRUE /\ size' = None /\ body' = ""

Line(u) ==
  /\ mode = "line"
  /\ IF u # "\n" THEN line' = line \o u /\ fresh' = FALSE /\ UNCHANGED <<mode, size, body, got>>
     ELSE LET h == Header(line \o u) IN
          CASE h.k = "bad" -> mode' = "bad" /\ UNCHANGED <<line, fresh, size, body, got>>
            [] h.k = "any" -> mode' = "any" /\ UNCHANGED <<line, fresh, size, body, got>>
            [] h.k = "other" -> line' = "" /\ fresh' = FALSE /\ UNCHANGED <<mode, size, body, got>>
            [] h.k = "ok" -> /\ line' = "" /\ fresh' = FALSE
                             /\ size' = (IF size \in {None, h.n} THEN h.n ELSE size)
                             /\ mode' = (IF size \in {None, h.n} THEN mode ELSE "any")
                             /\ UNCHANGED <<body, got>>
            [] h.k = "blank" ->
                 IF size = None THEN mode' = "bad" /\ UNCHANGED <<line, fresh, size, body, got>>
                 ELSE IF size = 0 THEN Complete("", pos + 1)
                 ELSE mode' = "body" /\ line' = "" /\ fresh' = FALSE /\ UNCHANGED <<size, body, got>>

Body(u) ==
  /\ mode = "body"
  /\ IF Weight(u) > size THEN mode' = "any" /\ UNCHANGED <<line, fresh, size, body, got>>   \* cut inside a unit: not explored
     ELSE IF Weight(u) = size THEN Complete(body \o u, pos + 1)
     ELSE body' = body \o u /\ size' = size - Weight(u) /\ UNCHANGED <<mode, line, fresh, got>>

Mark == CASE mode' = "exit" -> "x" [] mode' = "bad" -> "b" [] mode' = "badbody" -> "f" [] mode' = "any" -> "?"
          [] mode' = "line" /\ fresh' -> "o" [] OTHER -> "e"

Read == /\ pos < Len(stream)
        /\ pos' = pos + 1
        /\ LET u == stream[pos + 1] IN
           \/ Line(u) \/ Body(u)
           \/ mode \in {"exit", "bad", "badbody", "any"} /\ UNCHANGED <<mode, line, fresh, size, body, got>>
        /\ marks' = marks \o Mark
        /\ UNCHANGED stream
Next == Read
Spec == Init /\ [][Next]_vars

(****************************** properties *********************************)
\* What was delivered stays delivered, and is well-formed.
Delivered == /\ \A i \in 1..Len(got) : Judge(got[i].d) \in {"good", "exit"}
             /\ \A i \in 1..(Len(got) - 1) : got[i].n < got[i + 1].n /\ Judge(got[i].d) = "good"
             /\ mode = "exit" <=> got # <<>> /\ Judge(got[Len(got)].d) = "exit"
\* Reading can only end well between messages.
Boundary == mode = "line" /\ fresh => pos = 0 \/ (got # <<>> /\ got[Len(got)].n = pos)
\* The bytes between two deliveries are one frame: header, blank line, exactly the announced bytes.
Inv == Delivered /\ Boundary
Grown == Len(got') \in {Len(got), Len(got) + 1} /\ SubSeq(got', 1, Len(got)) = got
Monotone == [][Grown]_vars
Over == mode \in {"exit", "bad", "badbody"} => (mode' = mode /\ got' = got)
Final == [][Over]_vars

RECURSIVE GotText(_, _)
GotText(i, acc) == IF i > Len(got) THEN acc ELSE GotText(i + 1, acc \o "\t" \o Dec(got[i].n) \o "\t" \o got[i].d)
Emit == pos = Len(stream) => PrintT("@@" \o marks \o "\t" \o ToString(stream) \o GotText(1, ""))
=============================================================================
