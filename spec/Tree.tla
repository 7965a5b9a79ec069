--------------------------------- MODULE Tree ---------------------------------
(****************************************************************************)
(* JSON documents as uniform records, their text, and generic one-point      *)
(* mutations.  A leaf's text may be a token "$C:path": the conformance       *)
(* harness replaces every token by a concrete value of class C, the same one *)
(* wherever the same token occurs:                                           *)
(*   S any string   N non-empty string   U url   J any non-null JSON         *)
(*   I any 32-bit integer   V u32   W u64/usize   K id (integer or string)   *)
(*   M custom method name   L array of strings, any length   P not empty     *)
(* In an expected document three marks stand for what is not determined:     *)
(*   "$?"  the member is absent or null                                      *)
(*   "$?E" the member is absent, or is the empty string                      *)
(*   "$?A" the member is absent, or is the empty array                       *)
(****************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Node(k, v, m, e) == [k |-> k, v |-> v, m |-> m, e |-> e]
Null    == Node("null", "null", <<>>, <<>>)
Bool(b) == Node("bool", IF b THEN "true" ELSE "false", <<>>, <<>>)
Num(t)  == Node("num", t, <<>>, <<>>)        \* t: the literal's text, or a token
Str(t)  == Node("str", t, <<>>, <<>>)        \* t: JSON string content (already escaped), or a token
Raw(t)  == Node("raw", t, <<>>, <<>>)        \* token of class J or K or L
Obj(ms) == Node("obj", "", ms, <<>>)         \* ms: sequence of [n |-> name, t |-> tree]
Arr(es) == Node("arr", "", <<>>, es)
Mem(n, t) == [n |-> n, t |-> t]

Q(s) == "\"" \o s \o "\""
IsTok(s) == Len(s) > 2 /\ SubSeq(s, 1, 1) = "$"
TokClass(s) == SubSeq(s, 2, 2)
Tok(c, p) == "$" \o c \o ":" \o p

RECURSIVE Text(_)
RECURSIVE JoinM(_, _)
RECURSIVE JoinE(_, _)
JoinM(ms, i) == IF i > Len(ms) THEN ""
                ELSE Q(ms[i].n) \o ":" \o Text(ms[i].t)
                     \o (IF i < Len(ms) THEN "," ELSE "") \o JoinM(ms, i + 1)
JoinE(es, i) == IF i > Len(es) THEN ""
                ELSE Text(es[i]) \o (IF i < Len(es) THEN "," ELSE "") \o JoinE(es, i + 1)
Text(t) == CASE t.k = "obj" -> "{" \o JoinM(t.m, 1) \o "}"
             [] t.k = "arr" -> "[" \o JoinE(t.e, 1) \o "]"
             [] t.k \in {"null", "bool"} -> t.v
             [] t.k = "num" -> IF IsTok(t.v) THEN Q(t.v) ELSE t.v
             [] OTHER -> Q(t.v)

(* Lookup in an object. *)
Has(t, n) == \E i \in 1..Len(t.m) : t.m[i].n = n
Get(t, n) == t.m[CHOOSE i \in 1..Len(t.m) : t.m[i].n = n].t
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Names(t) == {t.m[i].n : i \in 1..Len(t.m)}

(* Number literals used by mutations and what integer types they fit. *)
NumTypes(v) ==
  CASE v \in {"0", "1", "2", "3", "4", "5", "7"} -> {"i32", "u32", "u64"}
    [] v \in {"255", "256", "257", "65537", "2147483647"} -> {"i32", "u32", "u64"}
    [] v \in {"-1", "-2147483648", "-32700", "-32600", "-32601", "-32602", "-32603", "-32099", "-32000",
               "-32002", "-32800", "-32801", "-32802"} -> {"i32"}
    [] v \in {"2147483648", "4294967295"} -> {"u32", "u64"}
    [] v \in {"4294967296", "4294967297", "1650000000000", "9007199254740993", "18446744073709551615"} -> {"u64"}
    [] IsTok(v) /\ TokClass(v) = "I" -> {"i32"}
    [] IsTok(v) /\ TokClass(v) = "V" -> {"u32", "u64"}
    [] IsTok(v) /\ TokClass(v) = "W" -> {"u64"}
    [] OTHER -> {}                            \* 1.5, -2147483649, 18446744073709551616, ...

(* Mutations: an operation applied at a site, a path of member/element        *)
(* positions from the root.                                                  *)
Replacements == [
  null |-> Null, true |-> Bool(TRUE), n1 |-> Num("1"), neg |-> Num("-1"), frac |-> Num("1.5"),
  s0 |-> Str(""), s1 |-> Str("1"), snope |-> Str("nope"), arr |-> Arr(<<>>), obj |-> Obj(<<>>),
  n0 |-> Num("0"), n2 |-> Num("2"), n3 |-> Num("3"), n4 |-> Num("4"), n5 |-> Num("5"),
  n257 |-> Num("257"), n65537 |-> Num("65537"), i32max |-> Num("2147483647"), i32maxp |-> Num("2147483648"),
  i32min |-> Num("-2147483648"), i32minm |-> Num("-2147483649"), u32max |-> Num("4294967295"),
  u32maxp |-> Num("4294967296"), u32maxpp |-> Num("4294967297"), f53 |-> Num("9007199254740993"),
  u64max |-> Num("18446744073709551615"), u64maxp |-> Num("18446744073709551616")]
Scalars == {"null", "true", "n1", "neg", "frac", "s0", "s1", "snope", "arr", "obj"}
Numbers == DOMAIN Replacements \ Scalars
\* Values of every shape, where any JSON may stand.
Shapes == [
  jfalse |-> Bool(FALSE), jarr1 |-> Arr(<<Null>>), jarr2 |-> Arr(<<Arr(<<>>)>>), jarr3 |-> Arr(<<Obj(<<>>), Null, Num("0")>>),
  jobj1 |-> Obj(<<Mem("a", Null)>>), jobj2 |-> Obj(<<Mem("", Obj(<<>>))>>), jobj3 |-> Obj(<<Mem("id", Num("1")), Mem("method", Str("build/exit"))>>),
  jobj4 |-> Obj(<<Mem("jsonrpc", Str("2.0")), Mem("error", Null), Mem("result", Null)>>),
  jnum1 |-> Num("-0.5"), jnum2 |-> Num("1e300"), jstr1 |-> Str("\\u0000"), jstr2 |-> Str("{}"), jstr3 |-> Str(" ")]
AnyJson(t) == t.k = "raw" /\ TokClass(t.v) = "J"
UnknownMembers == [
  u1 |-> Mem("zz", Num("1")), u2 |-> Mem("zz", Null), u3 |-> Mem("Id", Str("x")),
  u4 |-> Mem("zz", Obj(<<Mem("target", Arr(<<Null, Str("}")>>))>>)),
  u5 |-> Mem("", Arr(<<Arr(<<>>), Obj(<<>>)>>))]
Front == [f1 |-> "u1", f2 |-> "u2", f3 |-> "u3", f4 |-> "u4", f5 |-> "u5"]

Kids(t) == IF t.k = "obj" THEN [i \in 1..Len(t.m) |-> t.m[i].t] ELSE t.e
WithKid(t, i, x) == IF t.k = "obj" THEN [t EXCEPT !.m[i].t = x] ELSE [t EXCEPT !.e[i] = x]

RECURSIVE Sites(_)
Sites(t) == {<<>>} \cup UNION {{<<i>> \o p : p \in Sites(Kids(t)[i])} : i \in 1..Len(Kids(t))}
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(Kids(t)[p[1]], Tail(p))

\* Everything one may do at a node; "dropN": leave its Nth child out.
Drops == <<"drop1", "drop2", "drop3", "drop4", "drop5", "drop6", "drop7", "drop8", "drop9", "drop10">>
DropOps(t) == {Drops[i] : i \in 1..Len(Kids(t))}
Ops(t) == Scalars \cup (IF AnyJson(t) THEN DOMAIN Shapes ELSE {}) \cup (IF t.k \in {"num", "raw"} THEN Numbers ELSE {}) \cup DropOps(t)
          \cup (IF t.k = "obj" THEN {"rev"} \cup DOMAIN UnknownMembers \cup DOMAIN Front ELSE {})
          \cup (IF t.k = "arr" THEN {"twice"} ELSE {})
\* Those which only concern members being there, null, or many.
SoftOps(t) == {"null"} \cup DropOps(t) \cup (IF t.k = "obj" THEN {"rev", "u4"} ELSE {})
              \cup (IF t.k = "arr" THEN {"arr"} ELSE {})

Do(t, op) ==
  CASE op \in DOMAIN Replacements -> Replacements[op]
    [] op \in DOMAIN Shapes -> Shapes[op]
    [] op = "rev" -> Obj(Rev(t.m))
    [] op = "twice" -> Arr(t.e \o t.e)
    [] op \in DOMAIN UnknownMembers -> Obj(t.m \o <<UnknownMembers[op]>>)
    [] op \in DOMAIN Front -> Obj(<<UnknownMembers[Front[op]]>> \o t.m)
    [] OTHER -> LET i == CHOOSE i \in 1..10 : Drops[i] = op
                IN IF t.k = "obj" THEN Obj(Without(t.m, i)) ELSE Arr(Without(t.e, i))

RECURSIVE Apply(_, _, _)
Apply(t, p, op) == IF p = <<>> THEN Do(t, op)
                   ELSE WithKid(t, p[1], Apply(Kids(t)[p[1]], Tail(p), op))
=============================================================================
