----------------------------- MODULE FnMachine -----------------------------
(***************************************************************************)
(* Calls of the supported functions, with every shape of arguments.        *)
(*                                                                         *)
(* A state holds one expression: its text, its type and its value on each  *)
(* row of a small table.  Start calls a function on fields, literals and   *)
(* null(); Nest puts the expression in any position of another call (or    *)
(* operator) that takes its type; Shelve keeps it for a later position.    *)
(* Sem gives the meaning of each function: a value where the calculation   *)
(* is elementary, and otherwise the application T(g, args) of the Spark    *)
(* function g that the documentation of the function names.                *)
(***************************************************************************)
EXTENDS SplExpr, Json, Bitwise

CONSTANTS MaxDepth, AllLeaves, Deep, Sim,
          Direct      \* also the functions that only the runtime library has
\* AllLeaves: every argument of each kind, not only the canonical ones; Deep: nest those calls, too

VARIABLES cur, n, shelf, plain
vars == <<cur, n, shelf, plain>>

Pick(X) == IF Sim THEN (IF X = {} THEN {} ELSE {RandomElement(X)}) ELSE X

-----------------------------------------------------------------------------
(* The table *)
NRows == 6
Ips == << <<10, 1, 2, 3>>, <<192, 168, 0, 7>>, <<10, 0, 0, 200>>, <<172, 16, 9, 1>>, <<10, 0, 0, 3>>, <<192, 168, 77, 1>> >>
IpTxt(o) == JoinStr([k \in 1..4 |-> ToString(o[k])], ".")
Jsons == <<"{\"a\": 1}", "{bad", "[1, 2]", "", "\"x\"", "{\"k\": {\"z\": []}}">>
JsonOk == {Jsons[1], Jsons[3], Jsons[5], Jsons[6]}
ColFn == [
  n1 |-> <<I(3), I(-7), Null, I(0), I(25), I(14)>>,
  n2 |-> <<I(5), I(2), I(1), Null, I(3), I(-1)>>,
  d1 |-> <<D(5, 2), D(-7, 4), D(1, 2), D(9, 4), Null, D(-3, 2)>>,
  i1 |-> <<I(12), I(5), I(0), I(7), Null, I(255)>>,
  i2 |-> <<I(10), I(3), I(6), Null, I(1), I(129)>>,
  i3 |-> <<I(9), Null, I(2), I(4), I(6), I(64)>>,
  s1 |-> <<S("a.b.c"), S(" abc"), S("b-a|b"), Null, S("xABx"), S("a1,2b")>>,
  s2 |-> <<S("b"), S("abc "), S("a%"), S("x.y"), S("ab"), Null>>,
  m1 |-> <<M(<<S("p"), S("q"), S("r")>>), M(<<S("p")>>), M(<<S("q"), S("p")>>), M(<<S("a"), S("b"), S("c"), S("d")>>), M(<<S("z"), S("z")>>), M(<<S("x"), S("y"), S("w")>>)>>,
  m2 |-> <<M(<<S("1"), S("2"), S("3")>>), M(<<S("4")>>), M(<<S("5")>>), M(<<S("6"), S("7"), S("8"), S("9")>>), M(<<S("0"), S("1")>>), M(<<S("3"), S("2")>>)>>,
  u1 |-> <<S("10k"), S("3m"), S("2G"), S("5.5K"), Null, S("0.5g")>>,
  u2 |-> <<S("7kb"), S("12"), S("3.25ms"), S("0x"), S("6m"), Null>>,
  u3 |-> <<S("1,200"), S("12"), S("1,000,000.5"), Null, S("x1"), S("0,5")>>,
  j1 |-> [k \in 1..6 |-> S(Jsons[k])],
  ip |-> [k \in 1..6 |-> S(IpTxt(Ips[k]))],
  k1 |-> <<I(1), I(0), Null, I(1), I(0), I(1)>>,
  k2 |-> <<I(0), I(1), I(1), Null, I(0), I(1)>> ]
Cols == <<"n1", "n2", "d1", "i1", "i2", "i3", "s1", "s2", "m1", "m2", "u1", "u2", "u3", "j1", "ip", "k1", "k2">>

-----------------------------------------------------------------------------
(* Expressions *)
\* an expression: t its text in SPL; in Python, py is a column, ar an argument that stands for it,
\* raw the plain value ("" if it is none); ty its type, v its values, c the functions in it
X(t, ty, v, py, ar, raw) == [t |-> t, ty |-> ty, v |-> v, op |-> FALSE, c |-> {}, py |-> py, ar |-> ar, raw |-> raw]
FldX(c, ty) == X(c, ty, ColFn[c], "F.col('" \o c \o "')", "'" \o c \o "'", "")
LitX(t, ty, v, py) == X(t, ty, [k \in 1..NRows |-> v], "F.lit(" \o py \o ")", IF ty = "s" THEN "F.lit(" \o py \o ")" ELSE py, py)
StrX(s) == LET q == "\"" \o ReplaceAll(ReplaceAll(s, "\\", "\\\\"), "\"", "\\\"") \o "\"" IN LitX(q, "s", S(s), q)
IntX(k) == LitX(ToString(k), "n", I(k), ToString(k))
NullX == [LitX("null()", "0", Null, "None") EXCEPT !.raw = ""]
CondX(c) == LET py == "(F.col('" \o c \o "') == 1)" IN X("(" \o c \o " = 1)", "b", [k \in 1..NRows |-> Cmp("=", ColFn[c][k], I(1))], py, py, "")
BoolX(f, v) == LET py == "functions.eval." \o f \o "()" IN X(f \o "()", "b", [k \in 1..NRows |-> v], py, py, "")

\* the kinds of arguments; the first element of a sequence is the canonical one for that position
NumLeaves == <<FldX("n1", "n"), FldX("n2", "n"), FldX("d1", "n"), IntX(4), IntX(-2), LitX("2.5", "n", D(5, 2), "2.5"), NullX>>
IntLeaves == <<FldX("i1", "n"), FldX("i2", "n"), FldX("i3", "n"), IntX(6), NullX>>
StrLeaves == <<FldX("s1", "s"), FldX("s2", "s"), StrX("ab"), StrX("x. y"), NullX>>
MvLeaves  == <<FldX("m1", "m"), FldX("m2", "m")>>
BoolLeaves == <<CondX("k1"), CondX("k2"), BoolX("true", True3), BoolX("false", False3)>>
StrsOf(q) == [k \in 1..Len(q) |-> StrX(q[k])]
IntsOf(q) == [k \in 1..Len(q) |-> IntX(q[k])]
Leaves ==
  [n |-> NumLeaves, i |-> IntLeaves, s |-> StrLeaves, m |-> MvLeaves, b |-> BoolLeaves,
   pos |-> <<FldX("i1", "n"), FldX("i2", "n"), IntX(8)>>,
   off |-> IntsOf(<<1, 0, 3>>), prec |-> IntsOf(<<1, 0, 2, -1>>), base |-> <<IntX(2), FldX("i1", "n"), IntX(10)>>,
   start |-> IntsOf(<<2, 1, 4, -2, -9>>), length |-> IntsOf(<<2, 1, 0, 9>>),
   ix |-> IntsOf(<<1, 0, 2, 5>>), from |-> IntsOf(<<0, 1, -2, -3>>), upto |-> IntsOf(<<1, 2, -1, -2, 5>>),
   delim |-> StrsOf(<<".", ",", "|", "b", "-", "a.", "^">>), zip |-> StrsOf(<<"-", "", "\"", "\\", ", ">>),
   like |-> StrsOf(<<"a%", "%b%", "_b_", "%.%", "x.y">>) \o <<FldX("s2", "s")>>,
   regex |-> StrsOf(<<"^a", "b", "c$", "[0-9]", "\\.">>), repl |-> StrsOf(<<"X", "", "ab">>),
   chars |-> StrsOf(<<"a", " ", "xb", ".c">>) \o <<FldX("s2", "s")>>,
   fmt |-> StrsOf(<<"%Y", "%H">>),
   cidr |-> StrsOf(<<"10.0.0.0/8", "10.0.0.0/25", "192.168.0.0/16", "172.16.0.0/12", "10.0.0.3/32">>),
   ip |-> <<FldX("ip", "s")>>, json |-> <<FldX("j1", "s"), StrX("{}")>>,
   unit |-> <<FldX("u1", "s"), StrX("7k")>>, unitx |-> <<FldX("u2", "s"), StrX("19 kb"), StrX("19kb")>>,
   commas |-> <<FldX("u3", "s"), StrX("1,2,3")>>,
   \* for the functions of the runtime library alone
   mask |-> StrsOf(<<"255.255.0.0", "0.255.0.255", "255.255.255.248", "0.0.0.0">>), numtxt |-> StrsOf(<<"1f", "101", "-a", "777", "xyz", "0">>) \o <<FldX("s2", "s"), NullX>>,
   radix |-> IntsOf(<<16, 2, 8, 36, 3>>), look |-> StrsOf(<<"hex", "commas", "duration", "binary">>),
   pos2 |-> <<FldX("i1", "n"), FldX("i2", "n"), IntX(86461), IntX(1234567), NullX>>, pf |-> StrsOf(<<"%s-%s", "%d%%">>)]
\* the type of nested expressions each kind takes; "" for none
NestTy == [n |-> {"n"}, i |-> {}, s |-> {"s"}, m |-> {"m"}, b |-> {"b"}, z |-> {"n", "z"}, w |-> {"s", "z"}, a |-> {"n", "s", "z", "m", "b"}]
Takes(kd, ty) == kd \in DOMAIN NestTy /\ ty \in NestTy[kd]
LeafOf(kd, j) ==
  LET q == CASE kd \in {"z", "a"} -> Leaves["n"] [] kd = "w" -> Leaves["s"] [] OTHER -> Leaves[kd]
      same == kd \in {"n", "i", "s", "m", "b", "z", "w", "pos"}
  IN IF same THEN (IF j <= Len(q) /\ q[j].t # "null()" THEN q[j] ELSE q[1]) ELSE q[1]
LeafSet(kd) == Range(CASE kd = "z" -> Leaves["n"] [] kd = "a" -> Leaves["n"] \o Leaves["s"] [] kd = "w" -> Leaves["s"] [] OTHER -> Leaves[kd])

G(f, ks, r) == [f |-> f, k |-> ks, r |-> r]
Rep(kd, m) == [j \in 1..m |-> kd]
Sigs ==
  {G(f, Rep("i", m), "i") : f \in {"bit_and", "bit_or", "bit_xor"}, m \in 2..4}
  \cup {G("bit_not", <<"i">>, "i"), G("bit_shift_left", <<"i", "off">>, "i"), G("bit_shift_right", <<"i", "off">>, "i")}
  \cup {G("if", <<"b", kd, kd>>, kd) : kd \in {"n", "s", "b", "m"}}
  \cup {G(f, FlatQ([j \in 1..m |-> <<"b", kd>>]), kd) : f \in {"case", "validate"}, m \in 1..3, kd \in {"n", "s"}}
  \cup {G("coalesce", Rep(kd, m), kd) : m \in 1..4, kd \in {"n", "s"}}
  \cup {G("nullif", <<kd, kd>>, kd) : kd \in {"n", "s"}}
  \cup {G("in", Rep(kd, m), "b") : m \in 2..4, kd \in {"n", "s"}}
  \cup {G("cidrmatch", <<"cidr", "ip">>, "b"), G("like", <<"s", "like">>, "b"), G("match", <<"s", "regex">>, "b"),
        G("isnull", <<"a">>, "b"), G("isnotnull", <<"a">>, "b"), G("null", <<>>, "n"), G("true", <<>>, "b"), G("false", <<>>, "b"),
        G("tonumber", <<"s">>, "n"), G("tonumber", <<"n">>, "n"), G("tostring", <<"n">>, "s"), G("tostring", <<"s">>, "s"), G("tostring", <<"b">>, "s"),
        G("md5", <<"w">>, "z"), G("sha1", <<"w">>, "z"), G("sha256", <<"w">>, "z"), G("sha512", <<"w">>, "z"),
        G("now", <<>>, "z"), G("time", <<>>, "z"), G("strftime", <<"z", "fmt">>, "z"), G("strptime", <<"w", "fmt">>, "z"),
        G("json_keys", <<"json">>, "z"), G("json_valid", <<"json">>, "b"),
        G("abs", <<"n">>, "n"), G("ceiling", <<"n">>, "n"), G("floor", <<"n">>, "n"), G("exact", <<"n">>, "n"),
        G("exp", <<"z">>, "z"), G("ln", <<"z">>, "z"), G("log", <<"z">>, "z"), G("log", <<"z", "base">>, "z"), G("log", <<"z", "z">>, "z"),
        G("pi", <<>>, "z"), G("pow", <<"n", "off">>, "n"), G("pow", <<"n", "n">>, "z"), G("pow", <<"z", "z">>, "z"),
        G("round", <<"n">>, "n"), G("round", <<"n", "prec">>, "n"), G("sqrt", <<"z">>, "z"),
        G("mvcount", <<"m">>, "n"), G("mvindex", <<"m", "ix">>, "s"), G("mvindex", <<"m", "from", "upto">>, "m"),
        G("mvzip", <<"m", "m">>, "m"), G("mvzip", <<"m", "m", "zip">>, "m"), G("split", <<"s", "delim">>, "m"),
        G("len", <<"s">>, "n"), G("lower", <<"s">>, "s"), G("upper", <<"s">>, "s"),
        G("replace", <<"s", "regex", "repl">>, "s"), G("substr", <<"s", "start", "length">>, "s"), G("substr", <<"s", "start">>, "s"),
        G("urldecode", <<"w">>, "z"), G("memk", <<"unit">>, "n"), G("rmunit", <<"unitx">>, "n"), G("rmcomma", <<"commas">>, "n")}
  \cup {G(f, Rep("m", m), "m") : f \in {"mvappend"}, m \in 1..3}
  \cup {G(f, Rep("n", m), "n") : f \in {"sum", "avg", "max", "min"}, m \in 1..4}
  \cup {G(f, Rep("s", m), "s") : f \in {"max", "min"}, m \in 2..2}
  \cup {G(f, <<"s">>, "s") : f \in {"ltrim", "rtrim", "trim"}} \cup {G(f, <<"s", "chars">>, "s") : f \in {"ltrim", "rtrim", "trim"}}
  \cup {G(f, <<"z">>, "z") : f \in {"acos", "acosh", "asin", "asinh", "atan", "atanh", "cos", "cosh", "sin", "sinh", "tan", "tanh"}}
  \cup {G(f, <<"z", "z">>, "z") : f \in {"atan2", "hypot"}}
  \cup (IF ~Direct THEN {} ELSE
        {G("ipmask", <<"mask", "ip">>, "s"), G("tonumber", <<"numtxt", "radix">>, "n"), G("tostring", <<"pos2", "look">>, "s"),
         G("printf", <<"pf", "n", "s">>, "z"), G("printf", <<"pf", "n">>, "z")})
Infix == {"+", "-", "*", "/", ".", "=", "<", ">=", "AND", "OR"}
OpSigs == {G(f, <<"n", "n">>, "n") : f \in {"+", "-", "*", "/"}} \cup {G(f, <<"n", "n">>, "b") : f \in {"=", "<", ">="}}
          \cup {G(".", <<"s", "s">>, "s"), G("=", <<"s", "s">>, "b"), G("AND", <<"b", "b">>, "b"), G("OR", <<"b", "b">>, "b"), G("NOT", <<"b">>, "b")}
AllFns == {g.f : g \in Sigs}
Arities(f) == {Len(g.k) : g \in {h \in Sigs : h.f = f}}

-----------------------------------------------------------------------------
(* Meanings *)
RECURSIVE LikeM(_, _)
LikeM(s, p) ==
  IF Len(p) = 0 THEN Len(s) = 0
  ELSE LET c == SubSeq(p, 1, 1)  q == SubSeq(p, 2, Len(p)) IN
       IF c = "%" THEN LikeM(s, q) \/ (Len(s) > 0 /\ LikeM(SubSeq(s, 2, Len(s)), p))
       ELSE Len(s) > 0 /\ (c = "_" \/ c = SubSeq(s, 1, 1)) /\ LikeM(SubSeq(s, 2, Len(s)), q)
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasDigit(s) == \E k \in 1..Len(s) : IsDigit(SubSeq(s, k, k))
ReM(s, p) == CASE p = "^a" -> StartsWith(s, "a") [] p = "b" -> Contains(s, "b") [] p = "c$" -> EndsWith(s, "c")
               [] p = "[0-9]" -> HasDigit(s) [] p = "\\." -> Contains(s, ".")
ReR(s, p, r) == CASE p = "^a" -> (IF StartsWith(s, "a") THEN r \o SubSeq(s, 2, Len(s)) ELSE s)
                  [] p = "b" -> ReplaceAll(s, "b", r)
                  [] p = "c$" -> (IF EndsWith(s, "c") THEN SubSeq(s, 1, Len(s) - 1) \o r ELSE s)
                  [] p = "[0-9]" -> Cat([k \in 1..Len(s) |-> IF IsDigit(SubSeq(s, k, k)) THEN r ELSE SubSeq(s, k, k)])
                  [] p = "\\." -> ReplaceAll(s, ".", r)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, d, acc) ==
  IF Len(s) < Len(d) THEN <<acc \o s>>
  ELSE IF StartsWith(s, d) THEN <<acc>> \o SplitAt(SubSeq(s, Len(d) + 1, Len(s)), d, "")
  ELSE SplitAt(SubSeq(s, 2, Len(s)), d, acc \o SubSeq(s, 1, 1))
\* the value of a text in a base
DigitS == Chars("0123456789abcdefghijklmnopqrstuvwxyz")
DigitOf(ch) == IF \E k \in 1..36 : DigitS[k] = Lo(ch) THEN (CHOOSE k \in 1..36 : DigitS[k] = Lo(ch)) - 1 ELSE 99
RECURSIVE RadixVal(_, _)
RadixVal(s, b) == IF Len(s) = 0 THEN 0 ELSE b * RadixVal(SubSeq(s, 1, Len(s) - 1), b) + DigitOf(SubSeq(s, Len(s), Len(s)))
InRadix(s, b) == Len(s) > 0 /\ \A k \in 1..Len(s) : DigitOf(SubSeq(s, k, k)) < b
RadixText(s, b) == LET neg == StartsWith(s, "-")  d == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
                   IN IF Contains(s, " ") THEN Undef ELSE IF ~InRadix(d, b) THEN Null ELSE D(IF neg THEN -RadixVal(d, b) ELSE RadixVal(d, b), 1)
RECURSIVE ToRadix(_, _)
ToRadix(k, b) == IF k < b THEN DigitS[k + 1] ELSE ToRadix(k \div b, b) \o DigitS[(k % b) + 1]
RECURSIVE Commas(_)
Commas(s) == IF Len(s) <= 3 THEN s ELSE Commas(SubSeq(s, 1, Len(s) - 3)) \o "," \o SubSeq(s, Len(s) - 2, Len(s))
Pad2(k) == IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
Looks(k, f) == CASE f = "hex" -> "0x" \o ToUpper(ToRadix(k, 16)) [] f = "binary" -> ToRadix(k, 2) [] f = "commas" -> Commas(ToString(k))
                 [] f = "duration" -> Pad2(k \div 3600) \o ":" \o Pad2((k \div 60) % 60) \o ":" \o Pad2(k % 60)
Masked(ip, m) == LET a == SplitAt(ip, ".", "")  b == SplitAt(m, ".", "") IN JoinStr([k \in 1..4 |-> ToString(NatVal(a[k]) & NatVal(b[k]))], ".")
RECURSIVE TrimL(_, _)
TrimL(s, cs) == IF Len(s) > 0 /\ Contains(cs, SubSeq(s, 1, 1)) THEN TrimL(SubSeq(s, 2, Len(s)), cs) ELSE s
RECURSIVE TrimR(_, _)
TrimR(s, cs) == IF Len(s) > 0 /\ Contains(cs, SubSeq(s, Len(s), Len(s))) THEN TrimR(SubSeq(s, 1, Len(s) - 1), cs) ELSE s
TrimF(f, s, cs) == CASE f = "ltrim" -> TrimL(s, cs) [] f = "rtrim" -> TrimR(s, cs) [] OTHER -> TrimR(TrimL(s, cs), cs)
RECURSIVE Pow(_, _)
Pow(v, e) == IF e = 0 THEN D(1, 1) ELSE Arith("*", v, Pow(v, e - 1))
AsD(v) == IF Is(v, "i") THEN D(v.i, 1) ELSE v
\* half away from zero at p decimals
RoundTo(v, p) ==
  LET k == 10 ^ Abs(p)
      half(a, b) == (2 * a + b) \div (2 * b)         \* a/b rounded, a >= 0
      num == Abs(Num(v))  den == Den(v)
      q == IF p >= 0 THEN half(num * k, den) ELSE half(num, den * k) * k
      sg == IF Num(v) < 0 THEN -1 ELSE 1
  IN IF Is(v, "i") THEN I(sg * (IF p >= 0 THEN num ELSE q)) ELSE IF p >= 0 THEN DR(sg * q, k, FALSE) ELSE D(sg * q, 1)
DropX(v) == IF Is(v, "d") THEN [d |-> v.d] ELSE v
\* the longest numeric prefix of a text with a unit, or Null if it has another form
WordCh == Range(Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
UnitSplit(s) == {k \in 1..Len(s) : ~IsNull(StrNum(SubSeq(s, 1, k))) /\ \A j \in (k + 1)..Len(s) : SubSeq(s, j, j) \in WordCh}
Longest(ks) == CHOOSE k \in ks : \A j \in ks : j <= k
Rmunit(s) == IF UnitSplit(s) = {} THEN Null ELSE AsD(StrNum(SubSeq(s, 1, Longest(UnitSplit(s)))))
Memk(s) == LET u == ToLower(SubSeq(s, Len(s), Len(s)))  x == StrNum(SubSeq(s, 1, Len(s) - 1)) IN
           Arith("*", AsD(x), CASE u = "k" -> D(1, 1) [] u = "m" -> D(1024, 1) [] u = "g" -> D(1048576, 1))
Cidr(c) == LET at == CHOOSE k \in 1..Len(c) : SubSeq(c, k, k) = "/"
               q == SplitAt(SubSeq(c, 1, at - 1), ".", "")
           IN [o |-> [k \in 1..4 |-> NatVal(q[k])], b |-> NatVal(SubSeq(c, at + 1, Len(c)))]
InCidr(x, c) ==
  LET q == SplitAt(x, ".", "")  o == [k \in 1..4 |-> NatVal(q[k])]  r == Cidr(c) IN
  \A k \in 1..4 : LET b == Max2(0, Min2(8, r.b - 8 * (k - 1))) IN o[k] \div (2 ^ (8 - b)) = r.o[k] \div (2 ^ (8 - b))
MvRange(q, a, b) ==
  LET st == IF a >= 0 THEN a + 1 ELSE Len(q) + a + 1
      en == IF b >= 0 THEN b + 1 ELSE Len(q) + b + 1
  IN IF st < 1 \/ st > Len(q) \/ en < st THEN Undef ELSE M(SubSeq(q, st, Min2(en, Len(q))))
SparkName == [json_keys |-> "json_object_keys", urldecode |-> "url_decode", now |-> "current_timestamp", time |-> "current_timestamp"]

Sem(f, v) ==
  LET m == Len(v)
      anyu == \E j \in 1..m : IsUndef(v[j])
      anyn == \E j \in 1..m : IsNull(v[j])
      anyt == \E j \in 1..m : IsTerm(v[j])
      old(g, w) == FnEv(g, [j \in 1..Len(w) |-> Lit(w[j])], <<>>)
      ints == \A j \in 1..m : Is(v[j], "i")
  IN CASE f \in {"if", "case", "validate", "null", "true", "false"} -> old(f, v)
       [] anyu -> Undef
       [] f \in {"isnull", "isnotnull", "coalesce"} -> old(f, v)
       [] f = "=" -> Cmp("=", v[1], v[2])
       [] f \in {"<", ">="} -> Cmp(f, v[1], v[2])
       [] f = "AND" -> And3(v[1], v[2]) [] f = "OR" -> Or3(v[1], v[2]) [] f = "NOT" -> Not3(v[1])
       [] f = "." -> Concat(v[1], v[2])
       [] f \in {"+", "-", "*", "/"} -> Arith(f, v[1], v[2])
       [] f \in {"nullif", "in"} -> old(f, v)
       [] f \in {"max", "min"} -> (IF m = 1 THEN v[1] ELSE old(f, v))
       [] f = "sum" -> FoldL(LAMBDA x, y : Arith("+", x, y), v[1], Tail(v))
       [] f = "avg" -> Arith("/", FoldL(LAMBDA x, y : Arith("+", x, y), v[1], Tail(v)), I(m))
       [] f \in {"now", "time"} -> T("current_timestamp", <<>>)
       [] f = "pi" -> T("pi", <<>>)
       [] f = "sha256" -> T("sha2", <<v[1], I(256)>>)
       [] f = "sha512" -> T("sha2", <<v[1], I(512)>>)
       [] f = "ln" -> T("log", <<v[1]>>)
       [] f = "log" -> T("log", <<IF m = 2 THEN v[2] ELSE I(10), v[1]>>)
       [] f \in {"strftime", "strptime"} -> T(IF f = "strftime" THEN "date_format" ELSE "to_timestamp", <<v[1], S(IF v[2].s = "%Y" THEN "yyyy" ELSE "HH")>>)
       [] f \in {"md5", "sha1", "exp", "sqrt", "acos", "acosh", "asin", "asinh", "atan", "atanh", "atan2", "cos", "cosh", "hypot", "sin", "sinh", "tan", "tanh"}
          -> T(f, v)
       [] f = "printf" -> T("printf", v)
       [] f \in {"json_keys", "urldecode"} -> T(SparkName[f], v)
       [] f = "json_valid" -> B(~IsNull(v[1]) /\ (v[1].s \in JsonOk \/ v[1].s = "{}"))
       [] f = "pow" /\ anyt -> (IF T("pi", <<>>) \in Range(v) THEN Undef ELSE T("pow", v))
       [] anyt -> Undef
       [] anyn -> Null
       [] f = "pow" -> (IF Is(v[2], "i") /\ v[2].i >= 0 /\ v[2].i < 20 THEN Pow(AsD(v[1]), v[2].i) ELSE Undef)
       [] f = "bit_and" -> (IF ints THEN FoldL(LAMBDA x, y : I(x.i & y.i), v[1], Tail(v)) ELSE Undef)
       [] f = "bit_or" -> (IF ints THEN FoldL(LAMBDA x, y : I(x.i | y.i), v[1], Tail(v)) ELSE Undef)
       [] f = "bit_xor" -> (IF ints THEN FoldL(LAMBDA x, y : I(x.i ^^ y.i), v[1], Tail(v)) ELSE Undef)
       [] f = "bit_not" -> (IF ints THEN I(-v[1].i - 1) ELSE Undef)
       [] f = "bit_shift_left" -> (IF ints THEN I(v[1].i * (2 ^ v[2].i)) ELSE Undef)
       [] f = "bit_shift_right" -> (IF ints THEN I(v[1].i \div (2 ^ v[2].i)) ELSE Undef)
       [] f = "cidrmatch" -> B(InCidr(v[2].s, v[1].s))
       [] f = "like" -> B(LikeM(v[1].s, v[2].s))
       [] f = "match" -> B(ReM(v[1].s, v[2].s))
       [] f = "replace" -> S(ReR(v[1].s, v[2].s, v[3].s))
       [] f = "tonumber" /\ m = 2 -> RadixText(v[1].s, v[2].i)
       [] f = "tostring" /\ m = 2 -> S(Looks(v[1].i, v[2].s))
       [] f = "ipmask" -> S(Masked(v[2].s, v[1].s))
       [] f = "tonumber" -> (IF IsStr(v[1]) THEN LET x == StrNum(v[1].s) IN (IF IsNull(x) THEN x ELSE AsD(x)) ELSE AsD(v[1]))
       [] f = "exact" -> AsD(v[1])
       [] f = "tostring" -> (IF IsBool(v[1]) THEN S(IF v[1].b THEN "true" ELSE "false") ELSE TextOf(v[1]))
       [] f = "round" -> (IF Rounded(v[1]) THEN Undef ELSE RoundTo(v[1], IF m = 2 THEN v[2].i ELSE 0))
       [] f = "mvcount" -> I(Len(v[1].m))
       [] f = "mvindex" /\ m = 2 -> (IF v[2].i < Len(v[1].m) THEN v[1].m[v[2].i + 1] ELSE Null)
       [] f = "mvindex" -> MvRange(v[1].m, v[2].i, v[3].i)
       [] f = "mvappend" -> M(FlatQ([j \in 1..m |-> v[j].m]))
       [] f = "mvzip" -> (IF Len(v[1].m) # Len(v[2].m) THEN Undef
                          ELSE M([k \in 1..Len(v[1].m) |-> S(v[1].m[k].s \o (IF m = 3 THEN v[3].s ELSE ",") \o v[2].m[k].s)]))
       [] f = "split" -> M(LET q == SplitAt(v[1].s, v[2].s, "") IN [k \in 1..Len(q) |-> S(q[k])])
       [] f \in {"trim", "ltrim", "rtrim"} -> S(TrimF(f, v[1].s, IF m = 2 THEN v[2].s ELSE " "))
       [] f = "substr" -> old(f, IF m = 3 THEN v ELSE Append(v, I(1000)))
       [] f = "memk" -> DropX(Memk(v[1].s))
       [] f = "rmunit" -> Rmunit(v[1].s)
       [] f = "rmcomma" -> LET x == StrNum(ReplaceAll(v[1].s, ",", "")) IN (IF IsNull(x) THEN x ELSE AsD(x))
       [] OTHER -> old(f, v)

-----------------------------------------------------------------------------
(* Building calls *)
Arg(x) == IF x.op THEN "(" \o x.t \o ")" ELSE x.t
CallTxt(f, q) ==
  IF f \in Infix THEN Arg(q[1]) \o " " \o f \o " " \o Arg(q[2])
  ELSE IF f = "NOT" THEN "NOT " \o Arg(q[1])
  ELSE f \o "(" \o JoinStr([j \in 1..Len(q) |-> q[j].t], ", ") \o ")"
\* The same call in Python: the arguments at some positions are plain values, the others expressions
PyFn(f) == IF f \in {"if", "in", "len", "sum", "max", "min"} THEN f \o "_" ELSE f
PlainArgs(f, m) ==
  CASE f \in {"round", "log", "split", "strftime", "strptime", "trim", "ltrim", "rtrim", "bit_shift_left", "bit_shift_right", "tonumber", "tostring"} -> {2}
    [] f \in {"substr", "mvindex", "replace"} -> {2, 3} [] f = "mvzip" -> {3} [] f = "cidrmatch" -> {1} [] OTHER -> {}
PyArg(f, j, x) == IF j \in PlainArgs(f, 0) THEN x.raw
                  ELSE IF f = "in" /\ j > 1 THEN (IF x.raw # "" THEN x.raw ELSE x.py)
                  ELSE IF j % 2 = 1 \/ x.ar = "" THEN x.py ELSE x.ar
PyTxt(f, q) ==
  IF f \in {"memk", "rmunit", "rmcomma"} \/ \E j \in 1..Len(q) : q[j].py = "" THEN ""
  ELSE IF f \in Infix
  THEN IF f = "." THEN "F.concat(" \o q[1].py \o ", " \o q[2].py \o ")"
       ELSE "(" \o q[1].py \o " " \o (CASE f = "=" -> "==" [] f = "AND" -> "&" [] f = "OR" -> "|" [] OTHER -> f) \o " " \o q[2].py \o ")"
  ELSE IF f = "NOT" THEN "(~" \o q[1].py \o ")"
  ELSE LET as == [j \in 1..Len(q) |-> PyArg(f, j, q[j])]
       IN IF \E j \in 1..Len(q) : as[j] = "" THEN "" ELSE "functions.eval." \o PyFn(f) \o "(" \o JoinStr(as, ", ") \o ")"
ResTy(g) == IF g.r = "i" THEN "n" ELSE g.r
Call(g, q) == [t |-> CallTxt(g.f, q), py |-> PyTxt(g.f, q), ar |-> "", raw |-> "", ty |-> ResTy(g), op |-> g.f \in Infix \cup {"NOT"}, c |-> {g.f} \cup UNION {q[j].c : j \in 1..Len(q)},
               v |-> [r \in 1..NRows |-> Sem(g.f, [j \in 1..Len(q) |-> q[j].v[r]])]]
\* left out is a range of mvindex that begins at the end and ends at the beginning: it is refused
Fine(f, q) == (f = "mvindex" /\ Len(q) = 3) => ~(q[2].v[1].i < 0 /\ q[3].v[1].i >= 0)

None == [t |-> "", ty |-> "", op |-> FALSE, c |-> {}, v |-> <<>>, py |-> "", ar |-> "", raw |-> ""]
Init == cur = None /\ n = 0 /\ shelf = None /\ plain = TRUE

RECURSIVE ArgSeqs(_)
ArgSeqs(ks) == IF Len(ks) = 0 THEN {<<>>} ELSE {<<x>> \o q : x \in Pick(LeafSet(Head(ks))), q \in ArgSeqs(Tail(ks))}
Canon(ks) == [j \in 1..Len(ks) |-> LeafOf(ks[j], j)]
\* at most one argument other than the canonical one when exhaustive and long
Around(ks) == IF Len(ks) <= 2 \/ Sim THEN ArgSeqs(ks)
              ELSE {[Canon(ks) EXCEPT ![j] = x] : j \in 1..Len(ks), x \in UNION {LeafSet(ks[k]) : k \in 1..Len(ks)}} 
FitsKind(ks, q) == \A j \in 1..Len(ks) : q[j] \in LeafSet(ks[j])

Start == /\ cur = None
         /\ \E g \in Pick(Sigs) : LET ks == g.k IN
              \E q \in (IF AllLeaves THEN {w \in Around(ks) : FitsKind(ks, w)} ELSE {Canon(ks)}) :
                /\ Fine(g.f, q)
                /\ cur' = Call(g, q)
                /\ plain' = (q = Canon(ks))
         /\ n' = 1 /\ UNCHANGED shelf

Positions(g, ty) == {j \in 1..Len(g.k) : Takes(g.k[j], ty)}
Usable(ty) == {g \in Sigs \cup OpSigs : Positions(g, ty) # {}}
Nest == /\ cur # None /\ n < MaxDepth /\ (plain \/ Sim \/ Deep)
        /\ \E g \in Pick(Usable(cur.ty)) : \E j \in Pick(Positions(g, cur.ty)) :
             \E others \in (IF Sim THEN ArgSeqs(g.k) ELSE {Canon(g.k)}) :
             LET q0 == [others EXCEPT ![j] = cur]
                 ps == IF shelf = None THEN {} ELSE Positions(g, shelf.ty) \ {j}
                 q1 == IF ps = {} THEN q0 ELSE [q0 EXCEPT ![CHOOSE p \in ps : TRUE] = shelf]
             IN /\ Fine(g.f, q1)
                /\ cur' = Call(g, q1)
                /\ shelf' = IF ps = {} THEN shelf ELSE None
        /\ n' = n + 1 /\ plain' = FALSE

Shelve == /\ Sim /\ cur # None /\ shelf = None /\ n < MaxDepth
          /\ shelf' = cur /\ cur' = None /\ plain' = TRUE /\ n' = n

Next == Start \/ Nest \/ Shelve
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the specification itself must satisfy *)
TypeOK ==
  cur # None => \A r \in 1..NRows : LET v == cur.v[r] IN
    \/ IsNull(v) \/ IsUndef(v)
    \/ (cur.ty = "n" /\ (IsNum(v) \/ IsTerm(v))) \/ (cur.ty = "s" /\ (IsStr(v) \/ IsTerm(v))) \/ (cur.ty = "b" /\ IsBool(v))
    \/ (cur.ty = "m" /\ Is(v, "m")) \/ (cur.ty = "z" /\ (IsTerm(v) \/ IsNum(v)))
\* every function is covered by a call whose value is specified on some row
Emit == cur # None => PrintT("@@" \o ToJson([t |-> cur.t, ty |-> cur.ty, c |-> cur.c, v |-> cur.v, py |-> cur.py]))
EmitBig == (cur # None /\ n >= 3) => Emit

\* the table, and every number of arguments of every function
ArgTxt(f, m) == LET best == CHOOSE g \in Sigs : g.f = f /\ \A h \in Sigs : h.f = f => Len(h.k) <= Len(g.k)
                IN [j \in 1..m |-> IF j <= Len(best.k) THEN LeafOf(best.k[j], j).t ELSE "i2"]
Max(q) == CHOOSE x \in q : \A y \in q : y <= x
Unbounded == {"bit_and", "bit_or", "bit_xor", "coalesce", "in", "mvappend", "sum", "avg", "max", "min", "case", "validate"}
Allowed(f, m) == IF f \in Unbounded THEN m >= (CHOOSE x \in Arities(f) : \A y \in Arities(f) : x <= y) /\ (f \in {"case", "validate"} => m % 2 = 0)
                 ELSE m \in Arities(f)
Aggs1 == {"avg", "dc", "distinct_count", "estdc", "max", "mean", "median", "min", "mode", "range", "stdev", "stdevp", "sum", "sumsq", "var", "varp",
          "first", "last", "list", "values", "earliest", "latest", "earliest_time", "latest_time", "rate", "exactperc25", "percentile90", "upperperc75"}
ArityCases ==
  {[q |-> "eval r=" \o f \o "(" \o JoinStr(ArgTxt(f, m), ", ") \o ")", ok |-> Allowed(f, m), f |-> f] : f \in AllFns, m \in 0..6}
  \cup {[q |-> "stats " \o f \o "(" \o JoinStr([j \in 1..m |-> "n" \o ToString(j)], ", ") \o ") as r", ok |-> (m = 1 \/ (m = 0 /\ f = "count")), f |-> f]
        : f \in Aggs1 \cup {"count"}, m \in 0..3}
EmitData == (cur = None /\ shelf = None) =>
  PrintT("@@" \o ToJson([cols |-> Cols, rows |-> [r \in 1..NRows |-> [j \in 1..Len(Cols) |-> ColFn[Cols[j]][r]]], arity |-> ArityCases]))
=============================================================================
