----------------------------- MODULE SplValues -----------------------------
(***************************************************************************)
(* Values of the SPL/Spark data model and the operations on them.          *)
(*                                                                         *)
(*   [n |-> 0]            null                                             *)
(*   [i |-> 3]            integer                                          *)
(*   [d |-> <<1, 2>>]     double, a normalised rational num/den            *)
(*   [s |-> "x"]          string                                           *)
(*   [b |-> TRUE]         boolean                                          *)
(*   [m |-> <<..>>]       multivalue (array)                               *)
(*   [t |-> "f", a |-> <<..>>]  an uninterpreted function application      *)
(*   [u |-> 0]            unspecified: the specification says nothing      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null    == [n |-> 0]
Undef   == [u |-> 0]
I(k)    == [i |-> k]
S(x)    == [s |-> x]
B(x)    == [b |-> x]
M(q)    == [m |-> q]
T(f, q) == [t |-> f, a |-> q]

Is(v, tag) == tag \in DOMAIN v
IsNull(v)  == Is(v, "n")
IsUndef(v) == Is(v, "u")
IsNum(v)   == Is(v, "i") \/ Is(v, "d")
IsStr(v)   == Is(v, "s")
IsBool(v)  == Is(v, "b")
IsTerm(v)  == Is(v, "t")

-----------------------------------------------------------------------------
(* Strings *)
Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]

RECURSIVE Cat(_)
Cat(q) == IF Len(q) = 0 THEN "" ELSE Head(q) \o Cat(Tail(q))

RECURSIVE JoinStr(_, _)
JoinStr(q, sep) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1]
                   ELSE q[1] \o sep \o JoinStr(Tail(q), sep)

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PrintableChars == Chars(Printable)
OrdFn == [c \in {PrintableChars[k] : k \in 1..Len(PrintableChars)} |->
            CHOOSE k \in 1..Len(PrintableChars) : PrintableChars[k] = c]
Ord(c) == IF c \in DOMAIN OrdFn THEN OrdFn[c] ELSE 1000

RECURSIVE StrLess(_, _)
StrLess(x, y) ==
  IF Len(y) = 0 THEN FALSE
  ELSE IF Len(x) = 0 THEN TRUE
  ELSE LET a == SubSeq(x, 1, 1)  b == SubSeq(y, 1, 1)
       IN IF a = b THEN StrLess(SubSeq(x, 2, Len(x)), SubSeq(y, 2, Len(y)))
          ELSE Ord(a) < Ord(b)

UpperS == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LowerS == Chars("abcdefghijklmnopqrstuvwxyz")
Lo(c) == IF \E k \in 1..26 : UpperS[k] = c THEN LowerS[CHOOSE k \in 1..26 : UpperS[k] = c] ELSE c
Up(c) == IF \E k \in 1..26 : LowerS[k] = c THEN UpperS[CHOOSE k \in 1..26 : LowerS[k] = c] ELSE c
ToLower(s) == Cat([k \in 1..Len(s) |-> Lo(SubSeq(s, k, k))])
ToUpper(s) == Cat([k \in 1..Len(s) |-> Up(SubSeq(s, k, k))])

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p

RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(s, p, r) ==
  IF Len(p) = 0 \/ Len(s) < Len(p) THEN s
  ELSE IF StartsWith(s, p) THEN r \o ReplaceAll(SubSeq(s, Len(p) + 1, Len(s)), p, r)
  ELSE SubSeq(s, 1, 1) \o ReplaceAll(SubSeq(s, 2, Len(s)), p, r)

(* glob: star matches any run of characters *)
RECURSIVE Glob(_, _)
Glob(s, p) ==
  IF Len(p) = 0 THEN Len(s) = 0
  ELSE IF SubSeq(p, 1, 1) = "*"
       THEN \/ Glob(s, SubSeq(p, 2, Len(p)))
            \/ (Len(s) > 0 /\ Glob(SubSeq(s, 2, Len(s)), p))
       ELSE Len(s) > 0 /\ SubSeq(s, 1, 1) = SubSeq(p, 1, 1)
            /\ Glob(SubSeq(s, 2, Len(s)), SubSeq(p, 2, Len(p)))

Digits == Chars("0123456789")
IsDigit(c) == \E k \in 1..10 : Digits[k] = c
DigitVal(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1
AllDigits(s) == Len(s) > 0 /\ \A k \in 1..Len(s) : IsDigit(SubSeq(s, k, k))
RECURSIVE NatVal(_)
NatVal(s) == IF Len(s) = 0 THEN 0 ELSE NatVal(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal(SubSeq(s, Len(s), Len(s)))

-----------------------------------------------------------------------------
(* Rationals *)
Abs(k) == IF k < 0 THEN -k ELSE k
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
D(n, d) == LET sgn == IF d < 0 THEN -1 ELSE 1
               g == LET gg == Gcd(Abs(n), Abs(d)) IN IF gg = 0 THEN 1 ELSE gg
           IN [d |-> << (sgn * n) \div g, (sgn * d) \div g >>]
\* doubles whose binary value may be rounded carry a mark x: their text and exact equality are unspecified
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Rounded(v) == Is(v, "x")
DR(n, d, rounded) == LET v == D(n, d) IN IF rounded \/ v.d[2] \notin Pow2 THEN [d |-> v.d, x |-> 1] ELSE v
Num(v) == IF Is(v, "i") THEN v.i ELSE v.d[1]
Den(v) == IF Is(v, "i") THEN 1 ELSE v.d[2]

\* text of an integer or of a double with a terminating decimal expansion
RECURSIVE Frac(_, _, _)
Frac(r, d, k) == IF r = 0 \/ k = 0 THEN "" ELSE ToString((r * 10) \div d) \o Frac((r * 10) % d, d, k - 1)
NumText(v) ==
  IF Is(v, "i") THEN ToString(v.i)
  ELSE LET a == Abs(v.d[1])  d == v.d[2]  f == Frac(a % d, d, 9)
       IN (IF v.d[1] < 0 THEN "-" ELSE "") \o ToString(a \div d) \o "." \o (IF f = "" THEN "0" ELSE f)
Terminating(v) == Is(v, "i") \/ v.d[2] \in {1, 2, 4, 5, 8, 10, 16, 20, 25, 40, 50, 100}

\* a decimal number written in a string, or Null
StrNum(s) ==
  LET neg == StartsWith(s, "-")
      t   == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      sg  == IF neg THEN -1 ELSE 1
  IN IF AllDigits(t) THEN I(sg * NatVal(t))
     ELSE IF \E k \in 2..(Len(t) - 1) : /\ SubSeq(t, k, k) = "." /\ AllDigits(SubSeq(t, 1, k - 1))
                                        /\ AllDigits(SubSeq(t, k + 1, Len(t)))
          THEN LET k == CHOOSE k \in 2..(Len(t) - 1) : SubSeq(t, k, k) = "."
                   w == NatVal(SubSeq(t, 1, k - 1))  f == SubSeq(t, k + 1, Len(t))
                   p == 10 ^ Len(f)
               IN D(sg * (w * p + NatVal(f)), p)
          ELSE Null

ToNum(v) == IF IsNum(v) \/ IsNull(v) \/ IsUndef(v) THEN v ELSE IF IsStr(v) THEN StrNum(v.s) ELSE Undef

-----------------------------------------------------------------------------
(* Three-valued logic; a condition is B(TRUE), B(FALSE), Null, or Undef *)
True3 == B(TRUE)
False3 == B(FALSE)
Not3(x) == IF IsNull(x) \/ IsUndef(x) THEN x ELSE IF IsBool(x) THEN B(~x.b) ELSE Undef
And3(x, y) ==
  IF x = False3 \/ y = False3 THEN (IF IsUndef(x) \/ IsUndef(y) THEN Undef ELSE False3)
  ELSE IF IsUndef(x) \/ IsUndef(y) THEN Undef
  ELSE IF IsNull(x) \/ IsNull(y) THEN Null ELSE IF IsBool(x) /\ IsBool(y) THEN True3 ELSE Undef
Or3(x, y) == Not3(And3(Not3(x), Not3(y)))

(* Comparison: null is unknown, numbers compare as numbers (also with text). *)
NumCmp(op, x, y) ==
  LET l == Num(x) * Den(y)  r == Num(y) * Den(x)
  IN IF l = r /\ (Rounded(x) \/ Rounded(y)) THEN Undef
     ELSE B(CASE op = "=" -> l = r [] op = "!=" -> l # r [] op = "<" -> l < r
         [] op = "<=" -> l <= r [] op = ">" -> l > r [] op = ">=" -> l >= r)
StrCmp(op, x, y) ==
  B(CASE op = "=" -> x = y [] op = "!=" -> x # y [] op = "<" -> StrLess(x, y)
      [] op = "<=" -> ~StrLess(y, x) [] op = ">" -> StrLess(y, x) [] op = ">=" -> ~StrLess(x, y))
Cmp(op, x, y) ==
  IF IsUndef(x) \/ IsUndef(y) THEN Undef
  ELSE IF IsNull(x) \/ IsNull(y) THEN Null
  ELSE IF IsStr(x) /\ IsStr(y) THEN StrCmp(op, x.s, y.s)
  ELSE IF IsNum(x) /\ IsNum(y) THEN NumCmp(op, x, y)
  ELSE IF (IsNum(x) /\ IsStr(y)) \/ (IsStr(x) /\ IsNum(y))
       THEN LET a == ToNum(x)  b == ToNum(y)
            IN IF IsNull(a) \/ IsNull(b) THEN Null ELSE NumCmp(op, a, b)
  ELSE IF IsBool(x) /\ IsBool(y) /\ op \in {"=", "!="} THEN B(IF op = "=" THEN x.b = y.b ELSE x.b # y.b)
  ELSE Undef

(* Arithmetic; results too large for TLC's integers are left unspecified *)
Small(v) == IF Abs(Num(v)) > 20000 \/ Den(v) > 5000 THEN Undef ELSE v
Arith(op, x0, y0) ==
  IF IsTerm(x0) \/ IsTerm(y0) THEN (IF IsUndef(x0) \/ IsUndef(y0) THEN Undef ELSE T(op, <<x0, y0>>)) ELSE
  LET x == ToNum(x0)  y == ToNum(y0) IN
  IF IsUndef(x) \/ IsUndef(y) THEN Undef
  ELSE IF IsNull(x) \/ IsNull(y) THEN Null
  ELSE LET ints == Is(x, "i") /\ Is(y, "i")
           mk0(n, d) == IF ints THEN I(n) ELSE DR(n, d, Rounded(x) \/ Rounded(y))
           mk(n, d) == Small(mk0(n, d))
       IN CASE op = "+" -> mk(Num(x) * Den(y) + Num(y) * Den(x), Den(x) * Den(y))
            [] op = "-" -> mk(Num(x) * Den(y) - Num(y) * Den(x), Den(x) * Den(y))
            [] op = "*" -> mk(Num(x) * Num(y), Den(x) * Den(y))
            [] op = "/" -> IF Num(y) = 0 THEN Null ELSE Small(DR(Num(x) * Den(y), Den(x) * Num(y), Rounded(x) \/ Rounded(y)))

(* String concatenation: null if either side is null *)
TextOf(v) == IF IsStr(v) THEN v ELSE IF IsNum(v) /\ Terminating(v) /\ ~Rounded(v) /\ (Is(v, "i") \/ Num(v) # 0) THEN S(NumText(v)) ELSE Undef
Concat(x, y) ==
  IF IsUndef(x) \/ IsUndef(y) THEN Undef
  ELSE IF IsNull(x) \/ IsNull(y) THEN Null
  ELSE LET a == TextOf(x)  b == TextOf(y)
       IN IF IsUndef(a) \/ IsUndef(b) THEN Undef ELSE S(a.s \o b.s)

(* Order used by sort: null first when ascending, numbers before text *)
Rank(v) == IF IsNull(v) THEN 0 ELSE IF IsBool(v) THEN 1 ELSE IF IsNum(v) THEN 2 ELSE IF IsStr(v) THEN 3 ELSE 4
ValLess(x, y) ==
  IF Rank(x) # Rank(y) THEN Rank(x) < Rank(y)
  ELSE IF IsNum(x) THEN Num(x) * Den(y) < Num(y) * Den(x)
  ELSE IF IsStr(x) THEN StrLess(x.s, y.s)
  ELSE IF IsBool(x) THEN (~x.b /\ y.b) ELSE FALSE
NumEq(x, y) == Num(x) * Den(y) = Num(y) * Den(x)
ValEq(x, y) == x = y \/ (IsNum(x) /\ IsNum(y) /\ NumEq(x, y))

-----------------------------------------------------------------------------
(* Small sequence helpers *)
Range(q) == {q[k] : k \in 1..Len(q)}
SelectQ(q, P(_)) == SelectSeq(q, P)
IndexOf(q, x) == IF \E k \in 1..Len(q) : q[k] = x THEN CHOOSE k \in 1..Len(q) : q[k] = x /\ \A j \in 1..(k-1) : q[j] # x ELSE 0
RECURSIVE FoldL(_, _, _)
FoldL(f(_, _), z, q) == IF Len(q) = 0 THEN z ELSE FoldL(f, f(z, Head(q)), Tail(q))
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Take(q, k) == SubSeq(q, 1, Min2(k, Len(q)))
MapQ(f(_), q) == [k \in 1..Len(q) |-> f(q[k])]
RECURSIVE FlatQ(_)
FlatQ(q) == IF Len(q) = 0 THEN <<>> ELSE Head(q) \o FlatQ(Tail(q))
\* sequences of length lo..hi over set X; and without repetition
SeqsOf(X, lo, hi) == UNION {[1..k -> X] : k \in lo..hi}
Distinct(q) == \A a, b \in 1..Len(q) : a # b => q[a] # q[b]
PermsOf(X, lo, hi) == {q \in SeqsOf(X, lo, hi) : Distinct(q)}
=============================================================================
