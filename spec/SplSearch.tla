----------------------------- MODULE SplSearch -----------------------------
(***************************************************************************)
(* Search conditions: abstract syntax, concrete text and denotation.       *)
(*                                                                         *)
(* NOT binds tightest, then OR, then AND (written or implied by a blank).  *)
(* A comparison takes a value - quoted, bare, with wildcards or an IPv4    *)
(* network; a lone word or phrase is looked for in _raw, whatever its case.*)
(***************************************************************************)
EXTENDS SplValues

\* sp: "q" quoted or "b" bare spelling of the value
SCmp(f, o, v, sp)  == [k |-> "c", f |-> f, o |-> o, v |-> v, sp |-> sp]
SWild(f, o, p, sp) == [k |-> "w", f |-> f, o |-> o, p |-> p, sp |-> sp]
SIn(f, items)      == [k |-> "i", f |-> f, items |-> items]
SCidr(f, a)        == [k |-> "r", f |-> f, a |-> a]
STerm(x, sp)       == [k |-> "t", x |-> x, sp |-> sp]
SFn(e)             == [k |-> "f", e |-> e]
SNot(e)            == [k |-> "n", e |-> e]
SAnd(l, r, sp)     == [k |-> "&", l |-> l, r |-> r, sp |-> sp]     \* sp: " AND " or a blank
SOr(l, r)          == [k |-> "|", l |-> l, r |-> r]

QuoteS(x) == "\"" \o ReplaceAll(x, "\"", "\\\"") \o "\""
ValS(v, sp) == IF IsStr(v) THEN (IF sp = "q" THEN QuoteS(v.s) ELSE v.s) ELSE NumText(v)
PatS(p, sp) == IF sp = "q" THEN QuoteS(p) ELSE p
ItemS(it) == IF "p" \in DOMAIN it THEN PatS(it.p, it.sp) ELSE ValS(it.v, it.sp)

SLevel(e) == CASE e.k = "&" -> 1 [] e.k = "|" -> 2 [] e.k = "n" -> 3 [] OTHER -> 4

RECURSIVE STxt(_, _)
STxt(e, full) ==
  LET par(c, need) == IF need \/ (full /\ SLevel(c) < 4) THEN "(" \o STxt(c, full) \o ")" ELSE STxt(c, full)
  IN CASE e.k = "c" -> e.f \o e.o \o ValS(e.v, e.sp)
       [] e.k = "w" -> e.f \o e.o \o PatS(e.p, e.sp)
       [] e.k = "i" -> e.f \o " IN (" \o JoinStr([j \in 1..Len(e.items) |-> ItemS(e.items[j])], ", ") \o ")"
       [] e.k = "r" -> e.f \o "=" \o e.a
       [] e.k = "t" -> (IF e.sp = "q" THEN QuoteS(e.x) ELSE e.x)
       [] e.k = "n" -> "NOT " \o par(e.e, SLevel(e.e) < 3)
       [] e.k = "|" -> par(e.l, SLevel(e.l) < 2) \o " OR " \o par(e.r, SLevel(e.r) < 2)
       [] e.k = "&" -> par(e.l, FALSE) \o (IF e.sp = " " THEN " " ELSE " AND ") \o par(e.r, FALSE)

-----------------------------------------------------------------------------
\* dotted addresses
RECURSIVE SplitOn(_, _)
SplitOn(s, c) ==
  IF \E k \in 1..Len(s) : SubSeq(s, k, k) = c
  THEN LET k == CHOOSE k \in 1..Len(s) : SubSeq(s, k, k) = c /\ \A j \in 1..(k - 1) : SubSeq(s, j, j) # c
       IN <<SubSeq(s, 1, k - 1)>> \o SplitOn(SubSeq(s, k + 1, Len(s)), c)
  ELSE <<s>>
IsIp(s) == LET q == SplitOn(s, ".") IN Len(q) = 4 /\ \A j \in 1..4 : AllDigits(q[j]) /\ Len(q[j]) <= 3 /\ NatVal(q[j]) <= 255
Octets(s) == LET q == SplitOn(s, ".") IN [j \in 1..4 |-> NatVal(q[j])]
InNet(s, cidr) ==
  LET parts == SplitOn(cidr, "/")  bits == NatVal(parts[2])  x == Octets(s)  y == Octets(parts[1])
      \* compare octet j on its leading max(0, min(8, bits - 8(j-1))) bits
      same(j) == LET b == Max2(0, Min2(8, bits - 8 * (j - 1)))  d == 2 ^ (8 - b) IN (x[j] \div d) = (y[j] \div d)
  IN \A j \in 1..4 : same(j)

LikeText(v) == IF IsStr(v) THEN v ELSE IF Is(v, "i") THEN S(NumText(v)) ELSE Undef
WildEv(x, p) == IF IsNull(x) THEN Null ELSE LET t == LikeText(x) IN IF IsUndef(t) THEN Undef ELSE B(Glob(t.s, p))
ItemEv(x, it) == IF "p" \in DOMAIN it THEN WildEv(x, it.p) ELSE Cmp("=", x, it.v)
RECURSIVE ItemsEv(_, _)
ItemsEv(x, its) == IF Len(its) = 0 THEN False3 ELSE Or3(ItemEv(x, Head(its)), ItemsEv(x, Tail(its)))

RECURSIVE SEv(_, _)
SEv(e, row) ==
  CASE e.k = "c" -> Cmp(IF e.o = "==" THEN "=" ELSE e.o, row[e.f], e.v)
    [] e.k = "w" -> LET x == WildEv(row[e.f], e.p) IN IF e.o = "!=" THEN Not3(x) ELSE x
    [] e.k = "i" -> ItemsEv(row[e.f], e.items)
    [] e.k = "r" -> (IF IsNull(row[e.f]) THEN Null ELSE IF ~IsStr(row[e.f]) THEN Undef
                     ELSE IF IsIp(row[e.f].s) THEN B(InNet(row[e.f].s, e.a)) ELSE False3)
    [] e.k = "t" -> (IF IsNull(row["_raw"]) THEN Null ELSE IF ~IsStr(row["_raw"]) THEN Undef
                     ELSE B(Glob(ToLower(row["_raw"].s), "*" \o ToLower(e.x) \o "*")))
    [] e.k = "n" -> Not3(SEv(e.e, row))
    [] e.k = "&" -> And3(SEv(e.l, row), SEv(e.r, row))
    [] e.k = "|" -> Or3(SEv(e.l, row), SEv(e.r, row))

RECURSIVE SFields(_)
SFields(e) ==
  CASE e.k \in {"c", "w", "i", "r"} -> {e.f} [] e.k = "t" -> {"_raw"} [] e.k = "n" -> SFields(e.e)
    [] OTHER -> SFields(e.l) \cup SFields(e.r)
=============================================================================
