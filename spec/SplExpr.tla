------------------------------ MODULE SplExpr ------------------------------
(***************************************************************************)
(* Expressions: abstract syntax, concrete text and denotation.             *)
(*                                                                         *)
(* The text of an expression is the *minimal* spelling whose reading,      *)
(* according to SPL's precedence                                           *)
(*      * /   >   + -   >   .   >   comparisons   >   NOT   >  AND  >  OR   *)
(* with left-to-right grouping, is that expression; the fully              *)
(* parenthesised text is another spelling of the same expression.          *)
(***************************************************************************)
EXTENDS SplValues

Fld(n)       == [k |-> "f", f |-> n]
Lit(v)       == [k |-> "l", v |-> v]
Bin(o, l, r) == [k |-> "b", o |-> o, l |-> l, r |-> r]
Neg(e)       == [k |-> "n", e |-> e]
Fn(f, a)     == [k |-> "c", f |-> f, a |-> a]
FIn(f, vs)   == [k |-> "i", f |-> f, vs |-> vs]

Level(e) ==
  CASE e.k = "b" -> (CASE e.o \in {"*", "/"} -> 8 [] e.o \in {"+", "-"} -> 7 [] e.o = "." -> 6
                       [] e.o = "AND" -> 3 [] e.o = "OR" -> 2 [] OTHER -> 5)
    [] e.k = "n" -> 4
    [] e.k = "i" -> 5
    [] OTHER -> 10

StrTxt(s) == "\"" \o ReplaceAll(s, "\"", "\\\"") \o "\""
ValTxt(v) == CASE IsStr(v) -> StrTxt(v.s) [] IsNum(v) -> NumText(v)
               [] IsBool(v) -> (IF v.b THEN "true()" ELSE "false()") [] IsNull(v) -> "null()"

NeedParL(p, o, c) == \/ Level(c) < p
                     \/ (p = 5 /\ Level(c) = 5)
NeedParR(p, o, c) == IF o \in {"AND", "OR"} THEN Level(c) < p \/ (Level(c) \in {2, 3} /\ Level(c) # p)
                     ELSE Level(c) <= p
\* where two spellings of the grouping of AND/OR exist between eval and where, write it out
NeedParX(ctx, p, c) == ctx = "eval" /\ p \in {2, 3} /\ Level(c) \in {2, 3} /\ Level(c) # p

RECURSIVE Txt(_, _, _)
Wrap(s) == "(" \o s \o ")"
Txt(e, ctx, full) ==
  LET par(c, need) == IF need \/ (full /\ Level(c) < 10) THEN Wrap(Txt(c, ctx, full)) ELSE Txt(c, ctx, full)
  IN CASE e.k = "f" -> e.f
       [] e.k = "l" -> ValTxt(e.v)
       [] e.k = "b" -> LET p == Level(e) IN
            par(e.l, NeedParL(p, e.o, e.l) \/ NeedParX(ctx, p, e.l)) \o " " \o e.o \o " " \o
            par(e.r, NeedParR(p, e.o, e.r) \/ NeedParX(ctx, p, e.r))
       [] e.k = "n" -> "NOT " \o par(e.e, Level(e.e) < 4)
       [] e.k = "i" -> e.f \o " IN (" \o JoinStr([j \in 1..Len(e.vs) |-> ValTxt(e.vs[j])], ", ") \o ")"
       [] e.k = "c" -> e.f \o "(" \o JoinStr([j \in 1..Len(e.a) |-> Txt(e.a[j], "eval", full)], ", ") \o ")"

-----------------------------------------------------------------------------
(* Denotation on a row.  `row` is a function from field names to values.    *)

RECURSIVE InList(_, _)
InList(x, vs) == IF Len(vs) = 0 THEN False3 ELSE Or3(Cmp("=", x, Head(vs)), InList(x, Tail(vs)))

SubStr(s, st, ln) ==   \* SPL/Spark 1-based substring, negative start counts from the end
  LET i0 == IF st > 0 THEN st ELSE IF st = 0 THEN 1 ELSE Len(s) + st + 1
      e0 == i0 + ln - 1
  IN SubSeq(s, Max2(i0, 1), Min2(e0, Len(s)))

NumFold(op, q) ==   \* greatest / least, ignoring nulls
  LET nn == SelectSeq(q, LAMBDA v : ~IsNull(v))
  IN IF \E j \in 1..Len(q) : IsUndef(q[j]) \/ IsTerm(q[j]) THEN Undef
     ELSE IF Len(nn) = 0 THEN Null
     ELSE IF ~((\A j \in 1..Len(nn) : IsNum(nn[j])) \/ (\A j \in 1..Len(nn) : IsStr(nn[j]))) THEN Undef
     ELSE LET best(x, y) == IF op = "max" THEN (IF ValLess(x, y) THEN y ELSE x)
                            ELSE (IF ValLess(y, x) THEN y ELSE x)
          IN FoldL(best, nn[1], Tail(nn))

RECURSIVE Ev(_, _)
RECURSIVE CaseEv(_, _)
CaseEv(a, row) ==
  IF Len(a) < 2 THEN Null
  ELSE LET c == Ev(a[1], row) IN
       IF IsUndef(c) THEN Undef ELSE IF c = True3 THEN Ev(a[2], row) ELSE CaseEv(SubSeq(a, 3, Len(a)), row)
RECURSIVE ValidEv(_, _)
ValidEv(a, row) ==
  IF Len(a) < 2 THEN Null
  ELSE LET c == Ev(a[1], row) IN
       IF IsUndef(c) THEN Undef ELSE IF c = False3 THEN Ev(a[2], row) ELSE ValidEv(SubSeq(a, 3, Len(a)), row)
RECURSIVE CoalEv(_)
CoalEv(q) == IF Len(q) = 0 THEN Null ELSE IF IsNull(Head(q)) THEN CoalEv(Tail(q)) ELSE Head(q)

FnEv(f, a, row) ==
  LET v == [j \in 1..Len(a) |-> Ev(a[j], row)]
      anyu == \E j \in 1..Len(a) : IsUndef(v[j])
      anyn == \E j \in 1..Len(a) : IsNull(v[j])
  IN CASE f = "if" -> (IF IsUndef(v[1]) THEN Undef ELSE IF v[1] = True3 THEN v[2] ELSE v[3])
       [] f = "case" -> CaseEv(a, row)
       [] f = "validate" -> ValidEv(a, row)
       [] f = "null" -> Null
       [] f = "true" -> True3
       [] f = "false" -> False3
       [] anyu -> Undef
       [] f = "isnull" -> B(IsNull(v[1]))
       [] f = "isnotnull" -> B(~IsNull(v[1]))
       [] f = "coalesce" -> CoalEv(v)
       [] f = "nullif" -> (IF Cmp("=", v[1], v[2]) = True3 THEN Null ELSE v[1])
       [] f = "in" -> (IF IsNull(v[1]) THEN Null ELSE InList(v[1], Tail(v)))
       [] f \in {"max", "min"} -> NumFold(f, v)
       [] anyn -> Null
       [] f = "len" -> (IF IsStr(v[1]) THEN I(Len(v[1].s)) ELSE Undef)
       [] f = "lower" -> (IF IsStr(v[1]) THEN S(ToLower(v[1].s)) ELSE Undef)
       [] f = "upper" -> (IF IsStr(v[1]) THEN S(ToUpper(v[1].s)) ELSE Undef)
       [] f = "abs" -> (IF IsNum(v[1]) THEN (IF Is(v[1], "i") THEN I(Abs(v[1].i)) ELSE D(Abs(v[1].d[1]), v[1].d[2])) ELSE Undef)
       [] f = "substr" -> (IF IsStr(v[1]) /\ Is(v[2], "i") /\ Is(v[3], "i")
                           THEN S(IF v[3].i <= 0 THEN "" ELSE SubStr(v[1].s, v[2].i, v[3].i)) ELSE Undef)
       [] f \in {"ceiling", "floor"} /\ Rounded(v[1]) -> Undef
       [] f = "ceiling" -> (IF IsNum(v[1]) THEN I(-((-Num(v[1])) \div Den(v[1]))) ELSE Undef)
       [] f = "floor" -> (IF IsNum(v[1]) THEN I(Num(v[1]) \div Den(v[1])) ELSE Undef)
       [] OTHER -> Undef

Ev(e, row) ==
  CASE e.k = "f" -> row[e.f]
    [] e.k = "l" -> e.v
    [] e.k = "n" -> Not3(Ev(e.e, row))
    [] e.k = "i" -> InList(row[e.f], e.vs)
    [] e.k = "c" -> FnEv(e.f, e.a, row)
    [] e.k = "b" -> LET x == Ev(e.l, row)  y == Ev(e.r, row) IN
         CASE e.o = "AND" -> And3(x, y)
           [] e.o = "OR" -> Or3(x, y)
           [] e.o = "." -> Concat(x, y)
           [] e.o \in {"+", "-", "*", "/"} -> Arith(e.o, x, y)
           [] OTHER -> Cmp(IF e.o = "==" THEN "=" ELSE e.o, x, y)

RECURSIVE Fields(_)
Fields(e) ==
  CASE e.k = "f" -> {e.f} [] e.k = "l" -> {} [] e.k = "n" -> Fields(e.e) [] e.k = "i" -> {e.f}
    [] e.k = "b" -> Fields(e.l) \cup Fields(e.r)
    [] e.k = "c" -> UNION {Fields(e.a[j]) : j \in 1..Len(e.a)}
RECURSIVE Size(_)
Size(e) ==
  CASE e.k \in {"f", "l"} -> 1 [] e.k = "i" -> 1 [] e.k = "n" -> 1 + Size(e.e)
    [] e.k = "b" -> 1 + Size(e.l) + Size(e.r)
    [] e.k = "c" -> 1 + FoldL(LAMBDA x, y : x + y, 0, [j \in 1..Len(e.a) |-> Size(e.a[j])])
=============================================================================
