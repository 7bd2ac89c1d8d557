---------------------------- MODULE ExprMachine ----------------------------
(***************************************************************************)
(* A stack machine that builds every well-typed expression: Push puts a    *)
(* leaf on the stack, Join combines the two topmost expressions with an    *)
(* operator, Negate and Apply wrap the topmost one.  Every reachable state *)
(* with a single expression on the stack is one test case.                 *)
(***************************************************************************)
EXTENDS SplExpr, Json

CONSTANTS MaxLeaves, MaxWraps, Rows, Wild, Lits
\* Rows: number of rows of the data table; Wild: all leaves, else one field per type; Lits: a literal as well

VARIABLES stk, leaves, wraps
vars == <<stk, leaves, wraps>>

-----------------------------------------------------------------------------
(* The data: columns n1..n4 (integers, zeros and nulls), s1..s4 (strings), *)
(* k1..k4 (all combinations of 1, 0 and null over 27 rows).                *)
StrPool == <<"a", "b", "ab", "B", "", "10">>
NVal(r, j) == IF (r + 2 * j) % 7 = 0 THEN Null ELSE I(((r * (2 * j + 1) + 3 * j) % 11) - 4)
SVal(r, j) == IF (r + 3 * j) % 8 = 0 THEN Null ELSE S(StrPool[((r * j + j) % 6) + 1])
Trit(x) == IF x = 0 THEN I(0) ELSE IF x = 1 THEN I(1) ELSE Null
KVal(r, j) == CASE j = 1 -> Trit(r % 3) [] j = 2 -> Trit((r \div 3) % 3) [] j = 3 -> Trit((r \div 9) % 3)
                [] j = 4 -> Trit((r + (r \div 3) + (r \div 9)) % 3)
Nm == <<"n1", "n2", "n3", "n4">>
Sm == <<"s1", "s2", "s3", "s4">>
Km == <<"k1", "k2", "k3", "k4">>
Cols == <<"id">> \o Nm \o Sm \o Km
RowVals(r) == <<I(r)>> \o [j \in 1..4 |-> NVal(r, j)] \o [j \in 1..4 |-> SVal(r, j)] \o [j \in 1..4 |-> KVal(r, j)]
Row(r) == LET v == RowVals(r) IN [c \in Range(Cols) |-> v[IndexOf(Cols, c)]]
TheRows == [r \in 1..Rows |-> Row(r - 1)]

-----------------------------------------------------------------------------
NumLits == {I(0), I(2), I(10), I(-3), D(5, 2), D(1, 4), D(-1, 2), D(-7, 4)}
\* IN lists of every length up to nine, of values in no particular order
InNums == <<I(3), I(-2), I(9), I(5), I(0), I(6), I(-4), I(2), I(1)>>
InStrs == <<S("zz"), S("ab"), S("b c"), S("B"), S("10"), S("a"), S("b")>>
StrLits == {S("a"), S("b c"), S("10"), S("x-1")}
Leaf(ty, j0) == LET j == ((j0 - 1) % 4) + 1 IN CASE ty = "n" -> Fld(Nm[j]) [] ty = "s" -> Fld(Sm[j]) [] ty = "b" -> Bin("=", Fld(Km[j]), Lit(I(1)))
LeafSet(ty) ==
  IF Wild THEN
    CASE ty = "n" -> {Fld(Nm[j]) : j \in 1..4} \cup {Lit(v) : v \in NumLits}
      [] ty = "s" -> {Fld(Sm[j]) : j \in 1..4} \cup {Lit(v) : v \in StrLits}
      [] ty = "b" -> {Bin(o, Fld(Km[j]), Lit(I(1))) : o \in {"=", "!=", ">="}, j \in 1..4}
                     \cup {Fn("isnull", <<Fld(Nm[j])>>) : j \in 1..4}
                     \cup {FIn(Km[j], <<I(0), I(7)>>) : j \in 1..4}
                     \cup {FIn(Nm[j], Take(InNums, n)) : j \in 1..2, n \in 1..9}
                     \cup {FIn(Sm[j], Take(InStrs, n)) : j \in 1..2, n \in 1..7}
  ELSE {Leaf(ty, leaves + 1)}
       \cup (IF Lits /\ ty = "n" THEN {Lit(<<I(2), I(3), I(5), I(7)>>[(leaves % 4) + 1])}
             ELSE IF Lits /\ ty = "s" THEN {Lit(<<S("p"), S("10"), S("q r"), S("z")>>[(leaves % 4) + 1])} ELSE {})

Init == stk = <<>> /\ leaves = 0 /\ wraps = 0

Push == /\ leaves < MaxLeaves
        /\ \E ty \in {"n", "s", "b"} : \E e \in LeafSet(ty) :
             stk' = Append(stk, [e |-> e, ty |-> ty])
        /\ leaves' = leaves + 1 /\ UNCHANGED wraps

Ops(a, b) ==
  CASE a = "n" /\ b = "n" -> {"+", "-", "*", "/", "=", "<", ">="} \cup (IF Wild THEN {"!=", ">", "<="} ELSE {})
    [] a = "s" /\ b = "s" -> {".", "=", "<"} \cup (IF Wild THEN {"!=", ">", "<=", ">="} ELSE {})
    [] a = "b" /\ b = "b" -> {"AND", "OR"}
    [] (a = "s" /\ b = "n") \/ (a = "n" /\ b = "s") -> {"."}
    [] OTHER -> {}
ResTy(o) == CASE o \in {"+", "-", "*", "/"} -> "n" [] o = "." -> "s" [] OTHER -> "b"

Join == /\ Len(stk) >= 2
        /\ LET y == stk[Len(stk)]  x == stk[Len(stk) - 1] IN
           \E o \in Ops(x.ty, y.ty) :
             stk' = Append(SubSeq(stk, 1, Len(stk) - 2), [e |-> Bin(o, x.e, y.e), ty |-> ResTy(o)])
        /\ UNCHANGED <<leaves, wraps>>

Top == stk[Len(stk)]
Wrapped(e, ty) == stk' = Append(SubSeq(stk, 1, Len(stk) - 1), [e |-> e, ty |-> ty])
Negate == /\ Len(stk) >= 1 /\ wraps < MaxWraps /\ Top.ty = "b"
          /\ Wrapped(Neg(Top.e), "b") /\ wraps' = wraps + 1 /\ UNCHANGED leaves
NumWraps == {[e |-> Fn("abs", <<Top.e>>), ty |-> "n"], [e |-> Fn("coalesce", <<Top.e, Lit(I(1))>>), ty |-> "n"],
             [e |-> Fn("isnotnull", <<Top.e>>), ty |-> "b"]}
StrWraps == {[e |-> Fn("len", <<Top.e>>), ty |-> "n"], [e |-> Fn("upper", <<Top.e>>), ty |-> "s"]}
BoolWraps == {[e |-> Fn("if", <<Top.e, Fld("n1"), Lit(I(0))>>), ty |-> "n"],
              [e |-> Fn("case", <<Top.e, Lit(S("y")), Neg(Top.e), Lit(S("n"))>>), ty |-> "s"]}
Apply == /\ Wild /\ Len(stk) >= 1 /\ wraps < MaxWraps
         /\ \E w \in (CASE Top.ty = "n" -> NumWraps [] Top.ty = "s" -> StrWraps [] Top.ty = "b" -> BoolWraps) :
              Wrapped(w.e, w.ty)
         /\ wraps' = wraps + 1 /\ UNCHANGED leaves

Next == Push \/ Join \/ Negate \/ Apply
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the specification itself must satisfy *)
TypeOK ==
  \A j \in 1..Len(stk) : \A r \in {1, Rows} :
    LET v == Ev(stk[j].e, TheRows[r]) IN
    \/ IsNull(v) \/ IsUndef(v)
    \/ (stk[j].ty = "n" /\ IsNum(v)) \/ (stk[j].ty = "s" /\ IsStr(v)) \/ (stk[j].ty = "b" /\ IsBool(v))
\* De Morgan: the denotation of NOT distributes over AND / OR
DeMorgan ==
  Len(stk) = 1 /\ Top.e.k = "b" /\ Top.e.o \in {"AND", "OR"} =>
    LET dual == Bin(IF Top.e.o = "AND" THEN "OR" ELSE "AND", Neg(Top.e.l), Neg(Top.e.r))
    IN \A r \in 1..Rows : Ev(Neg(Top.e), TheRows[r]) = Ev(dual, TheRows[r])

Done == Len(stk) = 1 /\ (Size(Top.e) > 1 \/ Top.e.k = "i")
Emit ==
  Done => PrintT("@@" \o ToJson([t |-> Txt(Top.e, "eval", FALSE), tf |-> Txt(Top.e, "eval", TRUE),
                                 w |-> Txt(Top.e, "where", FALSE), ty |-> Top.ty,
                                 v |-> [r \in 1..Rows |-> Ev(Top.e, TheRows[r])]]))
EmitBig == Done /\ Size(Top.e) > 5 => Emit
EmitData == (stk = <<>>) => PrintT("@@" \o ToJson([cols |-> Cols, rows |-> [r \in 1..Rows |-> RowVals(r - 1)]]))
=============================================================================
