--------------------------- MODULE SearchMachine ---------------------------
(***************************************************************************)
(* A stack machine that builds every search condition: Push puts a test on *)
(* the stack, Join combines the two topmost conditions by OR, AND or a     *)
(* blank, Negate wraps the topmost one.                                    *)
(***************************************************************************)
EXTENDS SplSearch, Json

CONSTANTS MaxLeaves, MaxNots, Wild

VARIABLES stk, leaves, nots
vars == <<stk, leaves, nots>>

-----------------------------------------------------------------------------
(* Rows: k1..k4 take all combinations of 1, 0 and null over 27 rows.        *)
StrPool == <<S("a"), S("b c"), S("abc"), S("A"), S(""), S("10"), S("x_y"), S("x-1"), Null, S("web/a.b"), S("true")>>
IpPool == <<S("10.0.0.1"), S("10.1.2.3"), S("192.168.1.77"), S("192.168.2.77"), S("host"), Null, S("10.0.0.130")>>
RawPool == <<S("login failed for bob"), S("Login OK user=alice"), S("ERROR 404 a b"), Null, S("bob alice"), S("x-1 done"), S("foo")>>
NumPool == <<I(3), I(-2), Null, I(10), I(0), I(7), D(5, 2), I(404)>>
Trit(x) == IF x = 0 THEN I(0) ELSE IF x = 1 THEN I(1) ELSE Null
KVal(r, j) == CASE j = 1 -> Trit(r % 3) [] j = 2 -> Trit((r \div 3) % 3) [] j = 3 -> Trit((r \div 9) % 3)
                [] j = 4 -> Trit((r + (r \div 3) + (r \div 9)) % 3)
Cols == <<"id", "n", "m", "s", "tt", "ip", "_raw", "k1", "k2", "k3", "k4">>
At(q, k) == q[(k % Len(q)) + 1]
RowVals(r) == <<I(r), At(NumPool, r), At(NumPool, 3 * r + 1), At(StrPool, r), At(StrPool, 2 * r + 3), At(IpPool, r), At(RawPool, 2 * r + 1)>>
              \o [j \in 1..4 |-> KVal(r, j)]
Row(r) == LET v == RowVals(r) IN [c \in Range(Cols) |-> v[IndexOf(Cols, c)]]
N == 27
TheRows == [r \in 1..N |-> Row(r - 1)]

-----------------------------------------------------------------------------
It(v, sp) == [v |-> v, sp |-> sp]
ItP(p, sp) == [p |-> p, sp |-> sp]
Ops == {"=", "!=", "<", "<=", ">", ">="}
Tests ==
  {SCmp(f, o, v, "b") : f \in {"n", "m"}, o \in Ops, v \in {I(3), I(-2), D(5, 2), I(0)}}
  \cup {SCmp(f, o, v, "q") : f \in {"s", "tt"}, o \in Ops, v \in {S("a"), S("b c"), S("abc"), S("10")}}
  \cup {SCmp(f, o, v, "b") : f \in {"s", "tt"}, o \in {"=", "!="}, v \in {S("a"), S("abc"), S("x_y"), S("x-1"), S("web/a.b")}}
  \cup {SCmp("ip", o, S("10.0.0.1"), "b") : o \in {"=", "!="}}
  \cup {SWild(f, o, p, "b") : f \in {"s", "tt"}, o \in {"=", "!="}, p \in {"a*", "*b*", "*c", "x-*", "w*a*b", "*a*b*c*", "*w*b*/*a*b*"}}
  \cup {SWild("s", o, p, "q") : o \in {"=", "!="}, p \in {"a*", "b *", "*", "* c"}}
  \cup {SIn("s", its) : its \in {<<It(S("a"), "b")>>, <<It(S("b c"), "q"), It(S("abc"), "b")>>, <<ItP("x*", "b"), It(S("A"), "b")>>,
                                 <<It(S("zz"), "q"), ItP("*c", "q"), It(S("10"), "q"), It(S("x-1"), "b")>>,
                                 <<It(S("u"), "b"), It(S("v"), "b"), It(S("w"), "b"), It(S("a"), "b"), It(S("x_y"), "q")>>,
                                 <<ItP("*a*b*c*", "b"), It(S("zz"), "b")>>, <<It(S("zz"), "b"), ItP("w*b/*a*b", "b"), ItP("*1*0*", "q")>>,
                                 <<ItP("w*e*b/*a*.*b", "q"), ItP("*", "b")>>, <<ItP("a", "q"), ItP("a*", "b"), ItP("*a", "b")>>}}
  \cup {SIn("n", its) : its \in {<<It(I(3), "b")>>, <<It(I(-2), "b"), It(I(10), "b")>>, <<It(I(404), "b"), It(I(1), "b"), It(I(0), "b"), It(D(5, 2), "b")>>}}
  \cup {SCidr("ip", a) : a \in {"10.0.0.0/8", "192.168.1.0/24", "10.0.0.128/25", "10.0.0.1/32", "0.0.0.0/0"}}
  \cup {STerm(x, "b") : x \in {"bob", "LOGIN", "404", "x-1", "foo", "k1", "b*b", "login*bob", "fa*", "e*b", "l*g*n*"}}
  \cup {STerm(x, "q") : x \in {"bob alice", "login failed", "user=alice", "A B", "or", "in f*b", "* a*", "*u*e*o*"}}
LeafSet == IF Wild THEN Tests \cup {SCmp(<<"k1", "k2", "k3", "k4">>[j], "=", I(1), "b") : j \in 1..4}
           ELSE {SCmp(<<"k1", "k2", "k3", "k4", "k1", "k2", "k3">>[leaves + 1], "=", I(1), "b")}

Init == stk = <<>> /\ leaves = 0 /\ nots = 0
Push == /\ leaves < MaxLeaves
        /\ \E e \in LeafSet : stk' = Append(stk, e)
        /\ leaves' = leaves + 1 /\ UNCHANGED nots
Join == /\ Len(stk) >= 2
        /\ LET y == stk[Len(stk)]  x == stk[Len(stk) - 1] IN
           \E e \in {SOr(x, y), SAnd(x, y, " AND "), SAnd(x, y, " ")} : stk' = Append(SubSeq(stk, 1, Len(stk) - 2), e)
        /\ UNCHANGED <<leaves, nots>>
Negate == /\ Len(stk) >= 1 /\ nots < MaxNots
          /\ stk' = Append(SubSeq(stk, 1, Len(stk) - 1), SNot(stk[Len(stk)]))
          /\ nots' = nots + 1 /\ UNCHANGED leaves
Next == Push \/ Join \/ Negate
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == \A j \in 1..Len(stk) : \A r \in {1, 2, N} : LET v == SEv(stk[j], TheRows[r]) IN IsNull(v) \/ IsUndef(v) \/ IsBool(v)
\* adding a conjunct never selects more rows, adding an alternative never fewer
Sel(e) == {r \in 1..N : SEv(e, TheRows[r]) = True3}
Monotone == Len(stk) = 2 => /\ Sel(SAnd(stk[1], stk[2], " ")) = Sel(stk[1]) \cap Sel(stk[2])
                            /\ Sel(SOr(stk[1], stk[2])) = Sel(stk[1]) \cup Sel(stk[2])
                            /\ Sel(SNot(stk[1])) \cap Sel(stk[1]) = {}
RECURSIVE SSize(_)
SSize(e) == CASE e.k \in {"&", "|"} -> 1 + SSize(e.l) + SSize(e.r) [] e.k = "n" -> 1 + SSize(e.e) [] OTHER -> 1
Done == Len(stk) = 1
Settled(e) == \A r \in 1..N : ~IsUndef(SEv(e, TheRows[r]))
Emit == Done /\ Settled(stk[1]) =>
          PrintT("@@" \o ToJson([t |-> STxt(stk[1], FALSE), tf |-> STxt(stk[1], TRUE), lone |-> stk[1].k = "&", k |-> stk[1].k,
                                 ids |-> SelectSeq([r \in 1..N |-> r - 1], LAMBDA r : SEv(stk[1], TheRows[r + 1]) = True3)]))
EmitBig == Done /\ SSize(stk[1]) > 4 => Emit
EmitData == (stk = <<>>) => PrintT("@@" \o ToJson([cols |-> Cols, rows |-> [r \in 1..N |-> RowVals(r - 1)]]))
=============================================================================
