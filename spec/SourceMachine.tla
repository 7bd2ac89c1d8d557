--------------------------- MODULE SourceMachine ---------------------------
(***************************************************************************)
(* Which tables a search reads.  Conditions containing index tests are     *)
(* built on a stack; Resolve splits a condition into the indexes it names  *)
(* and the condition that remains, or refuses it.  The stack machine's     *)
(* states are exactly the conditions; every one is used as a leading       *)
(* search, as a later search and as the search of a subsearch.             *)
(***************************************************************************)
EXTENDS SplTable, Json

CONSTANTS MaxLeaves, MaxNots, Small3   \* Small3: fewer kinds of leaves

VARIABLES stk, leaves, nots
vars == <<stk, leaves, nots>>

-----------------------------------------------------------------------------
N0 == Null
MainT == Tab(<<"id", "index", "a", "b">>, << <<I(1), S("main"), I(1), I(1)>>, <<I(2), S("web"), I(1), N0>>, <<I(3), S("main"), I(2), I(1)>>,
                                              <<I(4), Null, I(1), I(1)>>, <<I(5), S("audit"), I(0), I(2)>> >>, TRUE)
WebT == Tab(<<"id", "index", "a", "b", "w">>, << <<I(1), S("web"), I(2), I(1), I(8)>>, <<I(2), S("web"), I(1), I(1), I(9)>>, <<I(6), S("main"), I(1), Null, I(7)>> >>, TRUE)
AuditT == Tab(<<"b", "index", "id", "a">>, << <<I(1), S("audit"), I(1), I(1)>>, <<I(2), S("web"), I(7), I(1)>>, <<I(1), S("main"), I(2), I(3)>> >>, TRUE)
OddT == Tab(<<"id", "index", "a", "b">>, << <<I(2), S("my idx-1"), I(1), I(2)>>, <<I(4), S("web"), I(1), I(1)>> >>, TRUE)
OuterT == Tab(<<"id", "c">>, << <<I(1), S("p")>>, <<I(2), S("q")>>, <<I(2), S("r")>>, <<I(9), S("s")>> >>, TRUE)
Tables == [x \in {"main", "web", "audit", "my idx-1", "base"} |->
             CASE x = "main" -> MainT [] x = "web" -> WebT [] x = "audit" -> AuditT [] x = "my idx-1" -> OddT [] OTHER -> OuterT]

Idx(n, sp) == SCmp("index", "=", S(n), sp)
IsIdx(e) == e.k = "c" /\ e.f = "index"
\* an index test that a source could be made of
RECURSIVE Names(_)
Names(e) == CASE IsIdx(e) -> TRUE [] e.k \in {"&", "|"} -> Names(e.l) \/ Names(e.r) [] OTHER -> FALSE
NoCond == [k |-> "0"]
Both(x, y) == IF x.k = "0" THEN y ELSE IF y.k = "0" THEN x ELSE SAnd(x, y, " ")
Bad == [ok |-> FALSE, ix |-> <<>>, c |-> NoCond]
RECURSIVE Resolve(_)
Resolve(e) ==
  IF IsIdx(e) THEN (IF e.o = "=" THEN [ok |-> TRUE, ix |-> <<e.v.s>>, c |-> NoCond] ELSE Bad)
  ELSE IF e.k = "&" THEN LET x == Resolve(e.l)  y == Resolve(e.r) IN [ok |-> x.ok /\ y.ok, ix |-> x.ix \o y.ix, c |-> Both(x.c, y.c)]
  ELSE IF e.k = "|" /\ Names(e) THEN Bad
  ELSE [ok |-> TRUE, ix |-> <<>>, c |-> e]
RECURSIVE Uniq1(_, _)
Uniq1(q, acc) == IF Len(q) = 0 THEN acc ELSE Uniq1(Tail(q), IF Head(q) \in Range(acc) THEN acc ELSE Append(acc, Head(q)))
Read(r) == IF r.ix = <<>> THEN <<"main">> ELSE Uniq1(r.ix, <<>>)
Filter(t, c) == IF c.k = "0" THEN t ELSE ApplySearch(t, c)
Lead(r) == LET q == Read(r) IN Filter(FoldL(LAMBDA t, n : UnionByName(t, Tables[n]), Tables[q[1]], Tail(q)), r.c)

-----------------------------------------------------------------------------
LeafSet ==
  {Idx("web", "b"), SCmp("a", "=", I(1), "b")}
  \cup (IF Small3 THEN {Idx("audit", "b")}
        ELSE {Idx("audit", "b"), Idx("web", "q"), Idx("my idx-1", "q"), SCmp("index", "!=", S("web"), "b"), SCmp("b", "=", I(1), "b"),
              SIn("index", <<[v |-> S("web"), sp |-> "b"], [v |-> S("audit"), sp |-> "b"]>>)})
Init == stk = <<>> /\ leaves = 0 /\ nots = 0
Push == /\ leaves < MaxLeaves /\ \E e \in LeafSet : stk' = Append(stk, e)
        /\ leaves' = leaves + 1 /\ UNCHANGED nots
Join == /\ Len(stk) >= 2
        /\ LET y == stk[Len(stk)]  x == stk[Len(stk) - 1] IN
           \E e \in {SOr(x, y), SAnd(x, y, " ")} : stk' = Append(SubSeq(stk, 1, Len(stk) - 2), e)
        /\ UNCHANGED <<leaves, nots>>
Negate == /\ Len(stk) >= 1 /\ nots < MaxNots
          /\ stk' = Append(SubSeq(stk, 1, Len(stk) - 1), SNot(stk[Len(stk)]))
          /\ nots' = nots + 1 /\ UNCHANGED leaves
Next == Push \/ Join \/ Negate
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every index a condition names outside NOT is read, or the condition is refused: nothing is ignored
RECURSIVE AllNames(_)
AllNames(e) == CASE IsIdx(e) -> {e.v.s} [] e.k \in {"&", "|"} -> AllNames(e.l) \cup AllNames(e.r) [] OTHER -> {}
Nothing == \A j \in 1..Len(stk) : LET r == Resolve(stk[j]) IN r.ok => AllNames(stk[j]) = Range(r.ix)
\* what remains is independent of the order of the conjuncts
Commutes == Len(stk) = 2 => LET x == Resolve(SAnd(stk[1], stk[2], " "))  y == Resolve(SAnd(stk[2], stk[1], " "))
                            IN x.ok = y.ok /\ (x.ok => Range(x.ix) = Range(y.ix) /\ Len(Lead(x).rows) = Len(Lead(y).rows))
Emit == Len(stk) = 1 =>
  LET r == Resolve(stk[1])  later == ApplySearch(MainT, stk[1])
  IN PrintT("@@" \o ToJson([t |-> STxt(stk[1], FALSE), tf |-> STxt(stk[1], TRUE), ok |-> r.ok, read |-> IF r.ok THEN Read(r) ELSE <<>>,
        lead |-> IF r.ok THEN Lead(r) ELSE MainT, later |-> later,
        joined |-> IF r.ok THEN ApplyJoin(OuterT, Lead(r), <<"id">>, "inner", "no") ELSE MainT,
        multi |-> IF r.ok THEN UnionByName(OuterT, Lead(r)) ELSE MainT]))
EmitData == stk = <<>> => PrintT("@@" \o ToJson([tables |-> Tables]))
=============================================================================
