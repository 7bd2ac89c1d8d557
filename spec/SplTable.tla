------------------------------ MODULE SplTable ------------------------------
(***************************************************************************)
(* Tables and the meaning of each command as a function of tables.         *)
(*                                                                         *)
(* A table is [cols |-> names, rows |-> rows, ord |-> whether the order of *)
(* the rows means anything].  A command is only defined where the columns  *)
(* it names exist; Apply* never changes anything its command doesn't name. *)
(***************************************************************************)
EXTENDS SplExpr, SplSearch

Tab(c, r, o) == [cols |-> c, rows |-> r, ord |-> o]
ColsOf(t) == Range(t.cols)
Uniq(t) == {c \in ColsOf(t) : Cardinality({k \in 1..Len(t.cols) : t.cols[k] = c}) = 1} \ {ToString(k) : k \in 1..9}   \* a number does not name a field
At(t, c) == IndexOf(t.cols, c)
RowFn(t, row) == [c \in ColsOf(t) |-> row[At(t, c)]]
Column(t, c) == [k \in 1..Len(t.rows) |-> t.rows[k][At(t, c)]]
\* Values that are statistics of a bag of values, which this specification lists in some order.
HasStat(q) == \E k \in 1..Len(q) : IsTerm(q[k]) /\ Len(q[k].a) > 0 /\ IsTerm(q[k].a[1]) /\ q[k].a[1].t = "col"
HasUndef(q) == \E k \in 1..Len(q) : IsUndef(q[k])

\* the type of a column, from its values: n(umbers) s(trings) b(ooleans) 0 (only nulls) x (anything else)
Ty(t, c) ==
  LET v == Range(Column(t, c)) \ {Null}
  IN IF v = {} THEN "0" ELSE IF \A x \in v : IsNum(x) THEN "n" ELSE IF \A x \in v : IsStr(x) THEN "s"
     ELSE IF \A x \in v : IsBool(x) THEN "b" ELSE "x"
OfTy(t, ty) == SelectSeq(t.cols, LAMBDA c : c \in Uniq(t) /\ Ty(t, c) = ty)

-----------------------------------------------------------------------------
(* Filters *)
CondVals(t, e) == [k \in 1..Len(t.rows) |-> Ev(e, RowFn(t, t.rows[k]))]
ApplyWhere(t, e) == Tab(t.cols, SelectSeq(t.rows, LAMBDA r : Ev(e, RowFn(t, r)) = True3), t.ord)
WhereOK(t, e) == Fields(e) \subseteq Uniq(t) /\ ~HasUndef(CondVals(t, e))
ApplySearch(t, e) == Tab(t.cols, SelectSeq(t.rows, LAMBDA r : SEv(e, RowFn(t, r)) = True3), t.ord)
SearchOK(t, e) == SFields(e) \subseteq Uniq(t) /\ \A k \in 1..Len(t.rows) : ~IsUndef(SEv(e, RowFn(t, t.rows[k])))

(* Column commands *)
SetCol(t, n, vals) ==
  IF n \in ColsOf(t)
  THEN Tab(t.cols, [k \in 1..Len(t.rows) |-> [j \in 1..Len(t.cols) |-> IF t.cols[j] = n THEN vals[k] ELSE t.rows[k][j]]], t.ord)
  ELSE Tab(Append(t.cols, n), [k \in 1..Len(t.rows) |-> Append(t.rows[k], vals[k])], t.ord)
Free(t, n) == n \notin ColsOf(t) \/ n \in Uniq(t)
EvalOne(t, n, e) == SetCol(t, n, [k \in 1..Len(t.rows) |-> Ev(e, RowFn(t, t.rows[k]))])
RECURSIVE ApplyEval(_, _)
ApplyEval(t, as) == IF Len(as) = 0 THEN t ELSE ApplyEval(EvalOne(t, as[1].n, as[1].e), Tail(as))
RECURSIVE EvalOK(_, _)
EvalOK(t, as) == IF Len(as) = 0 THEN TRUE
                 ELSE /\ Fields(as[1].e) \subseteq Uniq(t) /\ Free(t, as[1].n)
                      /\ EvalOK(EvalOne(t, as[1].n, as[1].e), Tail(as))

Project(t, cs) == Tab(cs, [k \in 1..Len(t.rows) |-> [j \in 1..Len(cs) |-> t.rows[k][At(t, cs[j])]]], t.ord)
DropCols(t, cs) ==
  LET keep == SelectSeq([k \in 1..Len(t.cols) |-> k], LAMBDA k : t.cols[k] \notin Range(cs))
  IN Tab([j \in 1..Len(keep) |-> t.cols[keep[j]]],
         [k \in 1..Len(t.rows) |-> [j \in 1..Len(keep) |-> t.rows[k][keep[j]]]], t.ord)
RenameOne(t, a, b) == Tab([j \in 1..Len(t.cols) |-> IF t.cols[j] = a THEN b ELSE t.cols[j]], t.rows, t.ord)
RECURSIVE ApplyRename(_, _)
ApplyRename(t, ps) == IF Len(ps) = 0 THEN t ELSE ApplyRename(RenameOne(t, ps[1][1], ps[1][2]), Tail(ps))
RECURSIVE RenameOK(_, _)
RenameOK(t, ps) == IF Len(ps) = 0 THEN TRUE
                   ELSE ps[1][1] \in Uniq(t) /\ ps[1][2] \notin ColsOf(t) /\ RenameOK(RenameOne(t, ps[1][1], ps[1][2]), Tail(ps))

\* fillnull of the columns cs: text columns get the text, numeric ones its number; what a text does to a numeric column is not settled
ApplyFill(t, x, cs) ==
  Tab(t.cols, [k \in 1..Len(t.rows) |-> [j \in 1..Len(t.cols) |->
       IF ~IsNull(t.rows[k][j]) \/ t.cols[j] \notin cs THEN t.rows[k][j]
       ELSE IF Ty(t, t.cols[j]) = "s" THEN S(x)
       ELSE IF Ty(t, t.cols[j]) = "n" /\ ~IsNull(StrNum(x)) THEN StrNum(x) ELSE Undef]], t.ord)
FillOK(t) == Uniq(t) = ColsOf(t)

\* addtotals: the sum of the given fields, those that aren't numbers counting as 0
AsNum(v) == IF IsUndef(v) \/ IsTerm(v) THEN Undef ELSE IF IsNum(v) THEN v
            ELSE IF IsStr(v) /\ ~IsNull(StrNum(v.s)) THEN D(Num(StrNum(v.s)), Den(StrNum(v.s))) ELSE D(0, 1)
ApplyTotals(t, cs, n) ==
  SetCol(t, n, [k \in 1..Len(t.rows) |->
    FoldL(LAMBDA x, c : Arith("+", x, AsNum(t.rows[k][At(t, c)])), D(0, 1), cs)])

\* bin: the start of the window of the given length
ApplyBin(t, c, n, span) ==
  SetCol(t, n, [k \in 1..Len(t.rows) |-> LET v == t.rows[k][At(t, c)] IN
                 T("field", <<T("window", <<v, S(span)>>), S("start")>>)])

\* convert
RmComma(v) == IF IsNull(v) THEN Null ELSE IF ~IsStr(v) THEN Undef
              ELSE LET x == StrNum(ReplaceAll(v.s, ",", "")) IN IF IsNull(x) THEN Null ELSE D(Num(x), Den(x))
RECURSIVE NumPrefix(_, _)
NumPrefix(s, k) == IF k < Len(s) /\ (IsDigit(SubSeq(s, k + 1, k + 1)) \/ SubSeq(s, k + 1, k + 1) = ".") THEN NumPrefix(s, k + 1) ELSE k
WordOnly(s) == \A k \in 1..Len(s) : Lo(SubSeq(s, k, k)) \in Range(LowerS) \cup Range(Digits) \cup {"_"}
RmUnit(v) == IF IsNull(v) THEN Null ELSE IF ~IsStr(v) THEN Undef
             ELSE LET k == NumPrefix(v.s, 0)  x == StrNum(SubSeq(v.s, 1, k))
                  IN IF k = 0 \/ IsNull(x) \/ ~WordOnly(SubSeq(v.s, k + 1, Len(v.s))) THEN Null ELSE D(Num(x), Den(x))
MemK(v) == IF IsNull(v) THEN Null ELSE IF ~IsStr(v) THEN Undef
           ELSE LET k == NumPrefix(v.s, 0)  x == StrNum(SubSeq(v.s, 1, k))  u == ToLower(SubSeq(v.s, k + 1, Len(v.s)))
                IN IF k = 0 \/ IsNull(x) \/ u \notin {"k", "m", "g"} THEN (IF u = "" THEN Undef ELSE Null)
                   ELSE Arith("*", D(Num(x), Den(x)), I(CASE u = "k" -> 1 [] u = "m" -> 1024 [] u = "g" -> 1048576))
ConvVal(f, v, fmt) ==
  CASE f = "ctime" -> T("date_format", <<v, S(fmt)>>)
    [] f = "rmcomma" -> RmComma(v) [] f = "rmunit" -> RmUnit(v) [] f = "memk" -> MemK(v)
RECURSIVE ApplyConvert(_, _, _)
ApplyConvert(t, cv, fmt) ==   \* cv: sequence of [fn, f, as]
  IF Len(cv) = 0 THEN t
  ELSE ApplyConvert(SetCol(t, cv[1].as, [k \in 1..Len(t.rows) |-> ConvVal(cv[1].fn, t.rows[k][At(t, cv[1].f)], fmt)]), Tail(cv), fmt)

(* Row limits and order *)
ApplyHead(t, n) == Tab(t.cols, Take(t.rows, n), t.ord)
ApplyTail(t, n) == Tab(t.cols, SubSeq(t.rows, Max2(1, Len(t.rows) - n + 1), Len(t.rows)), t.ord)

\* keys: sequence of [c, asc]; Before: strictly before
RECURSIVE Before(_, _, _, _)
Before(t, keys, x, y) ==
  IF Len(keys) = 0 THEN FALSE
  ELSE LET a == x[At(t, keys[1].c)]  b == y[At(t, keys[1].c)]
       IN IF ValLess(a, b) THEN keys[1].asc ELSE IF ValLess(b, a) THEN ~keys[1].asc ELSE Before(t, Tail(keys), x, y)
RECURSIVE Insert(_, _, _, _)
Insert(t, keys, rows, r) ==
  IF Len(rows) = 0 THEN <<r>>
  ELSE IF Before(t, keys, r, rows[Len(rows)]) THEN Append(Insert(t, keys, SubSeq(rows, 1, Len(rows) - 1), r), rows[Len(rows)])
  ELSE Append(rows, r)
Sorted(t, keys) == FoldL(LAMBDA acc, r : Insert(t, keys, acc, r), <<>>, t.rows)
Ties(t, keys) == \E j, k \in 1..Len(t.rows) : j < k /\ ~Before(t, keys, t.rows[j], t.rows[k]) /\ ~Before(t, keys, t.rows[k], t.rows[j])
ApplySort(t, keys, n) ==
  LET q == Sorted(t, keys) IN Tab(t.cols, IF n = 0 THEN q ELSE Take(q, n), t.ord \/ ~Ties(t, keys))
SortOK(t, keys, n) == (t.ord \/ n = 0 \/ n >= Len(t.rows) \/ ~Ties(t, keys))
                      /\ \A j \in 1..Len(keys) : Ty(t, keys[j].c) # "x" /\ ~HasUndef(Column(t, keys[j].c))

(* Aggregation.  by: sequence of columns; aggs: sequence of [fn, f, as] (f may be "") *)
NonNull(q) == SelectSeq(q, LAMBDA v : ~IsNull(v))
RECURSIVE DistinctQ(_, _)
DistinctQ(q, acc) == IF Len(q) = 0 THEN acc
                     ELSE DistinctQ(Tail(q), IF \E k \in 1..Len(acc) : ValEq(acc[k], q[1]) THEN acc ELSE Append(acc, q[1]))
SumQ(q) == FoldL(LAMBDA x, y : Arith("+", x, y), q[1], Tail(q))
BestQ(q, hi) == FoldL(LAMBDA x, y : IF (IF hi THEN ValLess(x, y) ELSE ValLess(y, x)) THEN y ELSE x, q[1], Tail(q))
AggVal(fn, vals, n) ==
  LET q == NonNull(vals) IN
  CASE fn = "count" -> I(n)
    [] fn = "countf" -> I(Len(q))
    [] HasUndef(q) -> Undef
    [] fn \in {"dc", "distinct_count"} -> I(Len(DistinctQ(q, <<>>)))
    [] fn = "estdc" -> T("approx_count_distinct", <<I(Len(DistinctQ(q, <<>>)))>>)
    [] fn = "list" -> M(q)
    [] fn = "values" -> T("set", DistinctQ(q, <<>>))
    [] fn \in {"stdev", "stdevp", "var", "varp", "mode"} ->
         T(CASE fn = "stdev" -> "stddev_samp" [] fn = "stdevp" -> "stddev_pop" [] fn = "var" -> "var_samp"
             [] fn = "varp" -> "var_pop" [] fn = "mode" -> "mode", <<T("col", vals)>>)
    [] fn = "median" -> T("percentile_approx", <<T("col", vals), D(1, 2)>>)
    [] fn = "exactperc75" -> T("percentile", <<T("col", vals), D(3, 4)>>)
    [] fn = "percentile5" -> T("percentile_approx", <<T("col", vals), D(1, 20)>>)
    [] fn = "upperperc90" -> T("percentile_approx", <<T("col", vals), D(9, 10)>>)
    [] Len(q) = 0 -> Null
    [] fn = "first" -> q[1]
    [] fn = "last" -> q[Len(q)]
    [] fn = "earliest_time" -> BestQ(q, FALSE)
    [] fn = "latest_time" -> BestQ(q, TRUE)
    [] fn = "min" -> BestQ(q, FALSE)
    [] fn = "max" -> BestQ(q, TRUE)
    [] fn = "sum" -> SumQ(q)
    [] fn = "sumsq" -> SumQ([k \in 1..Len(q) |-> Arith("*", q[k], q[k])])
    [] fn \in {"avg", "mean"} -> LET s == SumQ(q) IN IF IsUndef(s) THEN Undef ELSE DR(Num(s), Den(s) * Len(q), Rounded(s))
OrderFns == {"first", "last", "list"}
TimeFns == {"earliest", "latest"}
ByTime(t) == Sorted(t, <<[c |-> "_time", asc |-> TRUE]>>)
KeyVal(t, b, row) == LET v == row[At(t, b.c)] IN IF b.span = "" THEN v ELSE T("window", <<v, S(b.span)>>)
KeyName(b) == IF b.span = "" THEN b.c ELSE "window"
KeyOf(t, by, row) == [j \in 1..Len(by) |-> KeyVal(t, by[j], row)]
RECURSIVE KeysQ(_, _, _, _)
KeysQ(t, by, rows, acc) ==
  IF Len(rows) = 0 THEN acc
  ELSE LET k == KeyOf(t, by, Head(rows)) IN KeysQ(t, by, Tail(rows), IF \E j \in 1..Len(acc) : acc[j] = k THEN acc ELSE Append(acc, k))
AggOf(t, a, grp) ==
  LET col(c) == [k \in 1..Len(grp) |-> grp[k][At(t, c)]]
      byt == Sorted(Tab(t.cols, grp, TRUE), <<[c |-> "_time", asc |-> TRUE]>>)
      colt(c) == [k \in 1..Len(byt) |-> byt[k][At(t, c)]]
  IN CASE a.fn = "count" /\ a.f = "" -> AggVal("count", <<>>, Len(grp))
       [] a.fn = "count" -> AggVal("countf", col(a.f), Len(grp))
       [] a.fn = "earliest" -> AggVal("first", colt(a.f), Len(grp))
       [] a.fn = "latest" -> AggVal("last", colt(a.f), Len(grp))
       [] a.fn \in {"earliest_time", "latest_time"} -> AggVal(a.fn, col("_time"), Len(grp))
       [] OTHER -> AggVal(a.fn, col(a.f), Len(grp))
ApplyStats(t, aggs, by) ==
  LET keys == IF Len(by) = 0 THEN << <<>> >> ELSE KeysQ(t, by, t.rows, <<>>)
      grp(k) == IF Len(by) = 0 THEN t.rows ELSE SelectSeq(t.rows, LAMBDA r : KeyOf(t, by, r) = k)
  IN Tab([j \in 1..Len(by) |-> KeyName(by[j])] \o [j \in 1..Len(aggs) |-> aggs[j].as],
         [g \in 1..Len(keys) |-> keys[g] \o [j \in 1..Len(aggs) |-> AggOf(t, aggs[j], grp(keys[g]))]], FALSE)
StatsOK(t, aggs, by) ==
  /\ \A j \in 1..Len(aggs) : /\ aggs[j].f = "" \/ aggs[j].f \in Uniq(t)
                             /\ aggs[j].fn \in OrderFns => t.ord
                             /\ aggs[j].fn \in TimeFns \cup {"earliest_time", "latest_time"} => ("_time" \in Uniq(t) /\ Ty(t, "_time") = "n")
                             /\ aggs[j].fn \in TimeFns => (t.ord \/ ~Ties(t, <<[c |-> "_time", asc |-> TRUE]>>))
  /\ \A j \in 1..Len(by) : by[j].c \in Uniq(t) /\ ~HasUndef(Column(t, by[j].c)) /\ ~HasStat(Column(t, by[j].c))
  /\ Distinct([j \in 1..Len(by) |-> KeyName(by[j])] \o [j \in 1..Len(aggs) |-> aggs[j].as])

(* Combining tables *)
Nulls(n) == [k \in 1..n |-> Null]
UnionByName(t, u) ==
  LET extra == SelectSeq(u.cols, LAMBDA c : c \notin ColsOf(t))
  IN Tab(t.cols \o extra,
         [k \in 1..Len(t.rows) |-> t.rows[k] \o Nulls(Len(extra))] \o
         [k \in 1..Len(u.rows) |-> [j \in 1..Len(t.cols \o extra) |->
            LET c == (t.cols \o extra)[j] IN IF c \in ColsOf(u) THEN u.rows[k][At(u, c)] ELSE Null]], FALSE)
UnionOK(t, u) == Uniq(t) = ColsOf(t) /\ Uniq(u) = ColsOf(u)

\* join on equality of fs, optionally also on time; kind inner, left or outer
JoinMatch(t, u, fs, tm, x, y) ==
  /\ \A j \in 1..Len(fs) : Cmp("=", x[At(t, fs[j])], y[At(u, fs[j])]) = True3
  /\ CASE tm = "no" -> TRUE
       [] tm = "earlier" -> Cmp(">=", x[At(t, "_time")], y[At(u, "_time")]) = True3
       [] tm = "later" -> Cmp("<=", x[At(t, "_time")], y[At(u, "_time")]) = True3
ApplyJoin(t, u, fs, kind, tm) ==
  LET hits(x) == SelectSeq(u.rows, LAMBDA y : JoinMatch(t, u, fs, tm, x, y))
      left == [k \in 1..Len(t.rows) |->
                 LET h == hits(t.rows[k])
                 IN IF Len(h) > 0 THEN [j \in 1..Len(h) |-> t.rows[k] \o h[j]]
                    ELSE IF kind = "inner" THEN <<>> ELSE << t.rows[k] \o Nulls(Len(u.cols)) >>]
      lone == SelectSeq(u.rows, LAMBDA y : ~\E k \in 1..Len(t.rows) : JoinMatch(t, u, fs, tm, t.rows[k], y))
  IN Tab(t.cols \o u.cols,
         FlatQ(left) \o (IF kind = "outer" THEN [k \in 1..Len(lone) |-> Nulls(Len(t.cols)) \o lone[k]] ELSE <<>>), FALSE)
SameTy(t, u, a, b) == Ty(t, a) = Ty(u, b) /\ Ty(t, a) \in {"n", "s"}
JoinOK(t, u, fs, tm) ==
  /\ \A j \in 1..Len(fs) : fs[j] \in Uniq(t) \cap Uniq(u) /\ SameTy(t, u, fs[j], fs[j])
  /\ tm = "no" \/ ("_time" \in Uniq(t) \cap Uniq(u) /\ SameTy(t, u, "_time", "_time"))

\* lookup: on = sequence of <<lookup column, event column>>; out = sequence of <<lookup column, new name>>
ApplyLookup(t, u, on, out) ==
  LET match(x, y) == \A j \in 1..Len(on) : Cmp("=", x[At(t, on[j][2])], y[At(u, on[j][1])]) = True3
      hits(x) == SelectSeq(u.rows, LAMBDA y : match(x, y))
  IN Tab(t.cols \o [j \in 1..Len(out) |-> out[j][2]],
         FlatQ([k \in 1..Len(t.rows) |->
            LET h == hits(t.rows[k])
            IN IF Len(h) = 0 THEN << t.rows[k] \o Nulls(Len(out)) >>
               ELSE [j \in 1..Len(h) |-> t.rows[k] \o [i \in 1..Len(out) |-> h[j][At(u, out[i][1])]]]]), FALSE)
LookupOK(t, u, on, out) ==
  /\ \A j \in 1..Len(on) : on[j][1] \in Uniq(u) /\ on[j][2] \in Uniq(t) /\ SameTy(t, u, on[j][2], on[j][1])
  /\ \A j \in 1..Len(out) : out[j][1] \in Uniq(u) /\ out[j][2] \notin ColsOf(t)
  /\ Distinct([j \in 1..Len(out) |-> out[j][2]])

(* Field extraction.  A pattern is a sequence of parts:                     *)
(* [l |-> text]                  the text itself                            *)
(* [c |-> "w" or "d"]            one or more word characters / digits       *)
(* [g |-> name or "", c |-> ..]  the same, captured                         *)
(* [alts |-> patterns, cap |-> name, "" or "-", q |-> "", "?", "*" or "+"]  *)
(*   a group of alternatives, captured by name, by number or not, repeated. *)
(* Ways yields the ways to match, in the order of a backtracking matcher,   *)
(* each with its end and its captures <<number, text>> (the last one wins). *)
InClass(ch, c) == IF c = "d" THEN IsDigit(ch) ELSE IsDigit(ch) \/ ch = "_" \/ Lo(ch) \in Range(LowerS)
RECURSIVE Run(_, _, _)
Run(s, p, c) == IF p <= Len(s) /\ InClass(SubSeq(s, p, p), c) THEN Run(s, p + 1, c) ELSE p
RECURSIVE GroupNames(_)
GroupNames(pat) ==   \* of all the captures, in the order of their opening parentheses
  IF Len(pat) = 0 THEN <<>>
  ELSE LET h == pat[1] IN
       (IF "g" \in DOMAIN h THEN <<h.g>>
        ELSE IF "alts" \in DOMAIN h THEN (IF h.cap = "-" THEN <<>> ELSE <<h.cap>>) \o FlatQ([j \in 1..Len(h.alts) |-> GroupNames(h.alts[j])])
        ELSE <<>>) \o GroupNames(Tail(pat))
NCap(pat) == Len(GroupNames(pat))
RECURSIVE Ways(_, _, _, _), WaysOf(_, _, _, _), Body(_, _, _, _), Star(_, _, _, _)
Ways(pat, s, p, n) ==   \* n captures have been opened before
  IF Len(pat) = 0 THEN <<[e |-> p, g |-> <<>>]>>
  ELSE LET ms == WaysOf(pat[1], s, p, n)
       IN FlatQ([j \in 1..Len(ms) |->
            LET rest == Ways(Tail(pat), s, ms[j].e, n + NCap(<<pat[1]>>))
            IN [k \in 1..Len(rest) |-> [e |-> rest[k].e, g |-> ms[j].g \o rest[k].g]]])
WaysOf(h, s, p, n) ==
  IF "l" \in DOMAIN h
  THEN IF SubSeq(s, p, Min2(p + Len(h.l) - 1, Len(s))) = h.l THEN <<[e |-> p + Len(h.l), g |-> <<>>]>> ELSE <<>>
  ELSE IF "c" \in DOMAIN h
  THEN LET x == Run(s, p, h.c)
       IN [j \in 1..(x - p) |-> [e |-> x - j + 1, g |-> IF "g" \in DOMAIN h THEN << <<n + 1, SubSeq(s, p, x - j)>> >> ELSE <<>>]]
  ELSE CASE h.q = ""  -> Body(h, s, p, n)
         [] h.q = "?" -> Body(h, s, p, n) \o <<[e |-> p, g |-> <<>>]>>
         [] h.q = "*" -> Star(h, s, p, n)
         [] h.q = "+" -> LET ms == Body(h, s, p, n)
                         IN FlatQ([j \in 1..Len(ms) |-> LET r == Star(h, s, ms[j].e, n)
                              IN [k \in 1..Len(r) |-> [e |-> r[k].e, g |-> ms[j].g \o r[k].g]]])
Body(h, s, p, n) ==
  LET own == IF h.cap = "-" THEN 0 ELSE 1
      start(j) == n + own + Len(FlatQ([k \in 1..(j - 1) |-> GroupNames(h.alts[k])]))
      one(j) == LET ms == Ways(h.alts[j], s, p, start(j))
                IN IF own = 0 THEN ms ELSE [k \in 1..Len(ms) |-> [ms[k] EXCEPT !.g = Append(@, <<n + 1, SubSeq(s, p, ms[k].e - 1)>>)]]
  IN FlatQ([j \in 1..Len(h.alts) |-> one(j)])
Star(h, s, p, n) ==   \* (no iteration is empty)
  LET ms == SelectSeq(Body(h, s, p, n), LAMBDA m : m.e > p)
  IN FlatQ([j \in 1..Len(ms) |-> LET r == Star(h, s, ms[j].e, n)
       IN [k \in 1..Len(r) |-> [e |-> r[k].e, g |-> ms[j].g \o r[k].g]]]) \o <<[e |-> p, g |-> <<>>]>>
RECURSIVE MatchFrom(_, _, _)
MatchFrom(pat, s, p) == IF p > Len(s) + 1 THEN [ok |-> FALSE]
                        ELSE LET ms == Ways(pat, s, p, 0)
                             IN IF Len(ms) > 0 THEN [ok |-> TRUE, g |-> ms[1].g, b |-> p, e |-> ms[1].e] ELSE MatchFrom(pat, s, p + 1)
\* the text of capture j: its last iteration; nothing where it took no part in the match
CapText(m, j) == LET q == SelectSeq(m.g, LAMBDA x : x[1] = j) IN IF Len(q) = 0 THEN "" ELSE q[Len(q)][2]
EscRe(x) == FoldL(LAMBDA acc, ch : acc \o (IF ch \in {".", "[", "]", "(", ")", "*", "+", "?", "$", "|"} THEN "\\" \o ch ELSE ch), "", Chars(x))
RECURSIVE PatTxt(_)
CapOpen(n) == IF n = "-" THEN "(?:" ELSE IF n = "" THEN "(" ELSE "(?<" \o n \o ">"
PatTxt(pat) ==
  Cat([j \in 1..Len(pat) |-> LET h == pat[j] IN
     IF "l" \in DOMAIN h THEN EscRe(h.l)
     ELSE IF "alts" \in DOMAIN h THEN CapOpen(h.cap) \o JoinStr([k \in 1..Len(h.alts) |-> PatTxt(h.alts[k])], "|") \o ")" \o h.q
     ELSE LET body == "\\" \o h.c \o "+" IN
          IF "g" \notin DOMAIN h THEN body ELSE CapOpen(h.g) \o body \o ")"])
Groups(pat) == GroupNames(pat)
GroupName(pat, j) == LET n == Groups(pat)[j] IN IF n = "" THEN ToString(j) ELSE n
\* each group becomes a column; the groups of one rex all read the field as it was before it (no group may be named like it)
RECURSIVE RexCols(_, _, _, _)
RexCols(t, pat, src, j) ==
  IF j > Len(Groups(pat)) THEN t
  ELSE RexCols(SetCol(t, GroupName(pat, j),
         [k \in 1..Len(t.rows) |-> IF IsNull(src[k]) THEN Null ELSE LET m == MatchFrom(pat, src[k].s, 1) IN S(IF m.ok THEN CapText(m, j) ELSE "")]), pat, src, j + 1)
ApplyRex(t, f, pat) == RexCols(t, pat, Column(t, f), 1)
RexOK(t, f, pat) == f \in Uniq(t) /\ Ty(t, f) = "s" /\ \A j \in 1..Len(Groups(pat)) : Free(t, GroupName(pat, j)) /\ GroupName(pat, j) # f
MatchVal(v, pat) == IF IsNull(v) THEN Null ELSE B(MatchFrom(pat, v.s, 1).ok)
ApplyRegex(t, f, neg, pat) ==
  Tab(t.cols, SelectSeq(t.rows, LAMBDA r : LET v == MatchVal(r[At(t, f)], pat) IN (IF neg THEN Not3(v) ELSE v) = True3), t.ord)
RegexOK(t, f) == f \in Uniq(t) /\ Ty(t, f) = "s"
ApplySpath(t, inp, out, path) ==
  SetCol(t, out, [k \in 1..Len(t.rows) |-> LET x == t.rows[k][At(t, inp)] IN IF IsNull(x) THEN Null ELSE T("get_json_object", <<x, S("$." \o path)>>)])
=============================================================================
