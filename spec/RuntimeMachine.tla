---------------------------- MODULE RuntimeMachine ----------------------------
(***************************************************************************)
(* Programs that call the runtime library directly.                        *)
(*                                                                         *)
(* The state is the sequence of the data frames made so far, each with the *)
(* line of Python that makes it and the table it must hold.  Every action  *)
(* makes one more frame: from a source (search without a data frame,       *)
(* data_model, tstats with from_) or from any earlier frame, so that one   *)
(* frame may have several successors; all of them, the given frames        *)
(* included, must hold their tables when the program has run.              *)
(* The meaning of each call is the meaning of the SPL command of its name. *)
(***************************************************************************)
EXTENDS SplPipeline

-----------------------------------------------------------------------------
(* More tables, for the keywords of search *)
EvT == Tab(<<"_source", "_sourcetype", "_host", "_hosttag", "_eventtype", "_eventtypetag", "_savedsearch", "_splunk_server", "a", "s">>, <<
  <<S("app"), S("json"), S("h1"), S("t1"), S("e1"), S("g1"), S("q1"), S("z1"), I(1), S("x")>>,
  <<S("app"), S("text"), S("h2"), S("t1"), S("e2"), S("g1"), S("q2"), S("z2"), I(2), S("yy")>>,
  <<S("web"), S("json"), S("h1"), S("t2"), S("e1"), S("g2"), S("q1"), S("z1"), I(2), S("x")>>,
  <<Null,     S("json"), S("h2"), Null,    S("e1"), S("g1"), S("q1"), S("z2"), N0,   N0>>,
  <<S("app"), Null,      S("h1"), S("t1"), Null,    S("g2"), S("q2"), Null,    I(3), S("a b")>> >>, TRUE)
FlatT == Tab(<<"source", "sourcetype", "host", "hosttag", "eventtype", "eventtypetag", "savedsplunk", "splunk_server", "index", "a", "s">>,
             [k \in 1..Len(EvT.rows) |-> SubSeq(EvT.rows[k], 1, 8) \o <<S(IF k % 2 = 0 THEN "main" ELSE "web")>> \o SubSeq(EvT.rows[k], 9, 10)], TRUE)
MoreTables == [ev |-> EvT, flat |-> FlatT, app_json_silver |-> EvT, app_silver |-> MainT, json_silver |-> EvT]
\* the keywords: name, column of the stored table, column of a data frame, values
Kws == <<[k |-> "source", t |-> "_source", f |-> "source", v |-> {"app", "web", "none"}],
         [k |-> "source_type", t |-> "_sourcetype", f |-> "sourcetype", v |-> {"json", "text"}],
         [k |-> "host", t |-> "_host", f |-> "host", v |-> {"h1", "h2"}],
         [k |-> "host_tag", t |-> "_hosttag", f |-> "hosttag", v |-> {"t1", "t2"}],
         [k |-> "event_type", t |-> "_eventtype", f |-> "eventtype", v |-> {"e1", "e2"}],
         [k |-> "event_type_tag", t |-> "_eventtypetag", f |-> "eventtypetag", v |-> {"g1", "g2"}],
         [k |-> "saved_splunk", t |-> "_savedsearch", f |-> "savedsplunk", v |-> {"q1", "q2"}],
         [k |-> "splunk_server", t |-> "_splunk_server", f |-> "splunk_server", v |-> {"z1", "z2"}]>>

-----------------------------------------------------------------------------
(* Expressions in Python *)
PyStr(s) == "'" \o ReplaceAll(ReplaceAll(s, "\\", "\\\\"), "'", "\\'") \o "'"
PyVal(v) == CASE IsStr(v) -> PyStr(v.s) [] IsNull(v) -> "None" [] IsBool(v) -> (IF v.b THEN "True" ELSE "False") [] OTHER -> NumText(v)
PyFnName(f) == IF f \in {"if", "in", "len", "sum", "max", "min"} THEN f \o "_" ELSE f
RECURSIVE Py(_)
Py(e) ==   \* a column
  CASE e.k = "f" -> "F.col(" \o PyStr(e.f) \o ")"
    [] e.k = "l" -> "F.lit(" \o PyVal(e.v) \o ")"
    [] e.k = "n" -> "(~" \o Py(e.e) \o ")"
    [] e.k = "i" -> "F.col(" \o PyStr(e.f) \o ").isin(" \o JoinStr([j \in 1..Len(e.vs) |-> PyVal(e.vs[j])], ", ") \o ")"
    [] e.k = "b" -> IF e.o = "." THEN "F.concat(" \o Py(e.l) \o ", " \o Py(e.r) \o ")"
                    ELSE "(" \o Py(e.l) \o " " \o (CASE e.o = "=" -> "==" [] e.o = "AND" -> "&" [] e.o = "OR" -> "|" [] OTHER -> e.o) \o " " \o Py(e.r) \o ")"
    [] e.k = "c" -> "functions.eval." \o PyFnName(e.f) \o "(" \o
                    JoinStr([j \in 1..Len(e.a) |-> LET x == e.a[j] IN IF j % 2 = 1 /\ x.k = "f" THEN PyStr(x.f) ELSE Py(x)], ", ") \o ")"
\* an expression as an argument: a plain text is the name of a column, other plain values are themselves
Arg(e, plain) == IF plain /\ e.k = "f" THEN PyStr(e.f) ELSE IF plain /\ e.k = "l" /\ ~IsStr(e.v) THEN PyVal(e.v) ELSE Py(e)

\* names of columns that can be keywords
Name(t) == {c \in Uniq(t) : Plain(c) /\ c \notin {"index", "source", "sourcetype", "host", "splunk_server", "by", "df", "M.x"} /\ ~Contains(c, ".")}
KwConds(t) ==
  UNION {{[c |-> c, e |-> Lit(v)] : v \in {I(2), I(5), I(-1), Null}} \cup {[c |-> c, e |-> Bin("-", F(d), Lit(I(1)))] : d \in Name(t) \cap Range(Ns(t))}
         \cup {[c |-> c, e |-> F(d)] : d \in Name(t) \cap Range(Ns(t))} : c \in Name(t) \cap Range(Ns(t))}
  \cup UNION {{[c |-> c, e |-> Lit(S(v))] : v \in {"x", "a b", "it's"}} \cup {[c |-> c, e |-> Fn("lower", <<F(d)>>)] : d \in Name(t) \cap Range(Ss(t))}
         \cup {[c |-> c, e |-> F(d)] : d \in Name(t) \cap Range(Ss(t))} : c \in Name(t) \cap Range(Ss(t))}
KwE(kw) == Bin("=", F(kw.c), kw.e)
KwTxt(kw, plain) == kw.c \o "=" \o Arg(kw.e, plain)
AllE(q) == IF Len(q) = 1 THEN q[1] ELSE FoldL(LAMBDA x, y : Bin("AND", x, y), q[1], Tail(q))
\* the conditions of one search: expressions, then keywords for fields (each field once)
CondSets(t) == LET c == Pick(Conds(t))  d == Pick(Conds(t))  k == Pick(KwConds(t))  l == Pick(KwConds(t)) IN
  {[es |-> <<>>, ks |-> <<>>]} \cup {[es |-> <<x>>, ks |-> <<>>] : x \in c} \cup {[es |-> <<>>, ks |-> <<x>>] : x \in k}
  \cup {[es |-> <<x>>, ks |-> <<y>>] : x \in c, y \in k}
  \cup (IF Sim THEN {[es |-> <<x, y>>, ks |-> <<z>>] : x \in c, y \in d, z \in k} \cup {[es |-> <<x, y>>, ks |-> <<>>] : x \in c, y \in d}
               \cup {[es |-> <<>>, ks |-> <<x, y>>] : x \in k, y \in {y \in l : \A x1 \in k : x1.c # y.c}} ELSE {})
CondE(s) == s.es \o [j \in 1..Len(s.ks) |-> KwE(s.ks[j])]
ApplyAll(t, s) == LET q == CondE(s) IN IF q = <<>> THEN t ELSE ApplyWhere(t, AllE(q))
AllOK(t, s) == LET q == CondE(s) IN q = <<>> \/ WhereOK(t, AllE(q))
CondTxt(s, plain) == [j \in 1..Len(s.es) |-> Py(s.es[j])]
KwTxts(s, plain) == [j \in 1..Len(s.ks) |-> KwTxt(s.ks[j], plain)]
Call(f, as) == f \o "(" \o JoinStr(SelectSeq(as, LAMBDA x : x # ""), ", ") \o ")"

-----------------------------------------------------------------------------
Rt(f) == f \in Fams /\ Len(ps) < MaxLen
Frame(k) == "f" \o ToString(k)
Make(fam, call, tab, rd) == ps' = Append(ps, [x |-> call, t |-> tab, fam |-> {fam}, rd |-> rd])
\* ---- sources
LoadIndex == /\ Rt("search")
             /\ \E i \in Pick({"main", "web", "audit"}), none \in Pick({"None", ""}), plain \in Pick(BOOLEAN) : LET t == Tables[i] IN
                \E s \in Pick({s \in CondSets(t) : AllOK(t, s)}) :
                  /\ none # "" \/ s.es = <<>>
                  /\ Make("search", Call("commands.search", <<none>> \o CondTxt(s, plain) \o (IF plain THEN <<"index=" \o PyStr(i)>> \o KwTxts(s, plain) ELSE KwTxts(s, plain) \o <<"index=" \o PyStr(i)>>)),
                          ApplyAll(t, s), <<i>>)
KwPairs == {<<>>} \cup {<<a>> : a \in 1..8} \cup {<<a, b>> : a, b \in 1..8}
LoadKw == /\ Rt("search")
          /\ \E q \in Pick({q \in KwPairs : Distinct(q)}) : \E vs \in Pick([1..Len(q) -> {"app", "web", "none", "json", "text", "h1", "h2", "t1", "t2", "e1", "e2", "g1", "g2", "q1", "q2", "z1", "z2"}]) :
             /\ ~Sim \/ TRUE
             /\ LET w == [j \in 1..Len(q) |-> [k |-> Kws[q[j]], v |-> IF vs[j] \in Kws[q[j]].v THEN vs[j] ELSE CHOOSE x \in Kws[q[j]].v : TRUE]]
                    keep(r) == \A j \in 1..Len(w) : r[At(EvT, w[j].k.t)] = S(w[j].v)
                IN Make("search", Call("commands.search", <<"None", "index='ev'">> \o [j \in 1..Len(w) |-> w[j].k.k \o "=" \o PyStr(w[j].v)]),
                        Tab(EvT.cols, SelectSeq(EvT.rows, keep), TRUE), <<"ev">>)
\* without an index the source and its type name the table; they are no conditions then
LoadNamed == /\ Rt("search")
             /\ \E w \in Pick({[a |-> "source='app', source_type='json'", n |-> "app_json_silver", t |-> EvT], [a |-> "source='app'", n |-> "app_silver", t |-> MainT],
                               [a |-> "source_type='json'", n |-> "json_silver", t |-> EvT]}) :
                \E h \in Pick({"", "h1", "h2"}) :
                  /\ h = "" \/ w.t = EvT
                  /\ Make("search", Call("commands.search", <<"None", w.a, IF h = "" THEN "" ELSE "host=" \o PyStr(h)>>),
                          IF h = "" THEN w.t ELSE Tab(EvT.cols, SelectSeq(EvT.rows, LAMBDA r : r[At(EvT, "_host")] = S(h)), TRUE), <<w.n>>)
LoadFlat == /\ Rt("search") /\ Make("search", "commands.search(None, index='flat')", FlatT, <<"flat">>)
Model == /\ Rt("data_model")
         /\ \E w \in Pick({<<"'M'", "M">>, <<"None, 'M'", "M">>, <<"data_model_name='M', dataset_name=None, search_mode='search', strict_fields=False, allow_old_summaries=False, summaries_only=True", "M">>,
                           <<"'M', 'M.D'", "M.D">>, <<"None, data_model_name='M', dataset_name='M.D'", "M.D">>, <<"'M', dataset_name='M.D', search_mode=None", "M.D">>}) :
              Make("data_model", "commands.data_model(" \o w[1] \o ")", DmT, <<w[2]>>)
\* ---- from a frame
Search2 == /\ Rt("search") /\ Len(ps) > 0
           /\ \E j \in Pick(1..Len(ps)), plain \in Pick(BOOLEAN) : LET t == ps[j].t IN
              \E s \in Pick({s \in CondSets(t) : AllOK(t, s)}) :
                Make("search", Call("commands.search", <<Frame(j)>> \o CondTxt(s, plain) \o KwTxts(s, plain)), ApplyAll(t, s), <<>>)
\* the keywords of a search of a frame are conditions on its columns
SearchKw == /\ Rt("search")
            /\ \E j \in Pick({j \in 1..Len(ps) : {"source", "host", "index"} \subseteq Uniq(ps[j].t)}), a \in Pick(1..8), b \in Pick(0..8), i \in Pick({"", "main", "web"}) :
               LET t == ps[j].t IN
               \E v \in Pick(Kws[a].v) : \E w \in Pick(IF b = 0 THEN {""} ELSE Kws[b].v) :
                 /\ a # b /\ Kws[a].f \in Uniq(t) /\ (b # 0 => Kws[b].f \in Uniq(t))
                 /\ Make("search", Call("commands.search", <<Frame(j), Kws[a].k \o "=" \o PyStr(v), IF b = 0 THEN "" ELSE Kws[b].k \o "=" \o PyStr(w), IF i = "" THEN "" ELSE "index=" \o PyStr(i)>>),
                         Tab(t.cols, SelectSeq(t.rows, LAMBDA r : /\ r[At(t, Kws[a].f)] = S(v)
                                                                  /\ b # 0 => r[At(t, Kws[b].f)] = S(w)
                                                                  /\ i # "" => r[At(t, "index")] = S(i)), t.ord), <<>>)
Eval2 == /\ Rt("eval") /\ Len(ps) > 0
         /\ \E j \in Pick(1..Len(ps)), plain \in Pick(BOOLEAN) : LET t == ps[j].t IN
            \E as \in Pick({as \in EvalLists(t) : EvalOK(t, as) /\ Distinct([k \in 1..Len(as) |-> as[k].n]) /\ \A k \in 1..Len(as) : as[k].n # "df" /\ ~Contains(as[k].n, ".")}) :
              Make("eval", Call("commands.eval", <<Frame(j)>> \o [k \in 1..Len(as) |-> as[k].n \o "=" \o Arg(as[k].e, plain)]), ApplyEval(t, as), <<>>)
Fill2 == /\ Rt("fillnull") /\ Len(ps) > 0
         /\ \E j \in Pick(1..Len(ps)), v \in Pick({"0", "none", "-7", "n a"}) : LET t == ps[j].t IN
            \E q \in Pick({<<>>} \cup PermsOf(NCol(t) \cup SCol(t), 1, 2)), form \in Pick(1..3) :
              /\ FillOK(t)
              /\ Make("fillnull", Call("commands.fill_null", <<Frame(j), (IF form = 2 THEN "" ELSE "value=") \o PyStr(v),
                        IF q # <<>> THEN (IF form = 2 THEN "" ELSE "fields=") \o "[" \o JoinStr([k \in 1..Len(q) |-> PyStr(q[k])], ", ") \o "]" ELSE IF form = 3 THEN "fields=None" ELSE "">>),
                      ApplyFill(t, v, IF q = <<>> THEN ColsOf(t) ELSE Range(q)), <<>>)
\* ---- aggregation
PyStat(fn) == IF fn \in {"sum", "list"} THEN fn \o "_" ELSE fn
StatTxt(a, plain) == a.as \o "=functions.stats." \o
  (CASE a.fn = "exactperc75" -> "exactperc(" [] a.fn = "percentile5" -> "percentile(" [] a.fn = "upperperc90" -> "upperperc(" [] OTHER -> PyStat(a.fn) \o "(")
  \o (IF a.f = "" THEN "" ELSE Arg(a.e, plain)) \o (CASE a.fn = "exactperc75" -> ", 75" [] a.fn = "percentile5" -> ", percentile=5" [] a.fn = "upperperc90" -> ", 90" [] OTHER -> "") \o ")"
NewName(j) == "g" \o ToString(j)
\* an aggregation of an expression is one of a column that holds it
ExprAggs(t) == {[fn |-> fn, f |-> "#", e |-> e] : fn \in {"sum", "max", "count", "values", "avg"}, e \in NumExprs(t)}
ColAggs(t) == {[fn |-> a.fn, f |-> a.f, e |-> IF a.f = "" THEN Lit(I(0)) ELSE F(a.f)] : a \in AggsOf(t)}
TmAggs(t) == {[fn |-> a.fn, f |-> a.f, e |-> F(a.f)] : a \in IF "_time" \in Uniq(t) THEN TimeAggs(t) ELSE {}} \cup
             {[fn |-> "rate", f |-> c, e |-> F(c)] : c \in IF "_time" \in Uniq(t) THEN NCol(t) ELSE {}}
RangeAggs(t) == {[fn |-> "range", f |-> c, e |-> F(c)] : c \in NCol(t)}
RtAggs(t) == ColAggs(t) \cup ExprAggs(t) \cup RangeAggs(t)
AggQs(t) == LET p == Pick(RtAggs(t))  q == Pick(RtAggs(t))  r == Pick(RtAggs(t))  tm == Pick(TmAggs(t)) IN
  {<<a>> : a \in p} \cup {<<a>> : a \in tm}
  \cup (IF Sim THEN {<<a, b>> : a \in p, b \in q} \cup {<<a, b, c>> : a \in p, b \in q, c \in r}
               \cup {<<a, b>> : a \in tm, b \in {x \in p : x.fn \notin OrderFns}} \cup {<<b, a, c>> : a \in tm, b \in {x \in q : x.fn \notin OrderFns}, c \in {x \in r : x.fn \notin OrderFns}} ELSE {})
NamedAggs(q) == [j \in 1..Len(q) |-> [fn |-> q[j].fn, f |-> IF q[j].f = "#" THEN "#" \o ToString(j) ELSE q[j].f, e |-> q[j].e, as |-> NewName(j)]]
\* the frame with the columns that the expressions and the groups need
Widen(t, aggs, by) ==
  LET t1 == FoldL(LAMBDA u, a : IF StartsWith(a.f, "#") THEN EvalOne(u, a.f, a.e) ELSE u, t, aggs)
  IN FoldL(LAMBDA u, b : IF b.e.k = "f" THEN u ELSE EvalOne(u, b.c, b.e), t1, by)
RateVal(t, f, grp) ==
  LET byt == Sorted(Tab(t.cols, grp, TRUE), <<[c |-> "_time", asc |-> TRUE]>>)
      v == [k \in 1..Len(byt) |-> byt[k][At(t, f)]]  tm == [k \in 1..Len(byt) |-> byt[k][At(t, "_time")]]
  IN IF Len(byt) = 0 THEN Null ELSE Arith("/", Arith("-", v[Len(v)], v[1]), Arith("-", BestQ(tm, TRUE), BestQ(tm, FALSE)))
RtAgg(t, a, grp) ==
  LET col == NonNull([k \in 1..Len(grp) |-> grp[k][At(t, a.f)]]) IN
  CASE a.fn = "range" -> (IF HasUndef(col) THEN Undef ELSE IF col = <<>> THEN Null ELSE Arith("-", BestQ(col, TRUE), BestQ(col, FALSE)))
    [] a.fn = "rate" -> RateVal(t, a.f, grp)
    [] OTHER -> AggOf(t, a, grp)
RtStats(t0, aggs, by) ==
  LET t == Widen(t0, aggs, by)
      bys == [j \in 1..Len(by) |-> [c |-> by[j].c, span |-> ""]]
      keys == IF Len(by) = 0 THEN << <<>> >> ELSE KeysQ(t, bys, t.rows, <<>>)
      grp(k) == IF Len(by) = 0 THEN t.rows ELSE SelectSeq(t.rows, LAMBDA r : KeyOf(t, bys, r) = k)
  IN Tab([j \in 1..Len(by) |-> by[j].c] \o [j \in 1..Len(aggs) |-> aggs[j].as],
         [g \in 1..Len(keys) |-> keys[g] \o [j \in 1..Len(aggs) |-> RtAgg(t, aggs[j], grp(keys[g]))]], FALSE)
RtStatsOK(t0, aggs, by) ==
  LET t == Widen(t0, aggs, by) IN
  /\ \A j \in 1..Len(aggs) : Fields(aggs[j].e) \subseteq Uniq(t0)
  /\ \A j \in 1..Len(by) : Fields(by[j].e) \subseteq Uniq(t0)
  /\ \A j \in 1..Len(aggs) : aggs[j].fn = "rate" => StatsOK(t, <<[aggs[j] EXCEPT !.fn = "latest"]>>, <<>>) /\ ~HasUndef(Column(t, aggs[j].f))
  /\ StatsOK(t, SelectSeq(aggs, LAMBDA a : a.fn \notin {"range", "rate"}), [j \in 1..Len(by) |-> [c |-> by[j].c, span |-> ""]])
GroupQs(t) == {<<>>} \cup {<<[c |-> c, e |-> F(c)]>> : c \in Name(t)} \cup {<<[c |-> c, e |-> F(c)], [c |-> d, e |-> F(d)]>> : c, d \in Name(t)}
              \cup UNION {{<<[c |-> "h1", e |-> e]>>, <<[c |-> c, e |-> F(c)], [c |-> "h1", e |-> e]>>} : c \in Name(t), e \in IF "h1" \in ColsOf(t) THEN {} ELSE Pick(NumExprs(t))}
ByTxt2(by, plain) == "[" \o JoinStr([j \in 1..Len(by) |-> IF by[j].e.k = "f" THEN Arg(by[j].e, plain) ELSE Py(by[j].e) \o ".alias(" \o PyStr(by[j].c) \o ")"], ", ") \o "]"
Stats2 == /\ Rt("stats") /\ Len(ps) > 0
          /\ \E j \in Pick(1..Len(ps)), plain \in Pick(BOOLEAN) : LET t == ps[j].t IN
             \E q \in Pick(AggQs(t)) : \E by \in Pick({b \in GroupQs(t) : Distinct([k \in 1..Len(b) |-> b[k].c])}) :
               LET aggs == NamedAggs(q) IN
               /\ RtStatsOK(t, aggs, by)
               /\ Make("stats", Call("commands.stats", <<Frame(j), IF by = <<>> /\ plain THEN "" ELSE "by=" \o ByTxt2(by, plain)>> \o [k \in 1..Len(aggs) |-> StatTxt(aggs[k], plain)]),
                       RtStats(t, aggs, by), <<>>)
TStats == /\ Rt("tstats")
          /\ \E j \in Pick(0..Len(ps)), plain \in Pick(BOOLEAN) : LET t0 == IF j = 0 THEN DmT ELSE ps[j].t IN
             \E fill \in Pick({"", "0", "x"}) : \E dm \in Pick({<<"from_=dict(datamodel='M')", "M">>, <<"from_=dict(datamodel='M', nodename='M.D')", "M.D">>}) :
             LET t == IF fill = "" THEN t0 ELSE ApplyFill(t0, fill, ColsOf(t0)) IN
             \E w \in Pick({<<>>} \cup {<<e>> : e \in {e \in Conds(t) : WhereOK(t, e)}}) : LET t2 == IF w = <<>> THEN t ELSE ApplyWhere(t, w[1]) IN
             \E q \in Pick(AggQs(t)) : \E by \in Pick({b \in GroupQs(t) : Distinct([k \in 1..Len(b) |-> b[k].c])}) :
               LET aggs == NamedAggs(q) IN
               /\ (fill = "" \/ FillOK(t0)) /\ RtStatsOK(t2, aggs, by)
               /\ Make("tstats", Call("commands.tstats", <<IF j = 0 THEN dm[1] ELSE Frame(j), IF fill = "" THEN "" ELSE "fill_null_value=" \o PyStr(fill),
                                 IF w = <<>> THEN "" ELSE "where=" \o Py(w[1]), IF by = <<>> /\ plain THEN "" ELSE "by=" \o ByTxt2(by, plain)>> \o [k \in 1..Len(aggs) |-> StatTxt(aggs[k], plain)]),
                       RtStats(t2, aggs, by), IF j = 0 THEN <<dm[2]>> ELSE <<>>)

RNext == LoadIndex \/ LoadKw \/ LoadNamed \/ LoadFlat \/ Model \/ Search2 \/ SearchKw \/ Eval2 \/ Fill2 \/ Stats2 \/ TStats
RSpec == Init /\ [][RNext]_vars
\* a frame, once made, never changes; a search only takes rows away
FramesStay == [][SubSeq(ps', 1, Len(ps)) = ps]_vars
-----------------------------------------------------------------------------
\* what the library must refuse
RefusedCalls == {"commands.search(None)", "commands.search(None, F.col('a') > 1)", "commands.search(None, host='h1')", "commands.tstats(c=functions.stats.count())",
            "commands.tstats(commands.search(None, index='main'), from_=dict(datamodel='M'), c=functions.stats.count())",
            "commands.data_model('M', search_mode='acceleration_search')", "commands.data_model('M', search_mode='flat')", "functions.stats.count('a', 'b')", "functions.stats.exactperc('a')",
            "functions.eval.case('a')", "functions.eval.case()", "functions.eval.validate('a')", "functions.eval.searchmatch('a')", "functions.eval.lookup('a', 'b', 'c')",
            "functions.eval.bit_and('a')", "functions.eval.nosuch('a')", "functions.stats.nosuch('a')", "functions.stats.nosuch95('a')"}
EmitRt == ps # <<>> => PrintT("@@" \o ToJson([p |-> [j \in 1..Len(ps) |-> ps[j].x], f |-> [j \in 1..Len(ps) |-> ps[j].t], rd |-> [j \in 1..Len(ps) |-> ps[j].rd],
                                              fam |-> UNION {ps[j].fam : j \in 1..Len(ps)}]))
EmitRtTables == (ps = <<>>) => PrintT("@@" \o ToJson([tables |-> MoreTables @@ Tables, refused |-> RefusedCalls]))
=============================================================================
