---------------------------- MODULE SplPipeline ----------------------------
(***************************************************************************)
(* Pipelines as a state machine.  The state is a stack of pipelines under  *)
(* construction; a pipeline carries its text and the table it computes.    *)
(* Start begins a pipeline at a source, each command action appends one    *)
(* command and transforms the table, Open begins a subsearch and Close     *)
(* hands its table to the join, multisearch ... that contains it.          *)
(* Every reachable state whose stack holds one runnable pipeline is a      *)
(* query together with the table that it must compute.                     *)
(***************************************************************************)
EXTENDS SplTable, Json

CONSTANTS Fams,     \* the command families that may be used
          Srcs,     \* the sources a pipeline may start at
          MaxLen,   \* commands per pipeline after the source
          MaxDepth, \* nesting of subsearches
          Rich,     \* all instances of each command, or a few
          Sim       \* choose instances at random (simulation)

VARIABLE ps
\* a pipeline: x its text, t its table, n its commands, rd the tables it reads, fam the families used,
\* st: "run" | "multi" (waiting for subsearches, collected in subs) | "join" (waiting for one subsearch)
vars == <<ps>>

Pick(X) == IF ~Sim THEN X ELSE IF X = {} THEN {} ELSE {RandomElement(X)}

-----------------------------------------------------------------------------
(* The data *)
N0 == Null
MainT == Tab(<<"_time", "a", "b", "s", "u", "_raw">>, <<
  <<I(100), I(1),  I(10), S("x"),   S("10k"),   S("user=bob code=200")>>,
  <<I(200), I(2),  N0,    S("yy"),  S("3g"),    S("user=alice code=404")>>,
  <<I(200), N0,    I(5),  N0,       S("1,234"), N0>>,
  <<I(50),  I(2),  I(5),  S("x"),   N0,         S("Login OK")>>,
  <<I(300), I(3),  I(7),  S("a b"), S("7"),     S("user=eve_1 code=7")>>,
  <<I(400), I(-1), I(10), S("10"),  S("2.5m"),  S("code=200 user=bob")>>,
  <<I(250), I(0),  I(0),  S("Zed"), S("x1"),    S("GET x?user=al code=1x")>> >>, TRUE)
WebT == Tab(<<"_time", "a", "s", "w", "_raw">>, <<
  <<I(150), I(2),  S("x"),   I(7), S("user=carol code=9")>>,
  <<I(40),  I(1),  S("zz"),  I(8), S("code=200")>>,
  <<I(300), I(2),  S("yy"),  N0,   N0>>,
  <<I(201), N0,    N0,       I(1), S("user=bob x code=5")>>,
  <<I(300), I(3),  S("x"),   I(7), S("nothing")>> >>, TRUE)
AuditT == Tab(<<"_time", "b", "s", "y">>, <<
  <<I(10),  I(5),  S("x"),  S("p")>>,
  <<I(220), I(10), S("yy"), S("q")>>,
  <<I(300), N0,    S("10"), N0>> >>, TRUE)
DimT == Tab(<<"k", "s", "name", "w">>, <<
  <<I(1), S("x"),  S("one"),   I(11)>>,
  <<I(2), S("x"),  S("two"),   I(22)>>,
  <<I(2), S("yy"), S("deux"),  N0>>,
  <<N0,   S("q"),  S("none"),  I(1)>>,
  <<I(7), S("zz"), S("seven"), I(7)>> >>, TRUE)
DmT == Tab(<<"_time", "a", "s", "M.x">>, <<
  <<I(120), I(2), S("x"),  I(3)>>,
  <<I(310), I(1), S("yy"), I(4)>>,
  <<I(300), I(2), N0,      N0>> >>, TRUE)
Tables == ("M" :> DmT) @@ ("M.D" :> DmT) @@ [main |-> MainT, web |-> WebT, audit |-> AuditT, dim |-> DimT]

-----------------------------------------------------------------------------
(* Instances of the commands *)
Few(q, n) == Range(IF Rich THEN q ELSE Take(q, n))
\* columns whose name can be written as a bare field (a dotted name would be a structure access)
Plain(c) == c \notin {"1", "2", "su m", "key.sub", "q.r"}
Ns(t) == SelectSeq(OfTy(t, "n"), Plain)
Ss(t) == SelectSeq(OfTy(t, "s"), Plain)
NCol(t) == Few(Ns(t), 3)
SCol(t) == Few(Ss(t), 2)
Named(t) == SelectSeq(t.cols, LAMBDA c : c \in Uniq(t) /\ Plain(c))
UCol(t) == Few(Named(t), 4)

F(c) == Fld(c)
Simple(t) ==
  UNION {{Bin(">", F(c), Lit(I(1))), Bin("=", F(c), Lit(I(2))), Bin("!=", F(c), Lit(I(2))), Bin("<=", F(c), Lit(I(5)))} : c \in NCol(t)}
  \cup {Fn("isnull", <<F(c)>>) : c \in NCol(t) \cup SCol(t)}
  \cup UNION {{Bin("=", F(c), Lit(S("x"))), Bin("<", F(c), Lit(S("b"))), FIn(c, <<S("x"), S("10"), S("zz")>>)} : c \in SCol(t)}
  \cup {Bin("<", F(c), F(d)) : c, d \in NCol(t)}
  \cup {Bin(">=", Bin("+", F(c), F(d)), Lit(I(7))) : c, d \in NCol(t)}
Conds(t) ==
  IF Sim THEN LET p == Pick(Simple(t))  q == Pick(Simple(t))  r == Pick(Simple(t))
              IN p \cup UNION {{Neg(x), Bin("OR", x, y), Bin("AND", x, Neg(y)), Bin("AND", Bin("OR", x, y), z),
                                Bin("OR", x, Bin("AND", y, z)), Neg(Bin("AND", x, y))} : x \in p, y \in q, z \in r}
  ELSE Simple(t)

SSimple(t) ==
  UNION {{SCmp(c, "=", I(2), "b"), SCmp(c, "!=", I(2), "b"), SCmp(c, ">=", I(5), "b"), SIn(c, <<[v |-> I(1), sp |-> "b"], [v |-> I(10), sp |-> "b"]>>)} : c \in NCol(t)}
  \cup UNION {{SCmp(c, "=", S("x"), "b"), SCmp(c, "=", S("a b"), "q"), SWild(c, "=", "*y", "b"), SWild(c, "!=", "1*", "q")} : c \in SCol(t)}
  \cup (IF "_raw" \in Uniq(t) THEN {STerm("bob", "b"), STerm("login ok", "q"), STerm("CODE", "b")} ELSE {})
SConds(t) ==
  IF Sim THEN LET p == Pick(SSimple(t))  q == Pick(SSimple(t))  r == Pick(SSimple(t))
              IN p \cup UNION {{SNot(x), SOr(x, y), SAnd(x, y, " "), SAnd(SOr(x, y), z, " AND "), SOr(x, SAnd(y, z, " ")), SNot(SOr(x, y)),
                                SNot(SAnd(x, y, " ")), SNot(SAnd(x, SNot(y), " AND ")), SAnd(SNot(x), SNot(SAnd(y, z, " ")), " "), SNot(SAnd(SOr(x, y), SNot(z), " "))} : x \in p, y \in q, z \in r}
  ELSE SSimple(t)

As1(n, e) == [n |-> n, e |-> e]
NumExprs(t) == {Bin("+", F(c), Lit(I(1))) : c \in NCol(t)} \cup {Bin("*", F(c), F(d)) : c, d \in NCol(t)}
               \cup {Fn("if", <<Bin(">", F(c), Lit(I(1))), F(d), Lit(I(0))>>) : c, d \in NCol(t)}
               \cup {Fn("coalesce", <<F(c), F(d), Lit(I(-1))>>) : c, d \in NCol(t)} \cup {Lit(I(4))}
StrExprs(t) == {Bin(".", F(c), Lit(S("!"))) : c \in SCol(t)} \cup {Fn("upper", <<F(c)>>) : c \in SCol(t)}
               \cup {Fn("case", <<Bin("=", F(c), Lit(S("x"))), Lit(S("is x")), Fn("isnull", <<F(c)>>), Lit(S("none"))>>) : c \in SCol(t)}
               \cup {Lit(S("k"))}
EvalLists(t) ==
  LET ne == Pick(NumExprs(t))  se == Pick(StrExprs(t))
  IN {<<As1("e1", e)>> : e \in ne} \cup {<<As1("e2", e)>> : e \in se}
     \cup {<<As1(c, e)>> : c \in NCol(t), e \in ne}
     \cup {<<As1("e1", e), As1("e3", Bin("+", F("e1"), Lit(I(10))))>> : e \in ne}
     \cup {<<As1(c, Bin("+", F(c), Lit(I(1)))), As1("e1", Bin("*", F(c), Lit(I(2)))), As1(c, Bin("-", F("e1"), F(c)))>> : c \in NCol(t)}
     \cup {<<As1("e2", e), As1("e1", Fn("len", <<F("e2")>>))>> : e \in se}
EvalTxt(as) == JoinStr([j \in 1..Len(as) |-> as[j].n \o "=" \o Txt(as[j].e, "eval", FALSE)], ", ")

SortKeys(t) == {<<[c |-> c, asc |-> x]>> : c \in UCol(t), x \in BOOLEAN}
               \cup {<<[c |-> c, asc |-> x], [c |-> d, asc |-> y]>> : c, d \in Few(Named(t), 3), x, y \in BOOLEAN}
KeyTxt(keys, rev) == JoinStr([j \in 1..Len(keys) |-> (IF keys[j].asc THEN (IF j = 1 THEN "" ELSE "+") ELSE "-") \o keys[j].c], ", ")
Flip(keys) == [j \in 1..Len(keys) |-> [keys[j] EXCEPT !.asc = ~@]]
\* the spellings of the count, and what they mean
SortLims == {<<"", 10000>>, <<"2 ", 2>>, <<"limit=3 ", 3>>, <<"0 ", 0>>, <<"limit=0 ", 0>>, <<"1 ", 1>>}
HeadLims == {<<" 3", 3>>, <<" limit=2", 2>>, <<" 0", 0>>, <<" 1", 1>>, <<" 100", 100>>, <<" count<3", 3>>,
             <<" count<2 keeplast=true", 3>>, <<" count<2 keeplast=false", 2>>, <<" count<1 keeplast=t null=f", 2>>, <<" 2 null=true", 2>>}

ColLists(t) == {q \in PermsOf(UCol(t), 1, IF Rich THEN 3 ELSE 2) : TRUE}
Sep(k) == IF k = 0 THEN ", " ELSE IF k = 1 THEN " " ELSE ","

AggsOf(t) ==
  {[fn |-> "count", f |-> "", as |-> ""]}
  \cup {[fn |-> fn, f |-> c, as |-> ""] : fn \in {"sum", "avg", "min", "max", "count", "dc", "values", "mean", "sumsq", "distinct_count"} , c \in NCol(t)}
  \cup {[fn |-> fn, f |-> c, as |-> ""] : fn \in {"min", "max", "count", "first", "last", "list", "values"}, c \in SCol(t)}
  \cup {[fn |-> fn, f |-> c, as |-> ""] : fn \in {"stdev", "stdevp", "var", "varp", "mode", "estdc", "median", "exactperc75", "percentile5", "upperperc90", "first", "last", "list"}, c \in NCol(t)}
TimeAggs(t) == {[fn |-> fn, f |-> c, as |-> ""] : fn \in {"earliest", "latest", "earliest_time", "latest_time"}, c \in NCol(t)}
DefaultLabel(fn) == fn
Labelled(aggs, named) == [j \in 1..Len(aggs) |-> [aggs[j] EXCEPT !.as = IF j \in named THEN "g" \o ToString(j) ELSE DefaultLabel(aggs[j].fn)]]
AggTxt(a, named) == a.fn \o (IF a.f = "" THEN "" ELSE "(" \o a.f \o ")") \o (IF named THEN " as " \o a.as ELSE "")
AggLists(t) == LET p == Pick(AggsOf(t))  q == Pick(AggsOf(t))  r == Pick(AggsOf(t))
                   tm == IF "_time" \in Uniq(t) THEN Pick(TimeAggs(t)) ELSE {}
               IN IF Sim /\ Fams = {"sort", "stats"} /\ tm # {}   \* what becomes of the order of the rows
                  THEN {<<a>> : a \in tm} \cup {<<a, b>> : a \in tm, b \in Pick(TimeAggs(t)) \ tm} \cup {<<b, a>> : a \in tm, b \in {x \in p : x.fn \notin OrderFns}}
                  ELSE IF Sim THEN {<<a>> : a \in p} \cup {<<a, b>> : a \in p, b \in q} \cup {<<a, b, c>> : a \in p, b \in q, c \in r}
                              \cup {<<a>> : a \in tm} \cup {<<[fn |-> "count", f |-> "", as |-> ""], a>> : a \in tm}
                              \cup {<<a, b>> : a \in tm, b \in {x \in p : x.fn \notin OrderFns}} \cup {<<b, a>> : a \in tm, b \in {x \in q : x.fn \notin OrderFns}}
                  ELSE {<<a>> : a \in AggsOf(t) \cup TimeAggs(t)} \cup {<<a, b>> : a \in {[fn |-> "count", f |-> "", as |-> ""]}, b \in AggsOf(t)}
By1(c) == [c |-> c, span |-> ""]
ByLists(t) == IF Sim /\ Fams = {"sort", "stats"} THEN {<<>>} \cup {<<By1(c)>> : c \in Pick(UCol(t))} ELSE {<<>>} \cup {<<By1(c)>> : c \in UCol(t)} \cup {<<By1(c), By1(d)>> : c, d \in Few(Named(t), 4)}
              \cup (IF "_time" \in Uniq(t) THEN {<<[c |-> "_time", span |-> "1 hours"]>>} \cup {<<[c |-> "_time", span |-> "5 minutes"], By1(c)>> : c \in UCol(t)} ELSE {})
SpanTxt(s) == IF s = "1 hours" THEN " span=1h" ELSE IF s = "5 minutes" THEN " span=5m" ELSE ""
ByTxt(by) == IF Len(by) = 0 THEN "" ELSE " by " \o JoinStr([j \in 1..Len(by) |-> by[j].c \o SpanTxt(by[j].span)], " ")

G(name, q, alts) == [alts |-> alts, cap |-> name, q |-> q]
Pats == {<<[l |-> "user="], [g |-> "user", c |-> "w"]>>,
         <<[l |-> "code="], [g |-> "", c |-> "d"]>>,
         <<[l |-> "user="], [g |-> "who", c |-> "w"], [l |-> " code="], [g |-> "code", c |-> "d"]>>,
         <<[g |-> "k", c |-> "w"], [l |-> "="], [g |-> "v", c |-> "w"], [l |-> " "], [c |-> "w"], [l |-> "="], [g |-> "z", c |-> "d"]>>,
         <<[l |-> "x?user="], [g |-> "q", c |-> "w"]>>,
         <<[l |-> "="], [g |-> "n1", c |-> "d"], [g |-> "n2", c |-> "d"]>>,
         \* repeated, optional, nested and alternative groups
         <<[l |-> "user="], [g |-> "who", c |-> "w"], G("-", "?", <<<<[l |-> " code="], [g |-> "code", c |-> "d"]>>>>)>>,
         <<G("pair", "", <<<<[g |-> "k", c |-> "w"], [l |-> "="], [g |-> "v", c |-> "w"]>>>>)>>,
         <<G("kv", "+", <<<<[c |-> "w"], [l |-> "="], [g |-> "v", c |-> "w"], G("-", "?", <<<<[l |-> " "]>>>>)>>>>)>>,
         <<G("", "*", <<<<[l |-> "user"]>>, <<[l |-> "="]>>>>), [g |-> "rest", c |-> "w"]>>,
         <<G("m", "", <<<<[l |-> "user="], [g |-> "u1", c |-> "w"]>>, <<[l |-> "code="], [g |-> "c1", c |-> "d"]>>>>)>>,
         <<G("", "?", <<<<[l |-> "GET "]>>, <<[l |-> "Login"]>>>>), [c |-> "w"], G("z", "?", <<<<[l |-> " "], [g |-> "", c |-> "w"]>>>>)>>,
         <<G("-", "", <<<<[l |-> "bob"]>>, <<[l |-> "alice"]>>>>), G("", "+", <<<<[l |-> " "]>>, <<[l |-> "code"]>>, <<[l |-> "="]>>>>), [g |-> "d", c |-> "d"]>>}

-----------------------------------------------------------------------------
Top == ps[Len(ps)]
Run1 == Len(ps) > 0 /\ Top.st = "run"
Can(f) == Run1 /\ f \in Fams /\ Top.n < MaxLen
\* the top pipeline gets one more command
Step(f, txt, tab) ==
  ps' = [ps EXCEPT ![Len(ps)] = [@ EXCEPT !.x = @ \o " | " \o txt, !.t = tab, !.n = @ + 1, !.fam = @ \cup {f}]]

NewPipe(x, tab, rd) == [x |-> x, t |-> tab, n |-> 0, rd |-> rd, fam |-> {}, st |-> "run", subs |-> <<>>]
MultiPipe == [x |-> "", t |-> MainT, n |-> 0, rd |-> <<>>, fam |-> {"multisearch"}, st |-> "multi", subs |-> <<>>]
GenT(n) == Tab(<<"id", "_time">>, [k \in 1..n |-> <<I(k - 1), T("current_timestamp", <<>>)>>], TRUE)
GenT2(n, server, grp) ==
  Tab(<<"id", "_time", "_raw", "host", "source", "sourcetype", "splunk_server", "splunk_server_group">>,
      [k \in 1..n |-> <<I(k - 1), T("current_timestamp", <<>>), Null, Null, Null, Null, S(server), grp>>], TRUE)

Sources ==
  (IF "main" \in Srcs THEN {NewPipe("search index=main", MainT, <<"main">>)} ELSE {})
  \cup (IF "web" \in Srcs THEN {NewPipe("search index=web", WebT, <<"web">>)} ELSE {})
  \cup (IF "audit" \in Srcs THEN {NewPipe("search index=audit", AuditT, <<"audit">>)} ELSE {})
  \cup (IF "two" \in Srcs THEN {NewPipe("search index=main index=web", UnionByName(MainT, WebT), <<"main", "web">>)} ELSE {})
  \cup (IF "cond" \in Srcs THEN UNION {LET t == Tables[n] IN
          {NewPipe("search index=" \o n \o " " \o STxt(e, FALSE), ApplySearch(t, e), <<n>>) : e \in {e \in SConds(t) : SearchOK(t, e)}}
          : n \in {"main", "web"}} ELSE {})
  \cup (IF "dm" \in Srcs THEN LET st(by) == ApplyStats(DmT, <<[fn |-> "count", f |-> "", as |-> "count"]>>, by) IN
          {NewPipe("datamodel M search", DmT, <<"M">>), NewPipe("tstats count from datamodel=M.D", st(<<>>), <<"M.D">>),
           NewPipe("tstats count from datamodel=M by a", st(<<[c |-> "a", span |-> ""]>>), <<"M">>),
           NewPipe("tstats count from datamodel=M.D by s a", st(<<[c |-> "s", span |-> ""], [c |-> "a", span |-> ""]>>), <<"M.D">>),
           NewPipe("tstats count from datamodel=M where nodename=M.D by s", st(<<[c |-> "s", span |-> ""]>>), <<"M.D">>)} ELSE {})
  \cup (IF "gen" \in Srcs THEN {NewPipe("makeresults", GenT(1), <<>>), NewPipe("makeresults count=3", GenT(3), <<>>),
                                NewPipe("makeresults count=2 annotate=true", GenT2(2, "local", Null), <<>>),
                                NewPipe("makeresults annotate=t splunk_server=sp1 splunk_server_group=g2", GenT2(1, "sp1", S("g2")), <<>>)} ELSE {})

Start == /\ Len(ps) = 0
         /\ \E p \in Pick(Sources) : ps' = <<p>>
StartMulti == /\ Len(ps) = 0 /\ "multisearch" \in Fams
              /\ ps' = <<MultiPipe>>

\* ---- filters
Where  == /\ Can("where")
          /\ \E e \in Pick({e \in Conds(Top.t) : WhereOK(Top.t, e)}) : Step("where", "where " \o Txt(e, "where", FALSE), ApplyWhere(Top.t, e))
Search == /\ Can("search")
          /\ \E e \in Pick({e \in SConds(Top.t) : SearchOK(Top.t, e)}) : Step("search", "search " \o STxt(e, FALSE), ApplySearch(Top.t, e))
Regex  == /\ Can("regex")
          /\ \E p \in Pick(Pats), op \in Pick({"", "=", "!="}) : \E f \in Pick(IF op = "" THEN {"_raw"} ELSE SCol(Top.t) \cup {"_raw"}) :
               /\ RegexOK(Top.t, f)
               /\ Step("regex", "regex " \o (IF op = "" THEN "" ELSE f \o op) \o "\"" \o PatTxt(p) \o "\"", ApplyRegex(Top.t, f, op = "!=", p))
\* ---- columns
Eval   == /\ Can("eval")
          /\ \E as \in Pick({as \in EvalLists(Top.t) : EvalOK(Top.t, as)}) : Step("eval", "eval " \o EvalTxt(as), ApplyEval(Top.t, as))
FieldsP == /\ Can("fields")
          /\ \E q \in Pick(ColLists(Top.t)), k \in Pick(0..1), sgn \in Pick({"", "+ "}) :
               Step("fields", "fields " \o sgn \o JoinStr(q, Sep(k)), Project(Top.t, q))
FieldsM == /\ Can("fields")
          /\ \E q \in Pick(ColLists(Top.t)), k \in Pick(0..1) :
               /\ Cardinality(ColsOf(Top.t) \ Range(q)) > 0
               /\ Step("fields", "fields - " \o JoinStr(q, Sep(k)), DropCols(Top.t, q))
Table  == /\ Can("table")
          /\ \E q \in Pick(ColLists(Top.t)), k \in Pick(0..1) : Step("table", "table " \o JoinStr(q, Sep(k)), Project(Top.t, q))
Rename == /\ Can("rename")
          /\ \E q \in Pick(PermsOf(UCol(Top.t), 1, 2)), as \in Pick({"AS", "as"}) :
             LET ps1 == [j \in 1..Len(q) |-> <<q[j], "r" \o ToString(j)>>]
                 swap == IF Len(q) = 2 THEN {<< <<q[1], "r1">>, <<q[2], q[1]>> >>, << <<q[1], "r1">>, <<"r1", "r2">> >>} ELSE {}
             IN \E prs \in Pick({ps1} \cup swap) :
                  /\ RenameOK(Top.t, prs)
                  /\ Step("rename", "rename " \o JoinStr([j \in 1..Len(prs) |-> prs[j][1] \o " " \o as \o " " \o prs[j][2]], ", "), ApplyRename(Top.t, prs))
Fill   == /\ Can("fillnull") /\ FillOK(Top.t)
          /\ \E v \in Pick({<<"", "0">>, <<" value=none", "none">>, <<" value=-7", "-7">>, <<" value=\"n a\"", "n a">>}) :
               \E q \in Pick({<<>>} \cup PermsOf(NCol(Top.t) \cup SCol(Top.t), 1, 2)) :
                 Step("fillnull", "fillnull" \o v[1] \o Cat([j \in 1..Len(q) |-> " " \o q[j]]),
                      ApplyFill(Top.t, v[2], IF q = <<>> THEN ColsOf(Top.t) ELSE Range(q)))
Totals == /\ Can("addtotals")
          /\ \E q \in Pick({q \in PermsOf(NCol(Top.t) \cup SCol(Top.t), 1, 2) : Len(q) = 2 \/ Ty(Top.t, q[1]) = "n"}), n \in Pick({<<"", "Total">>, <<" fieldname=tt", "tt">>, <<" row=true fieldname=\"su m\"", "su m">>}) :
               /\ Free(Top.t, n[2])
               /\ Step("addtotals", "addtotals" \o n[1] \o Cat([j \in 1..Len(q) |-> " " \o q[j]]), ApplyTotals(Top.t, q, n[2]))
Bin1   == /\ Can("bin")
          /\ \E c \in Pick(NCol(Top.t)), sp \in Pick({<<"1h", "1 hours">>, <<"30s", "30 seconds">>, <<"5m", "5 minutes">>, <<"2d", "2 days">>}), al \in Pick({"", "bn"}) :
               /\ Free(Top.t, IF al = "" THEN c ELSE al)
               /\ Step("bin", "bin span=" \o sp[1] \o " " \o c \o (IF al = "" THEN "" ELSE " as " \o al), ApplyBin(Top.t, c, IF al = "" THEN c ELSE al, sp[2]))
Convert == /\ Can("convert")
          /\ \E fn \in Pick({"ctime", "rmcomma", "rmunit", "memk"}), al \in Pick({"", "cv"}), two \in Pick(BOOLEAN),
                 fmt \in Pick({<<"", "MM/dd/yyyy HH:mm:ss">>, <<"timeformat=\"%Y-%m-%d\" ", "yyyy-MM-dd">>}) :
             \E c \in Pick(IF fn = "ctime" THEN NCol(Top.t) ELSE Few(Ss(Top.t), 3)) :
               LET one == [fn |-> fn, f |-> c, as |-> IF al = "" THEN c ELSE al]
                   cv == IF two /\ "_time" \in Uniq(Top.t) THEN <<one, [fn |-> "ctime", f |-> "_time", as |-> "ct"]>> ELSE <<one>>
               IN /\ Free(Top.t, one.as) /\ Free(Top.t, "ct")
                  /\ Step("convert", "convert " \o fmt[1] \o JoinStr([j \in 1..Len(cv) |-> cv[j].fn \o "(" \o cv[j].f \o ")" \o
                            (IF cv[j].as = cv[j].f THEN "" ELSE " AS " \o cv[j].as)], " "), ApplyConvert(Top.t, cv, fmt[2]))
Rex    == /\ Can("rex")
          /\ \E p \in Pick(Pats), f \in Pick({"_raw"} \cup SCol(Top.t)) :
               /\ RexOK(Top.t, f, p)
               /\ Step("rex", "rex " \o (IF f = "_raw" THEN "" ELSE "field=" \o f \o " ") \o "\"" \o PatTxt(p) \o "\"", ApplyRex(Top.t, f, p))
Spath  == /\ Can("spath")
          /\ \E i \in Pick({"_raw"} \cup SCol(Top.t)), o \in Pick({"", "sp"}), p \in Pick({"p", "key.sub", "path=q.r"}) :
             LET path == IF StartsWith(p, "path=") THEN SubSeq(p, 6, Len(p)) ELSE p
             IN /\ i \in Uniq(Top.t) /\ Ty(Top.t, i) = "s" /\ Free(Top.t, IF o = "" THEN path ELSE o)
                /\ Step("spath", "spath " \o (IF i = "_raw" THEN "" ELSE "input=" \o i \o " ") \o (IF o = "" THEN "" ELSE "output=" \o o \o " ") \o p,
                        ApplySpath(Top.t, i, IF o = "" THEN path ELSE o, path))
\* ---- rows
Sort   == /\ Can("sort")
          /\ \E keys \in Pick(SortKeys(Top.t)), l \in Pick(SortLims), rev \in Pick(BOOLEAN) :
               LET ks == IF rev THEN Flip(keys) ELSE keys IN
               /\ Distinct([j \in 1..Len(keys) |-> keys[j].c]) /\ SortOK(Top.t, ks, l[2])
               /\ Step("sort", "sort " \o l[1] \o KeyTxt(keys, rev) \o (IF rev THEN " desc" ELSE ""), ApplySort(Top.t, ks, l[2]))
HeadC  == /\ Can("head") /\ Top.t.ord
          /\ \E l \in Pick(HeadLims) : Step("head", "head" \o l[1], ApplyHead(Top.t, l[2]))
Stats  == /\ Can("stats")
          /\ \E as \in Pick(AggLists(Top.t)), by \in Pick(ByLists(Top.t)), nm \in Pick({{}, {1}, {1, 2, 3}, {2}}), cm \in Pick({", ", " "}) :
             LET aggs == Labelled(as, nm)
             IN /\ StatsOK(Top.t, aggs, by)
                /\ Step("stats", "stats " \o JoinStr([j \in 1..Len(aggs) |-> AggTxt(aggs[j], j \in nm)], cm) \o ByTxt(by), ApplyStats(Top.t, aggs, by))
\* ---- combinations
Lookup == /\ Can("lookup")
          /\ \E c \in Pick(NCol(Top.t) \cup SCol(Top.t)), d \in Pick(SCol(Top.t)), two \in Pick(BOOLEAN),
                out \in Pick({<< <<"name", "name">> >>, << <<"name", "nm">> >>, << <<"name", "nm">>, <<"w", "lw">> >>, << <<"w", "w">>, <<"name", "name">> >>,
                             \* a column that is also a key, under another name; one column under two names
                             << <<"k", "k2">> >>, << <<"s", "s2">>, <<"name", "nm">> >>, << <<"name", "nm">>, <<"k", "k2">>, <<"s", "s2">> >>,
                             << <<"w", "w1">>, <<"w", "w2">> >>}) :
             LET key == IF c \in NCol(Top.t) THEN "k" ELSE "s"
                 on == IF two /\ key # "s" THEN << <<key, c>>, <<"s", d>> >> ELSE << <<key, c>> >>
                 pr(p) == IF p[1] = p[2] THEN p[1] ELSE p[1] \o " as " \o p[2]
             IN /\ LookupOK(Top.t, DimT, on, out)
                /\ ps' = [ps EXCEPT ![Len(ps)] = [@ EXCEPT !.x = @ \o " | lookup dim " \o JoinStr([j \in 1..Len(on) |-> pr(on[j])], ", ") \o " OUTPUT " \o
                                JoinStr([j \in 1..Len(out) |-> pr(out[j])], ", "),
                             !.t = ApplyLookup(Top.t, DimT, on, out), !.n = @ + 1, !.rd = Append(@, "dim"), !.fam = @ \cup {"lookup"}]]
SubSources == Sources
OpenJoin == /\ Can("join") /\ Len(ps) <= MaxDepth
            /\ \E p \in Pick(SubSources) : ps' = Append([ps EXCEPT ![Len(ps)] = [@ EXCEPT !.st = "join"]], p)
CloseJoin == /\ Len(ps) >= 2 /\ Run1 /\ ps[Len(ps) - 1].st = "join"
             /\ LET outer == ps[Len(ps) - 1]  common == Uniq(outer.t) \cap Uniq(Top.t) IN
                \E fs \in Pick(PermsOf({c \in common : Plain(c)}, 1, 2)), kd \in Pick({<<"", "inner">>, <<" type=\"inner\"", "inner">>, <<" type=left", "left">>, <<" type=\"outer\"", "outer">>}),
                   tm \in Pick({<<"", "no">>, <<" usetime=true", "earlier">>, <<" usetime=true earlier=false", "later">>, <<" usetime=false earlier=true", "no">>}) :
                  /\ JoinOK(outer.t, Top.t, fs, tm[2])
                  /\ ps' = Append(SubSeq(ps, 1, Len(ps) - 2),
                       [outer EXCEPT !.st = "run", !.n = @ + 1, !.rd = @ \o Top.rd, !.fam = @ \cup Top.fam \cup {"join"},
                          !.x = @ \o " | join" \o kd[1] \o tm[1] \o " " \o JoinStr(fs, ", ") \o " [" \o Top.x \o "]",
                          !.t = ApplyJoin(outer.t, Top.t, fs, kd[2], tm[2])])
OpenMulti == /\ Len(ps) > 0 /\ Top.st = "multi" /\ Len(Top.subs) < 3 /\ Len(ps) <= MaxDepth
             /\ \E p \in Pick(SubSources) : ps' = Append(ps, p)
CloseMulti == /\ Len(ps) >= 2 /\ Run1 /\ ps[Len(ps) - 1].st = "multi"
              /\ UnionOK(Top.t, Top.t)
              /\ ps' = Append(SubSeq(ps, 1, Len(ps) - 2),
                    [ps[Len(ps) - 1] EXCEPT !.subs = Append(@, Top), !.fam = @ \cup Top.fam, !.rd = @ \o Top.rd])
EndMulti == /\ Len(ps) > 0 /\ Top.st = "multi" /\ Len(Top.subs) >= 2
            /\ ps' = [ps EXCEPT ![Len(ps)] = [@ EXCEPT !.st = "run", !.subs = <<>>,
                  !.x = "multisearch" \o Cat([j \in 1..Len(Top.subs) |-> " [" \o Top.subs[j].x \o "]"]),
                  !.t = FoldL(LAMBDA acc, p : UnionByName(acc, p.t), Top.subs[1].t, Tail(Top.subs))]]

Init == ps = <<>>
Next == \/ Start \/ StartMulti \/ Where \/ Search \/ Regex \/ Eval \/ FieldsP \/ FieldsM \/ Table \/ Rename \/ Fill \/ Totals
        \/ Bin1 \/ Convert \/ Rex \/ Spath \/ Sort \/ HeadC \/ Stats \/ Lookup \/ OpenJoin \/ CloseJoin \/ OpenMulti \/ CloseMulti \/ EndMulti
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the specification *)
TypeOK == \A j \in 1..Len(ps) : \A k \in 1..Len(ps[j].t.rows) : Len(ps[j].t.rows[k]) = Len(ps[j].t.cols)
IsSub(x, y) ==  \* x is a subsequence of y
  LET RECURSIVE sub(_, _)
      sub(p, q) == IF Len(p) = 0 THEN TRUE ELSE IF Len(q) = 0 THEN FALSE
                   ELSE IF p[1] = q[1] THEN sub(Tail(p), Tail(q)) ELSE sub(p, Tail(q))
  IN sub(x, y)
OneStep == Len(ps) = Len(ps') /\ Len(ps) > 0 /\ Top.st = "run" /\ ps'[Len(ps)].st = "run"
Now == ps[Len(ps)].t
Then == ps'[Len(ps')].t
New == ps'[Len(ps')].fam \ ps[Len(ps)].fam
FiltersKeepRows == [][OneStep /\ New # {} /\ New \subseteq {"where", "search", "regex", "head"} => Then.cols = Now.cols /\ IsSub(Then.rows, Now.rows)]_vars
ColumnsKeepCount == [][OneStep /\ New # {} /\ New \subseteq {"eval", "fields", "table", "rename", "fillnull", "addtotals", "bin", "convert", "rex", "spath"}
                       => Len(Then.rows) = Len(Now.rows)]_vars
SortPermutes == [][OneStep /\ New = {"sort"} => Then.cols = Now.cols /\ \A k \in 1..Len(Then.rows) : Then.rows[k] \in Range(Now.rows)]_vars
LookupKeepsLeft == [][OneStep /\ New = {"lookup"} => Len(Then.rows) >= Len(Now.rows)]_vars
EvalKeepsOthers == [][OneStep /\ New = {"eval"} => \A j \in 1..Len(Now.cols) : Then.cols[j] = Now.cols[j]]_vars

Ready == Len(ps) = 1 /\ Top.st = "run"
Rec == [q |-> Top.x, cols |-> Top.t.cols, rows |-> Top.t.rows, ord |-> Top.t.ord, rd |-> Top.rd, fam |-> Top.fam, n |-> Top.n]
Emit == Ready => PrintT("@@" \o ToJson(Rec))
EmitFull == Ready /\ Top.n >= MaxLen => Emit
EmitTables == (ps = <<>>) => PrintT("@@" \o ToJson([tables |-> Tables]))
=============================================================================
