----------------------------- MODULE SpellBases -----------------------------
(* Queries of all commands in pieces, for SpellMachine. *)
EXTENDS SpellMachine

Eq(a, b) == Q(<<a, O, T("="), O, b>>)
A(op) == [k |-> "arithmetic", s |-> op]                \* which may be part of a name: blanks are needed
Bin(a, op, b) == IF op.k = "arithmetic" THEN Q(<<a, S, T(op.s), S, b>>) ELSE Q(<<a, OS, op, OS, b>>)
Word(a, op, b) == Q(<<a, S, op, S, b>>)               \* words between which blanks are needed
RECURSIVE Sep(_, _)
Sep(as, sep) == IF Len(as) <= 1 THEN Q(as) ELSE Q(<<as[1], sep, Sep(Tail(as), sep)>>)
Fn(f, as) == Q(<<K(f), T("("), O, Sep(as, C), O, T(")")>>)
As(x, y) == Word(x, K("AS"), y)
Sub(ps) == Q(<<T("["), O>> \o ps \o <<O, T("]")>>)
Lead == Opt(<<K("search"), S>>)
Web == Q(<<Lead, Eq(T("index"), N("web"))>>)
Web0 == Q(<<Lead, T("index=web")>>)
Str(s) == T("\"" \o s \o "\"")
After(ps) == <<Web0, Bar>> \o ps

SearchBases == <<
  <<Web, S, Eq(N("a"), T("1"))>>,
  <<Lead, Eq(N("a"), T("1")), S, Eq(N("b"), Str("x y"))>>,
  <<Lead, Word(Eq(N("a"), T("1")), K("AND"), Eq(N("b"), T("2")))>>,
  <<Lead, Word(Eq(N("a"), T("1")), K("OR"), G(Eq(N("b"), T("2"))))>>,
  <<Lead, G(Word(Eq(N("a"), T("1")), K("OR"), Eq(N("b"), T("2")))), S, Eq(N("c"), T("3"))>>,
  <<Lead, Eq(N("c"), T("3")), S, G(Word(Eq(N("a"), T("1")), K("OR"), Eq(N("b"), T("2"))))>>,
  <<Lead, K("NOT"), S, G(Eq(N("a"), T("1"))), S, Eq(N("b"), T("2"))>>,
  <<Lead, K("NOT"), OS, T("("), O, Eq(N("a"), T("1")), S, Eq(N("b"), T("2")), O, T(")")>>,
  <<Lead, N("a"), S, K("IN"), OS, T("("), O, Sep(<<T("1"), Str("x"), T("y")>>, C), O, T(")")>>,
  <<Lead, Bin(N("a"), T(">="), T("5")), S, Bin(N("b"), T("!="), Str("z")), S, Bin(N("c"), T("<"), T("2.5"))>>,
  <<Web, S, Str("free text"), S, Eq(N("src"), Str("10.0.0.0/8"))>>,
  <<Lead, T("error"), S, K("OR"), S, T("warn*"), S, Eq(N("user"), T("a*"))>>,
  <<Lead, T("index"), O, T("="), O, N("web"), S, T("index"), O, T("="), O, N("main")>>,
  After(<<K("search"), S, Word(Eq(N("a"), T("1")), K("OR"), Eq(N("b"), T("2"))), Bar, K("search"), S, Eq(N("c"), T("x"))>>)>>
EvalBases == <<
  After(<<K("eval"), S, Eq(N("x"), T("1"))>>),
  After(<<K("eval"), S, Sep(<<Eq(N("x"), G(Bin(T("a"), A("+"), T("1")))), Eq(N("y"), T("2"))>>, C)>>),
  After(<<K("eval"), S, Eq(T("x"), Bin(G(T("a")), A("+"), G(Bin(T("b"), A("*"), T("c")))))>>),
  After(<<K("eval"), S, Eq(T("x"), Bin(G(Bin(T("a"), A("-"), T("b"))), A("-"), G(T("c"))))>>),
  After(<<K("eval"), S, Eq(T("x"), Bin(Bin(T("a"), A("*"), Q(<<T("("), O, Bin(T("b"), A("+"), T("c")), O, T(")")>>)), A("/"), T("2")))>>),
  After(<<K("eval"), S, Eq(T("x"), Bin(Bin(T("a"), A("."), Str("-")), A("."), T("b")))>>),
  After(<<K("eval"), S, Eq(T("x"), Fn("if", <<G(Word(Bin(T("a"), T(">"), T("1")), K("AND"), G(Bin(T("b"), T("="), Str("x"))))), Str("yes"), T("b")>>))>>),
  After(<<K("eval"), S, Eq(T("x"), Fn("case", <<Bin(T("a"), T("=="), T("1")), Str("one"), G(Q(<<K("NOT"), S, T("a=2")>>)), T("b=3")>>))>>),
  After(<<K("eval"), S, Eq(T("x"), Fn("coalesce", <<T("a"), Fn("upper", <<T("b")>>), Str("z")>>))>>),
  After(<<K("eval"), S, Eq(T("x"), Fn("round", <<Bin(T("a"), A("/"), T("3")), T("2")>>)), C, Eq(T("y"), Bin(Fn("len", <<G(T("c"))>>), A("+"), Fn("pi", <<>>)))>>),
  After(<<K("eval"), S, Eq(T("x"), Fn("relative_time", <<T("_time"), Str("-1d@d")>>)), C, Eq(T("y"), Fn("strftime", <<T("x"), Str("%Y-%m-%d")>>))>>),
  After(<<K("eval"), S, Eq(T("x"), G(Word(Bin(T("a"), T(">"), T("1")), K("OR"), Word(Bin(T("b"), T("<="), T("2")), K("AND"), Bin(T("c"), T("!="), T("3"))))))>>),
  After(<<K("eval"), S, Eq(T("x"), Fn("mvindex", <<Fn("split", <<T("c"), Str(",")>>), T("0")>>))>>),
  After(<<K("eval"), S, Eq(T("x"), Fn("isnotnull", <<T("a")>>)), C, Eq(T("y"), Fn("cidrmatch", <<Str("10.0.0.0/8"), T("ip")>>))>>),
  After(<<K("where"), S, G(Bin(T("a"), T(">"), T("1")))>>),
  After(<<K("where"), S, Word(Bin(T("a"), T("="), G(T("b"))), K("AND"), Bin(G(Fn("len", <<T("c")>>)), T(">"), G(T("2"))))>>),
  After(<<K("where"), S, Word(Fn("isnull", <<T("a")>>), K("OR"), Word(Bin(T("a"), T("<"), T("1")), K("AND"), G(Bin(T("b"), T(">="), T("2")))))>>),
  After(<<K("where"), S, K("NOT"), S, G(Bin(T("a"), T("="), T("1")))>>),
  After(<<K("where"), S, Fn("like", <<T("c"), Str("x%")>>)>>),
  After(<<K("where"), S, Fn("match", <<T("c"), Str("^x.+$")>>)>>),
  After(<<K("where"), S, T("a"), S, K("IN"), OS, T("("), O, Sep(<<T("1"), T("2")>>, C), O, T(")")>>)>>
ColumnBases == <<
  After(<<K("fields"), S, Opt(<<T("+"), OS>>), Sep(<<N("a"), N("b"), N("c")>>, L)>>),
  After(<<K("fields"), S, T("-"), OS, Sep(<<N("a"), N("b")>>, L)>>),
  After(<<K("table"), S, Sep(<<N("a"), N("b"), N("_time")>>, L)>>),
  After(<<K("rename"), S, Sep(<<As(N("a"), N("x")), As(N("b"), N("y"))>>, C)>>),
  After(<<K("sort"), S, Sep(<<N("a"), N("b")>>, C)>>),
  After(<<K("sort"), S, Opt(<<T("10000"), S>>), T("-"), N("a"), C, Opt(<<T("+")>>), N("b")>>),
  After(<<K("sort"), S, Either(<< <<T("20")>>, <<Eq(T("limit"), T("20"))>> >>), S, T("-"), N("a"), S, K("desc")>>),
  After(<<K("head"), S, Either(<< <<T("5")>>, <<Eq(T("limit"), T("5"))>> >>)>>),
  After(<<K("head"), S, Bin(T("count"), T("<"), T("4"))>>),
  After(<<K("tail"), S, T("3")>>),
  After(<<K("regex"), S, Q(<<N("c"), O, Either(<< <<T("=")>>, <<T("=")>> >>), O, Str("^x$")>>)>>),
  After(<<K("regex"), S, Q(<<N("c"), O, T("!="), O, Str("^x$")>>)>>),
  After(<<K("rex"), S, Opt(<<Eq(T("field"), N("_raw")), S>>), Str("(?<u>x)")>>),
  After(<<K("rex"), S, Eq(T("field"), N("c")), S, Str("(?<u>x)")>>),
  After(<<K("spath"), S, Either(<< <<T("a.b")>>, <<Eq(T("path"), T("a.b"))>>, <<Perm(<<Eq(T("input"), T("_raw")), Eq(T("output"), T("a.b")), Eq(T("path"), T("a.b"))>>)>> >>)>>),
  After(<<K("spath"), S, Perm(<<Eq(T("input"), N("c")), Eq(T("output"), N("z")), Eq(T("path"), T("x.y"))>>)>>),
  After(<<K("fillnull"), S, Eq(T("value"), T("7"))>>),
  After(<<K("fillnull"), Opt(<<S, Eq(T("value"), T("0"))>>), S, Sep(<<N("a"), N("b")>>, S)>>),
  After(<<K("addtotals"), S, Sep(<<N("a"), N("b")>>, S)>>),
  After(<<K("addtotals"), S, Perm(<<Eq(T("fieldname"), N("s")), Eq(T("row"), T("true")), Eq(T("col"), T("false"))>>), S, Sep(<<N("a"), N("b")>>, S)>>),
  After(<<K("bin"), S, Eq(T("span"), T("5m")), S, N("_time")>>),
  After(<<K("bin"), S, Perm(<<Eq(T("span"), T("1h")), Eq(T("bins"), T("20"))>>), S, As(N("a"), N("x"))>>),
  After(<<K("convert"), S, K("ctime"), T("("), O, N("_time"), O, T(")"), S, K("AS"), S, N("c")>>),
  After(<<K("convert"), S, Eq(T("timeformat"), Str("%H:%M")), S, Fn("ctime", <<N("a")>>), S, As(Fn("memk", <<N("b")>>), N("m"))>>)>>
GroupBases == <<
  After(<<K("stats"), S, K("count")>>),
  After(<<K("stats"), S, K("count"), S, K("BY"), S, Sep(<<N("a"), N("b")>>, L)>>),
  After(<<K("stats"), S, Sep(<<As(Fn("sum", <<N("b")>>), N("total")), Fn("avg", <<N("b")>>), Fn("dc", <<N("c")>>)>>, L), S, K("BY"), S, N("a")>>),
  After(<<K("stats"), S, Sep(<<K("count"), As(Fn("values", <<N("c")>>), N("v")), Fn("max", <<N("d")>>)>>, L), S, K("BY"), S, Sep(<<N("a"), Q(<<N("_time"), S, Eq(T("span"), T("1h"))>>)>>, L)>>),
  After(<<K("stats"), S, Perm(<<Eq(T("partitions"), T("1")), Eq(T("allnum"), T("false")), Eq(T("delim"), Str(" "))>>), S, Either(<< <<Fn("dc", <<N("a")>>)>>, <<Fn("dc", <<N("a")>>)>> >>)>>),
  After(<<K("stats"), S, Fn("percentile95", <<N("a")>>), S, Fn("median", <<N("a")>>), S, Fn("range", <<N("b")>>)>>),
  After(<<K("stats"), S, Fn("earliest", <<N("a")>>), S, K("BY"), S, N("b"), S, Eq(T("dedup_splitvals"), T("true"))>>),
  After(<<K("top"), S, Either(<< <<T("3")>>, <<Eq(T("limit"), T("3"))>> >>), S, Sep(<<N("a"), N("b")>>, L)>>),
  After(<<K("top"), S, Perm(<<Eq(T("limit"), T("3")), Eq(T("countfield"), N("n")), Eq(T("showperc"), T("false"))>>), S, N("a")>>),
  After(<<K("rare"), S, Either(<< <<T("3")>>, <<Eq(T("limit"), T("3"))>> >>), S, Sep(<<N("a"), N("b")>>, L)>>),
  <<T("|"), OS, K("tstats"), S, K("count"), S, K("FROM"), S, Eq(T("datamodel"), T("M.D")), S, K("WHERE"), S, G(Bin(T("a"), T("="), T("1"))), S, K("BY"), S, Sep(<<N("h"), N("s")>>, L)>>,
  <<T("|"), OS, K("tstats"), S, Perm(<<Eq(T("summariesonly"), T("true")), Eq(T("allow_old_summaries"), T("true"))>>), S, Sep(<<As(Fn("max", <<T("x")>>), T("m")), K("count")>>, S), S, K("FROM"), S, Eq(T("datamodel"), T("M")), S, K("BY"), S, Q(<<N("_time"), S, Eq(T("span"), T("1h"))>>)>>,
  <<Either(<< <<T("|"), OS>>, <<>> >>), K("datamodel"), S, N("M"), S, T("search")>>,
  <<Either(<< <<T("|"), OS>>, <<>> >>), K("makeresults"), S, Perm(<<Eq(T("count"), T("3")), Eq(T("annotate"), T("true"))>>)>>>>
CombineBases == <<
  After(<<K("join"), S, Perm(<<Eq(T("type"), T("left")), Eq(T("usetime"), T("true")), Eq(T("max"), T("1"))>>), S, Sep(<<N("a"), N("b")>>, L), OS, Sub(<<Web>>)>>),
  After(<<K("join"), S, N("a"), OS, Sub(<<Web0, Bar, K("fields"), S, Sep(<<N("a"), N("b")>>, L)>>), Bar, K("head"), S, T("5")>>),
  After(<<K("lookup"), S, T("users"), S, Sep(<<N("a"), As(N("b"), N("c"))>>, L), S, K("OUTPUT"), S, Sep(<<N("d"), As(N("e"), N("f"))>>, L)>>),
  <<Either(<< <<T("|"), OS>>, <<>> >>), K("multisearch"), S, Sub(<<Web0>>), OS, Sub(<<Lead, Eq(N("index"), N("main")), S, T("a=1")>>), OS, Sub(<<Web0, Bar, K("eval"), S, T("x=1")>>)>>>>
AllBases == SearchBases \o EvalBases \o ColumnBases \o GroupBases \o CombineBases
=============================================================================
