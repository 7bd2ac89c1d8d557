---------------------------- MODULE OptionVocab ----------------------------
(***************************************************************************)
(* The options of each command: the name written, the attribute of the     *)
(* parsed command that takes its value, its kind and its default.  place   *)
(* is where options of that name stand: before or after the arguments.     *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

B(v) == [b |-> v]
I(v) == [i |-> v]
Str(v) == [s |-> v]
None == [n |-> 0]

LOCAL O(name, attr, kind, default) == [name |-> name, attr |-> attr, kind |-> kind, default |-> default, after |-> FALSE]
LOCAL After(name, attr, kind, default) == [O(name, attr, kind, default) EXCEPT !.after = TRUE]
LOCAL Cmd(name, args, opts) == [name |-> name, args |-> args, opts |-> opts, need |-> {}]

LOCAL Frequent(c, args) == Cmd(c, args, <<
    O("countfield", "count_field", "string", Str("count")), O("limit", "n", "count", I(10)), O("otherstr", "other_str", "string", Str("OTHER")),
    O("percentfield", "percent_field", "string", Str("percent")), O("showcount", "show_count", "bool", B(TRUE)),
    O("showperc", "show_percent", "bool", B(TRUE)), O("useother", "use_other", "bool", B(FALSE))>>)
LOCAL Join(args) == Cmd("join", args, <<
    O("type", "join_type", "string", Str("inner")), O("usetime", "use_time", "bool", B(FALSE)), O("earlier", "earlier", "bool", B(TRUE)),
    O("overwrite", "overwrite", "bool", B(TRUE)), O("max", "max", "int", I(1))>>)
LOCAL Totals(args) == Cmd("addtotals", args, <<
    O("row", "row", "bool", B(TRUE)), O("col", "col", "bool", B(FALSE)), O("fieldname", "field_name", "string", Str("Total")),
    O("labelfield", "label_field", "string", None), O("label", "label", "string", Str("Total"))>>)
LOCAL Stats(args) == Cmd("stats", args, <<
    O("partitions", "partitions", "count", I(1)), O("allnum", "all_num", "bool", B(FALSE)), O("delim", "delim", "string", Str(" "))>>)
LOCAL StatsBy(args) == [Stats(args) EXCEPT !.opts = @ \o <<After("dedup_splitvals", "dedup_split_vals", "bool", B(FALSE))>>]
LOCAL Tstats(args) == Cmd("tstats", args, <<
    O("prestats", "prestats", "bool", B(FALSE)), O("local", "local", "bool", B(FALSE)), O("append", "append", "bool", B(FALSE)),
    O("summariesonly", "summaries_only", "bool", B(FALSE)), O("include_reduced_buckets", "include_reduced_buckets", "bool", B(FALSE)),
    O("allow_old_summaries", "allow_old_summaries", "bool", B(FALSE)), O("chunk_size", "chunk_size", "count", I(10000000)),
    O("fillnull_value", "fillnull_value", "string", None)>>)
LOCAL Bin(args) == Cmd("bin", args, <<
    O("span", "span", "span", None), O("minspan", "min_span", "span", None), O("bins", "bins", "int", None), O("start", "start", "int", None),
    O("end", "end", "int", None), O("aligntime", "align_time", "string", None)>>)
LOCAL Rex(args) == Cmd("rex", args, <<
    O("field", "field", "string", Str("_raw")), O("max_match", "max_match", "int", I(1)), O("offset_field", "offset_field", "string", None),
    O("mode", "mode", "sed", None)>>)
LOCAL Spath(args) == Cmd("spath", args, <<
    O("input", "input", "name", Str("_raw")), O("output", "output", "name", None)>>)
LOCAL Collect(args) == [Cmd("collect", args, <<
    O("index", "index", "string", None), O("addtime", "add_time", "bool", B(TRUE)), O("file", "file", "string", None), O("host", "host", "string", None),
    O("marker", "marker", "string", None), O("output_format", "output_format", "string", Str("raw")),
    O("run_in_preview", "run_in_preview", "bool", B(FALSE)), O("spool", "spool", "bool", B(TRUE)), O("source", "source", "string", None),
    O("sourcetype", "source_type", "string", None), O("testmode", "test_mode", "bool", B(FALSE))>>) EXCEPT !.need = {"index"}]
LOCAL Dedup(args) == Cmd("dedup", args, <<
    O("keepevents", "keep_events", "bool", B(FALSE)), O("keepempty", "keep_empty", "bool", B(FALSE)), O("consecutive", "consecutive", "bool", B(FALSE))>>)
LOCAL HeadC(args) == Cmd("head", args, <<After("keeplast", "keep_last", "bool", B(FALSE)), After("null", "null_option", "bool", B(FALSE))>>)
LOCAL Lookup(args) == Cmd("inputlookup", args, <<
    O("append", "append", "bool", B(FALSE)), O("strict", "strict", "bool", B(FALSE)), O("start", "start", "int", I(0)), O("max", "max", "int", I(1000000000))>>)
LOCAL Model(args) == Cmd("datamodel", args, <<
    O("strict_fields", "strict_fields", "bool", B(FALSE)), O("allow_old_summaries", "allow_old_summaries", "bool", B(FALSE)),
    O("summariesonly", "summaries_only", "bool", B(TRUE))>>)

LOCAL ModelAfter(args) == [Model(args) EXCEPT !.opts = [k \in 1..Len(@) |-> [@[k] EXCEPT !.after = TRUE]]]

AllCmds == <<
  Frequent("top", "a"), Frequent("top", "a, b BY c d"), Frequent("rare", "a"), Frequent("rare", "a b BY c"),
  Join("a [search b=1]"), Join("a, b [search index=w c=2 | eval d=1]"),
  Totals(""), Totals("a b"), Totals("a"),
  Stats("count"), StatsBy("count, sum(a) AS x BY b"), StatsBy("max(a) min(b) BY c, d"), StatsBy("dc(a) BY _time span=5m"),
  Tstats("count FROM datamodel=M BY a"), Tstats("sum(a) AS x max(b) FROM datamodel=M.N WHERE c=1 BY d"), Tstats("count FROM datamodel=M"),
  Bin("a"), Bin("_time AS t2"), Bin("a AS b"),
  Rex("\"(?<a>b+)\""), Rex("\"max_match=5\""), Rex("\"mode=sed (?<x>.)\""),
  Spath("a.b"), Spath("path=c.d"), Spath("\"x{}.y\""),
  Collect(""), Collect("a, b"), Collect("a b"),
  Dedup("a"), Dedup("a b sortby -c"), Dedup("a b sortby +a -b"),
  HeadC("5"), HeadC("limit=7"), HeadC("count<3"),
  Lookup("names"), Lookup("names where a=1"),
  Model("M D search"), Model("M"), Model("M D"), Model("M D flat"), Model(""), ModelAfter("M D search"), ModelAfter("M"), ModelAfter("M D"), ModelAfter("M D acceleration_search"),
  Cmd("convert", "ctime(a)", <<O("timeformat", "timeformat", "string", Str("%m/%d/%Y %H:%M:%S"))>>),
  Cmd("convert", "ctime(a) AS b mktime(c)", <<O("timeformat", "timeformat", "string", Str("%m/%d/%Y %H:%M:%S"))>>),
  Cmd("makeresults", "", <<O("count", "count", "int", I(1)), O("annotate", "annotate", "bool", B(FALSE)), O("splunk_server", "server", "string", Str("local")),
                           O("splunk_server_group", "server_group", "string", None)>>),
  Cmd("eventstats", "count BY a", <<O("allnum", "all_num", "bool", B(FALSE))>>),
  Cmd("streamstats", "sum(a) AS x BY b", <<O("current", "current", "bool", B(TRUE)), O("window", "window", "int", I(0))>>),
  Cmd("streamstats", "count", <<O("current", "current", "bool", B(TRUE)), O("window", "window", "int", I(0))>>),
  Cmd("format", "", <<O("mvsep", "mv_sep", "string", Str("OR")), O("maxresults", "max_results", "int", I(0))>>),
  Cmd("format", "\"[\" \"(\" \"&&\" \")\" \"||\" \"]\"", <<O("mvsep", "mv_sep", "string", Str("OR")), O("maxresults", "max_results", "int", I(0))>>),
  Cmd("map", "search=\"search a=1\"", <<After("maxsearches", "max_searches", "int", I(10))>>),
  Cmd("mvcombine", "a", <<O("delim", "delim", "quoted", None)>>),
  Cmd("mvexpand", "a", <<After("limit", "limit", "int", None)>>),
  Cmd("fillnull", "", <<O("value", "value", "text", Str("0"))>>), Cmd("fillnull", "a b", <<O("value", "value", "text", Str("0"))>>),
  Cmd("sort", "a", <<O("limit", "count", "int", I(10000))>>), Cmd("sort", "-a, b", <<O("limit", "count", "int", I(10000))>>)>>

\* the values of each kind: the text written and the value taken
Values(kind) ==
  CASE kind = "bool" -> {<<"true", B(TRUE)>>, <<"false", B(FALSE)>>, <<"t", B(TRUE)>>, <<"f", B(FALSE)>>, <<"TRUE", B(TRUE)>>, <<"False", B(FALSE)>>}
    [] kind \in {"int", "count"} -> {<<"0", I(0)>>, <<"1", I(1)>>, <<"2", I(2)>>, <<"7", I(7)>>, <<"250", I(250)>>, <<"1000000", I(1000000)>>}
    [] kind = "string" -> {<<"x", Str("x")>>, <<"web_1", Str("web_1")>>, <<"\"two words\"", Str("two words")>>, <<"\"a=b, limit=3\"", Str("a=b, limit=3")>>,
                           <<"\"5\"", Str("5")>>, <<"Left", Str("Left")>>, <<"\"true\"", Str("true")>>, <<"\" \"", Str(" ")>>, <<"limit", Str("limit")>>}
    [] kind = "name" -> {<<"x", Str("x")>>, <<"web_1", Str("web_1")>>}
    [] kind = "quoted" -> {<<"\":\"", Str(":")>>, <<"\", \"", Str(", ")>>, <<"\"x=1\"", Str("x=1")>>}
    [] kind = "text" -> {<<"x", Str("x")>>, <<"5", Str("5")>>, <<"\"two words\"", Str("two words")>>, <<"\"value=3\"", Str("value=3")>>, <<"unknown", Str("unknown")>>}
    [] kind = "span" -> {<<"5m", [span |-> <<5, "minutes">>]>>, <<"1h", [span |-> <<1, "hours">>]>>, <<"30s", [span |-> <<30, "seconds">>]>>,
                         <<"2d", [span |-> <<2, "days">>]>>, <<"12w", [span |-> <<12, "weeks">>]>>, <<"3mon", [span |-> <<3, "months">>]>>}
    [] kind = "sed" -> {<<"sed", Str("sed")>>}

\* one or two values of each kind
FewValues(kind) ==
  CASE kind = "bool" -> {v \in Values(kind) : v[1] \in {"true", "false"}}
    [] kind \in {"int", "count"} -> {v \in Values(kind) : v[1] \in {"0", "7"}}
    [] kind = "string" -> {v \in Values(kind) : v[1] \in {"x", "\"a=b, limit=3\""}}
    [] kind = "span" -> {v \in Values(kind) : v[1] \in {"5m", "12w"}}
    [] OTHER -> Values(kind)

\* texts that are no values of the kind
Wrong(kind) ==
  CASE kind = "bool" -> {"maybe", "7", "\"maybe\"", "1.5", "5m", "truex", "trueish", "f_"}
    [] kind = "int" -> {"x", "1.5", "\"x\"", "5m", "7x", "0.25"}
    [] kind = "count" -> {"x", "1.5", "\"x\"", "5m", "-1", "-250", "7x"}
    [] kind = "span" -> {"x", "\"x\"", "1.5", "m5"}
    [] kind = "sed" -> {"perl", "x", "\"sedx\"", "5"}
    [] OTHER -> {}
=============================================================================
