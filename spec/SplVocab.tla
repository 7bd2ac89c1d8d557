------------------------------ MODULE SplVocab ------------------------------
(***************************************************************************)
(* Texts of commands: sources that may begin a pipeline, commands that may *)
(* follow, and pieces that SPL or this transpiler has nothing for.         *)
(***************************************************************************)
EXTENDS Sequences

Sources == {
  "index=main",
  "index=main a=1",
  "search index=web foo=\"x\"",
  "a=1",
  "foo",
  "NOT a=2",
  "index=web index=main",
  "| makeresults count=3",
  "| tstats count FROM datamodel=M.D BY host",
  "| datamodel M search",
  "| tstats avg(x) AS m max(y) FROM datamodel=M WHERE a=1 BY host _time span=1h"}
Commands == {
  "search a=1",
  "search a=1 OR b=2",
  "search NOT a=\"x y\" foo d=\"q*\"",
  "search a IN (1, 2, \"x\") b>=2",
  "search \"free text\" AND src=\"10.0.0.0/8\"",
  "search index=web",
  "search index=web sourcetype=\"a b\"",
  "where a>1",
  "where a=b AND len(c)>2",
  "where isnotnull(a) OR match(c, \"^x.+\")",
  "where cidrmatch(\"10.0.0.0/8\", src)",
  "eval x=1",
  "eval x=a+1, y=x * b",
  "eval x=if(a>1, \"yes\", \"no\")",
  "eval x=case(a=1, \"one\", a=2, \"two\", true, \"many\")",
  "eval x=round(a, 2), y=len(c)",
  "eval \"my field\"=upper(c), class=1",
  "eval lambda=a, x=\"quote ' and \\\" here\"",
  "eval x=coalesce(a, b, 0), y=mvzip(split(c, \",\"), split(d, \",\"), \"|\")",
  "eval x=relative_time(_time, \"-1d@d\"), y=strftime(_time, \"%Y-%m-%d\")",
  "stats count",
  "stats count BY a",
  "stats sum(b) AS total, avg(b) BY a, c",
  "stats values(a) AS vals dc(b) first(c) latest(d)",
  "stats count(a) AS n BY c span=1h",
  "stats dedup_splitvals=true max(b) BY a",
  "fields a, b",
  "fields + a b c",
  "fields - a, b",
  "table a, b, _time",
  "table a b c",
  "rename a AS x",
  "rename a AS \"x y\", b AS \"z\"",
  "sort a",
  "sort -a, +b",
  "sort 10 -a desc",
  "sort 0 a, -b",
  "head 5",
  "head limit=7",
  "head count<3",
  "tail 3",
  "top 5 a",
  "top limit=3 a",
  "rare a",
  "addtotals a b",
  "addtotals fieldname=sum col=false a b",
  "addtotals a b c",
  "bin span=5m _time",
  "bin span=1h _time AS t1",
  "bin span=1d a AS b",
  "convert ctime(_time)",
  "convert timeformat=\"%H:%M\" ctime(_time) AS c memk(b)",
  "convert memk(a) rmcomma(b) AS x rmunit(c)",
  "fillnull",
  "fillnull value=0 a b",
  "fillnull value=\"n/a\"",
  "lookup users a OUTPUT name",
  "lookup users a AS b, c OUTPUT name AS n, email",
  "regex c=\"^x\\d+$\"",
  "regex c!=\"x\"",
  "regex \"plain\"",
  "rex \"(?<user>\\w+)@(?<host>\\w+)\"",
  "rex field=c \"id=(?<id>\\d+)\"",
  "spath a.b",
  "spath input=c output=z path=x.y",
  "spath output=z path=x.y{0}"}

\* commands that aren't known, aren't implemented, have a value they cannot honour, or aren't complete
Refused == {
  "collect index=x",
  "dedup a",
  "dedup 2 a b sortby -c",
  "eventstats count BY a",
  "format",
  "inputlookup users.csv",
  "map search=\"search a=$x$\"",
  "mvcombine a",
  "mvcombine delim=\",\" a",
  "mvexpand a",
  "mvexpand a limit=5",
  "return a",
  "return 10 a",
  "streamstats count BY a",
  "foo a",
  "foo",
  "chart count BY a",
  "timechart count",
  "transaction a",
  "append [search index=web]",
  "appendpipe [stats count]",
  "makemv a",
  "iplocation a",
  "predict a",
  "outputlookup x",
  "delete",
  "join max=2 a [search index=web]",
  "join max=0 a [search index=web]",
  "join type=\"cross\" a [search index=web]",
  "join type=right a [search index=web]",
  "join type=foo a [search index=web]",
  "lookup users a OUTPUTNEW name",
  "rename a* AS b*",
  "rename * AS x",
  "rex mode=sed \"s/a/b/\"",
  "rex mode=sed field=c \"s/a/b/g\"",
  "rex max_match=2 \"(?<a>.)\"",
  "rex max_match=0 \"(?<a>.)\"",
  "sort auto(a)",
  "sort ip(a)",
  "sort num(a)",
  "sort str(a)",
  "sort b, -num(a)",
  "top useother=t a",
  "rare useother=t a",
  "bin _time",
  "bin bins=10 a",
  "bin a AS b",
  "regex c<\"x\"",
  "regex c>\"x\"",
  "regex c=~\"x\"",
  "head -5",
  "head limit=-5",
  "head x",
  "head 5 6",
  "tail -3",
  "tail x",
  "sort -5 a",
  "sort limit=-5 a",
  "sort limit=x a",
  "top -1 a",
  "top limit=-1 a",
  "top limit=x a",
  "rare -1 a",
  "join usetime=maybe a [search index=web]",
  "join max=x a [search index=web]",
  "stats partitions=x count",
  "stats allnum=7 count",
  "addtotals row=7 a b",
  "makeresults count=3",
  "makeresults count=x",
  "table",
  "fields",
  "rename",
  "rename a",
  "rename a AS",
  "eval x",
  "eval x=",
  "eval x=1 y=2",
  "eval x=1,",
  "where",
  "where a=",
  "where a=1 )",
  "where (a=1",
  "stats",
  "stats count BY",
  "search a=1 )",
  "search (a=1",
  "search a=",
  "fields a )",
  "table a ]",
  "head 5 )",
  "regex",
  "regex c=",
  "rex",
  "rex field=c",
  "spath",
  "lookup",
  "lookup users",
  "join a",
  "join [search index=web]",
  "fillnull value=",
  "bin span= a",
  "bin span=5q a",
  "tstats count FROM datamodel=M",
  "datamodel M D search",
  "multisearch [search index=web] [search index=main]",
  "search a=1 [search index=web | fields a]",
  "search [search index=web | fields a]",
  "fields - a*",
  "outputcsv x",
  "tstats prestats=t count FROM datamodel=M",
  "datamodel M search",
  "lookup users a OUTPUTNEW name AS n",
  "join type=left max=3 a, b [search index=web]"}
\* eval functions and aggregations that are known but not implemented
RefusedFns == {
  "if(a=1,2)",
  "isbool(a)",
  "isint(a)",
  "isnum(a)",
  "isstr(a)",
  "typeof(a)",
  "printf(\"%d\", a)",
  "lookup(\"u\", a)",
  "searchmatch(\"a=1\")",
  "ipmask(\"0.0.0.255\", a)",
  "json_object(\"a\", 1)",
  "json_append(a, \"b\", 1)",
  "json_array(1, 2)",
  "json_array_to_mv(a)",
  "json_extend(a, \"b\", 1)",
  "json_extract(a, \"b\")",
  "json_extract_exact(a, \"b\")",
  "json_set(a, \"b\", 1)",
  "json_set_exact(a, \"b\", 1)",
  "sigfig(a)",
  "commands(a)",
  "mvdedup(a)",
  "mvfilter(a=\"x\")",
  "mvfind(a, \"x\")",
  "mvjoin(a, \",\")",
  "mvmap(a, b)",
  "mvrange(1, 5)",
  "mvsort(a)",
  "mv_to_json_array(a)",
  "spath(a, \"b\")",
  "tonumber(a, 16)",
  "tostring(a, \"hex\")"}
FnPlaces == {<<"eval x=", "">>, <<"eval x=1, y=if(a=1, upper(", "), 2), z=3">>, <<"where len(", ")>2">>, <<"where NOT (a=1 OR ", "=2)">>,
             <<"eval x=a+", "">>, <<"eval x=case(a=1, 2, ", "=3, 4)">>, <<"eval x=coalesce(a, mvappend(b, ", "))">>}
RefusedAggs == {
  "estdc_error(a)",
  "per_day(a)",
  "per_hour(a)",
  "per_minute(a)",
  "per_second(a)",
  "rate_avg(a)",
  "rate_sum(a)"}
AggPlaces == {<<"stats ", "">>, <<"stats count ", " AS x BY b">>, <<"stats sum(b), ", " avg(c) BY d e">>}
RefusedCalls == {p[1] \o f \o p[2] : p \in FnPlaces, f \in RefusedFns} \cup {p[1] \o f \o p[2] : p \in AggPlaces, f \in RefusedAggs}
RefusedSources == {"| inputlookup users.csv", "tstats prestats=true count FROM datamodel=M", "| tstats local=true count FROM datamodel=M BY a", "tstats append=t count FROM datamodel=M",
  "| tstats include_reduced_buckets=t count FROM datamodel=M", "multisearch [search a]", "index=main index!=web"}
\* refused only by the transpiler without its runtime, which has the conditions and the modes of the data models evaluated later
RefusedAlone == {"| datamodel M D flat", "index=main OR a=1", "index=main (a=1 OR index=web)"}
LeftOver == {" )", " | | head 1", " |", " [", " \"", " ,", " (", " ;", " | )", " [search foo]", " | 5", " ! x", " '"}
=============================================================================
