---------------------------- MODULE TextMachine ----------------------------
(***************************************************************************)
(* Texts, right or wrong, given to one process.  The state is a text in    *)
(* pieces and how it came about: from the text of a query by cutting it    *)
(* off, leaving out, repeating, exchanging and replacing pieces, putting   *)
(* pieces of others and junk into it, and by wrapping pieces of it in      *)
(* brackets of all kinds, many levels deep.  Whatever the text is, the     *)
(* process answers: with a result or with an error (Answers); and it is    *)
(* as ready for the next text as before (serving never changes).           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SplVocab

CONSTANTS Texts,     \* the texts to begin with
          Junk,      \* the pieces to put in
          Wraps,     \* pairs of an opening and a closing piece
          Times,     \* how often to repeat or wrap
          MaxMut, Sim

VARIABLES toks, n, how, serving
vars == <<toks, n, how, serving>>

Pick(X) == IF Sim THEN IF X = {} THEN {} ELSE {RandomElement(X)} ELSE X

-----------------------------------------------------------------------------
(* The pieces of a text: words, texts in quotes, blanks, single characters *)
WordCh == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
           "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
           "0","1","2","3","4","5","6","7","8","9","_"}
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE WordEnd(_, _), QuoteEnd(_, _), Lex(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in WordCh THEN WordEnd(s, i + 1) ELSE i
QuoteEnd(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) = "\\" THEN QuoteEnd(s, i + 2) ELSE IF Ch(s, i) = "\"" THEN i + 1 ELSE QuoteEnd(s, i + 1)
Lex(s, i) == IF i > Len(s) THEN <<>>
             ELSE LET j == IF Ch(s, i) \in WordCh THEN WordEnd(s, i) ELSE IF Ch(s, i) = "\"" THEN QuoteEnd(s, i + 1) ELSE i + 1
                  IN <<SubSeq(s, i, j - 1)>> \o Lex(s, j)
Cat(q) == LET c[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE c[k - 1] \o q[k] IN c[Len(q)]
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN "" ELSE IF k % 2 = 1 THEN s \o Rep(s, k - 1) ELSE LET h == Rep(s, k \div 2) IN h \o h
Before(i) == SubSeq(toks, 1, i - 1)
From(i) == SubSeq(toks, i, Len(toks))

-----------------------------------------------------------------------------
Init == /\ \E t \in Pick(Texts) : toks = Lex(t, 1)
        /\ n = 0 /\ how = <<>> /\ serving = TRUE
To(q, h) == toks' = q /\ n' = n + 1 /\ how' = Append(how, h) /\ UNCHANGED serving
At == 1..Len(toks)
CutAfter == LET s == Cat(toks) IN \E i \in Pick(0..(Len(s) - 1)) : To(<<SubSeq(s, 1, i)>>, "cut")
BeginAt == LET s == Cat(toks) IN \E i \in Pick(2..Len(s)) : To(<<SubSeq(s, i, Len(s))>>, "begin")
LeaveOut == \E i \in Pick(At) : To(Before(i) \o From(i + 1), "leave out")
LeaveOutChar == LET s == Cat(toks) IN \E i \in Pick(1..Len(s)) : To(<<SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))>>, "leave out a character")
Repeat == \E i \in Pick(At), k \in Pick(Times) : To(Before(i) \o <<Rep(toks[i], k)>> \o From(i + 1), "repeat")
RepeatMany == \E i \in Pick(At), k \in Pick(Times) : \E j \in Pick({x \in At : x > i /\ x <= i + 6}) :
              To(Before(i) \o <<Rep(Cat(SubSeq(toks, i, j)), k)>> \o From(j + 1), "repeat pieces")
Exchange == \E i \in Pick(At), d \in Pick(1..2) : i + d <= Len(toks) /\ To([toks EXCEPT ![i] = toks[i + d], ![i + d] = toks[i]], "exchange")
Replace == \E i \in Pick(At), x \in Pick(Junk) : To([toks EXCEPT ![i] = x], "replace")
Insert == \E i \in Pick(1..(Len(toks) + 1)), x \in Pick(Junk) : To(Before(i) \o <<x>> \o From(i), "insert")
Wrap == \E i \in Pick(At), w \in Pick(Wraps), k \in Pick(Times) : \E j \in Pick(IF Sim THEN i..Len(toks) ELSE {i, Len(toks)}) :
        To(Before(i) \o <<Rep(w[1], k)>> \o SubSeq(toks, i, j) \o <<Rep(w[2], k)>> \o From(j + 1), "wrap")
Splice == \E t \in Pick(Texts), i \in Pick(At) : LET q == Lex(t, 1) IN \E j \in Pick(1..Len(q)) : To(Before(i) \o SubSeq(q, j, Len(q)), "splice")
Graft == \E t \in Pick(Texts), i \in Pick(At) : LET q == Lex(t, 1) IN \E j \in Pick(1..Len(q)) : \E k \in Pick(j..Len(q)) :
         To(Before(i) \o SubSeq(q, j, k) \o From(i), "graft")
Next == /\ n < MaxMut
        /\ IF Sim THEN LET a == RandomElement(1..12) IN \E x \in {a} :
                CASE x = 1 -> CutAfter [] x = 2 -> BeginAt [] x = 3 -> LeaveOut [] x = 4 -> LeaveOutChar [] x = 5 -> Repeat [] x = 6 -> RepeatMany
                  [] x = 7 -> Exchange [] x = 8 -> Replace [] x = 9 -> Insert [] x = 10 -> Wrap [] x = 11 -> Splice [] OTHER -> Graft
           ELSE CutAfter \/ BeginAt \/ LeaveOut \/ LeaveOutChar \/ Repeat \/ RepeatMany \/ Exchange \/ Replace \/ Insert \/ Wrap
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what the process may answer to any text
Answers(text) == {"result", "error"}
Ready == serving
LexIsAll == n = 0 => \A i \in At : toks[i] # "" /\ Lex(toks[i], 1) = <<toks[i]>>
Emit == LET t == Cat(toks) IN Len(t) < 4000 => PrintT("@@" \o ToJson([t |-> t, how |-> how, may |-> Answers(t)]))

-----------------------------------------------------------------------------
(* Texts to begin with *)
MoreTexts == {
  "search index=main `m(1, \"x y\", k=v)` a=2 | `last`", "`a` `b(x)` `c(x,y=\"z\")`", "`m(`n(1)`)`", "`say(\"tick ` tock\")`",
  "index=web | map search=\"search index=main a=$x$ | head 5\" maxsearches=5",
  "index=main | eval x=mvindex(split(s, \",\"), -2, -1), y=substr(s, -3, 2), z=round(2.5, 0), w=tonumber(\"7f\", 16)",
  "index=main | eval x=relative_time(now(), \"-1d@w0+3h\"), y=strptime(s, \"%Y-%m-%dT%H:%M:%S.%6N%z\"), z=printf(\"%05.2f %s\", a, s)",
  "index=main | eval x=case(a=1, \"one\", true(), null()), 'my field'=tostring(a, \"commas\"), t=cidrmatch(\"10.0.0.0/8\", ip)",
  "index=main | bin span=5m _time AS t | stats count, percentile95(a) AS p, earliest(b) BY t span=1h, host | sort 100 -p, +host",
  "index=main earliest=-24h@h latest=now src_ip=\"10.0.0.0/8\" dest IN (\"a*\", b, 5, 1.5) NOT (user=x* OR uri=\"/a b/*\")",
  "| tstats summariesonly=true prestats=false count AS n max(M.D.x) FROM datamodel=M.D WHERE nodename=M.D.E a=1 OR NOT b=\"x\" BY _time span=1h M.D.host",
  "| multisearch [search index=a | eval x=1] [search index=b | where y>2 | join type=left k [search index=c]] | table a b c",
  "index=main | rex field=_raw mode=sed \"s/a/b/g\" | rex max_match=3 offset_field=o \"(?<k>\\w+)=(?P<v>[^,]*)\"",
  "index=main | lookup local=true users uid AS user, k OUTPUTNEW name AS n, mail | fillnull value=\"-\" n mail",
  "index=main | addtotals row=true col=f fieldname=\"Sum of\" labelfield=l label=\"All\" a b* | convert timeformat=\"%H:%M\" ctime(*) AS c dur2sec(d) none(e)",
  "index=main | transaction host maxspan=30s | dedup 3 host sortby -_time | eventstats avg(x) AS m BY h | streamstats window=5 count",
  "index=main | where match(s, \"^[a-z]+\\\\d{2,}$\") AND like(t, \"a\\_b%\") OR isnull(u) | regex _raw!=\"(?i)err(or)?\\b\"",
  "| makeresults count=1000000 annotate=true splunk_server=\"a\" | eval n=9223372036854775807, m=-9223372036854775808, d=0.000000000000000000001"}
AllTexts == MoreTexts \cup {s : s \in Sources} \cup {"index=main | " \o c : c \in Commands}
FewTexts == MoreTexts \cup {"index=main | where a=b AND len(c)>2", "search a IN (1, 2, \"x\") b>=2", "index=main | top 5 a, b by c", "index=main | join type=left a, b [search index=web | fields a]",
  "index=main | sort 10 -a desc", "index=main | head count<3 keeplast=true", "index=main | spath input=a output=b path=c.d{2}.e", "index=main | rename a AS \"x y\", b* AS c*"}

Rep2(s, k) == Rep(s, k)
DullJunk == {" ", ",", "|", "=", "(", ")", "[", "]", "\"", "'", "`", "\\", "*", "-", ".", "0", "search", "by", "NOT", "é", "99999999999999999999", "x=1"}
Numbers == {"0", "-1", "-0", "+7", "1.", ".5", "1e5", "0x1f", "2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
            "18446744073709551616", "99999999999999999999999999999999999999999", "0.1", "-1.5", "00012", Rep("9", 330) \o ".9", "1.2.3", "10.0.0.0/33", "256.1.1.1", "0-1", "1-0", "5m", "0s", "-1d@d", "@w9", "99999999999999999999d"}
Odd == {"é", "→", "\t", "\n", "\r\n", "\"\"", "''", "\"\"\"", "\"\\\"", "\"\\\\\"", "\"é→\"", "$x$", "%", "{}", "{0}", "a{}.b", "#", "//", "\\\\", "\\\"", "*", "**", "a*b*c", "_", "__x", "..", "a..b", ".a", "&&", "!", "!=", "==", "<=>", "=>", ";", ":", "@", "~", "^", "?", "??",
        "{", "}", "$", "\"*\"", "'a b'", "\"%d %s\"", "r\"", "\"{\"", "\"%\"", "\"%Q\"", "\"@d\"", "\"(\"", "\"(?<x>\"", "\"(?<\"", "\"[a-\"", "\"a|*\"", "\"s/a/b\"", "\"\\d\""}
Words == {"search", "SEARCH", "where", "eval", "stats", "count", "BY", "AS", "OUTPUT", "IN", "NOT", "AND", "OR", "XOR", "LIKE", "true", "false", "t", "f", "null", "null()", "index=x", "index", "limit=5", "limit=-1", "span=1h", "span=", "type=", "type=cross",
          "sum(", "sum(x)", "sum()", "eval(a=1)", "count(eval(x))", "values(*)", "if(", "case()", "case(1)", "substr()", "mvindex(a)", "round(a,-1)", "round(a,9999999999999999999)", "mvindex(a,-9223372036854775808)", "substr(a,9223372036854775807,9223372036854775807)",
          "sum(1,2,3)", "max()", "avg()", "min()", "tonumber(\"x\",99)", "relative_time(a,\"@\")", "strftime(a,\"%\")", "mvrange(1,2)", "mvzip(a)", "split(a)", "cidrmatch(1,2)", "replace(a,\"(\",\"\\9\")", "printf()", "log(0)", "pow()", "in()", "searchmatch(\"x\")",
          "fields", "fields -", "head", "head -5", "tail 0", "sort", "sort 0", "sort -", "top 0 a", "top -3 a", "rare", "rename a as", "rename * as *", "rename a* AS *b*", "bin", "bin span=0m x", "bin span=99999999999999999999m x", "bin bins=0 a", "join", "join a []", "join []", "lookup", "lookup a b OUTPUT", "spath", "spath path=", "table", "table *",
          "regex", "rex \"\"", "rex \"(\"", "rex max_match=-1 \"(?<a>b)\"", "fillnull", "fillnull value=", "addtotals", "convert", "convert ctime(", "makeresults", "| makeresults", "makeresults count=-1", "multisearch", "| multisearch []", "tstats", "| tstats", "tstats count", "datamodel", "| datamodel", "map", "map search=", "map search=\"\"", "map search=\"|\"", "map search=\"search x | join a [\"",
          "return 5", "return $a", "format \"(\" \"\"", "collect index=", "dedup", "dedup 0 a", "eventstats", "streamstats window=-1 count", "inputlookup", "inputlookup append=t x where a=1", "mvcombine", "mvexpand a limit=-1", "[search x]", "[", "]", "[]", "[[", "| ", "||", "|", "`m`", "`m(1)`", "`", "``", "`m(", "`m(a=)`", "`m(\"`"}
AllJunk == DullJunk \cup Numbers \cup Odd \cup Words
AllWraps == {<<"(", ")">>, <<"[", "]">>, <<"[search ", "]">>, <<"NOT ", "">>, <<"not (", ")">>, <<"(a=1 OR ", ")">>, <<"if(a=1,", ",2)">>, <<"len(", ")">>, <<"-", "">>, <<"\"", "\"">>, <<"'", "'">>, <<"`", "`">>, <<"\\", "">>,
             <<"a.", "">>, <<"1+(", ")">>, <<"a=(", ")">>, <<"mvzip(a,", ")">>, <<"case(", ",1)">>, <<"| join a [search ", "]">>, <<"eval(", ")">>, <<"{", "}">>, <<"a=1 AND ", "">>, <<"b*", "">>, <<"b * ", "">>, <<"| eval x=", "">>, <<"(", "">>, <<"", ")">>, <<"[", "">>, <<"if(", "">>}
FewWraps == {<<"(", ")">>, <<"[search ", "]">>, <<"NOT ", "">>, <<"if(a=1,", ",2)">>, <<"(", "">>, <<"\"", "\"">>}
=============================================================================
