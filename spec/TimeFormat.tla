----------------------------- MODULE TimeFormat -----------------------------
(***************************************************************************)
(* Time formats.  A format of SPL is a text with directives, which begin   *)
(* with a percent sign; a pattern of Spark is a text in which every run of *)
(* the same letter is a field, and text stands between apostrophes.  The   *)
(* machine writes formats directive by directive; Scan reads the text of   *)
(* one from left to right, SparkWrite gives a pattern for it and SparkRead *)
(* says what a pattern means.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Directives, Texts, MaxLen

VARIABLES src, toks
vars == <<src, toks>>

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Txt(c) == [k |-> "text", v |-> c]
Fld(v) == [k |-> "field", v |-> v]
No == <<[k |-> "refused", v |-> ""]>>
(* What each directive means; No: Spark has nothing with that meaning. *)
Meaning ==
  [H |-> <<Fld("hour24/2")>>, I |-> <<Fld("hour12/2")>>, k |-> <<Fld("hour24/1")>>, M |-> <<Fld("minute/2")>>, S |-> <<Fld("second/2")>>, p |-> <<Fld("ampm")>>,
   f |-> <<Fld("fraction/6")>>, N |-> <<Fld("fraction/9")>>, n3 |-> <<Fld("fraction/3")>>, n6 |-> <<Fld("fraction/6")>>, n9 |-> <<Fld("fraction/9")>>,
   Q |-> <<Fld("fraction/3")>>, q3 |-> <<Fld("fraction/3")>>, q6 |-> <<Fld("fraction/6")>>, q9 |-> <<Fld("fraction/9")>>,
   T |-> <<Fld("hour24/2"), Txt(":"), Fld("minute/2"), Txt(":"), Fld("second/2")>>, Z |-> <<Fld("zone")>>,
   z |-> <<Fld("offset/hhmm")>>,
   F |-> <<Fld("year/4"), Txt("-"), Fld("month/2"), Txt("-"), Fld("day/2")>>,
   A |-> <<Fld("weekday/full")>>, a |-> <<Fld("weekday/short")>>, d |-> <<Fld("day/2")>>, e |-> <<Fld("day/1")>>, j |-> <<Fld("dayofyear/3")>>,
   b |-> <<Fld("month/short")>>, B |-> <<Fld("month/full")>>, m |-> <<Fld("month/2")>>, y |-> <<Fld("year/2")>>, Y |-> <<Fld("year/4")>>,
   c |-> No, Ez |-> No, s |-> No, X |-> No, x |-> No, w |-> No, U |-> No, V |-> No, G |-> No, o |-> No, K |-> No, L |-> No]
Colon == [z1 |-> <<Fld("offset/hh:mm")>>, z2 |-> <<Fld("offset/hh:mm:ss")>>, z3 |-> <<Fld("offset/hh")>>, percent |-> <<Txt("%")>>, plus |-> No, bare |-> No]
Means(d) == IF d \in DOMAIN Meaning THEN Meaning[d] ELSE Colon[d]
(* ... and its letters. *)
Spelled(d) == CASE d = "n3" -> <<"3", "N">> [] d = "n6" -> <<"6", "N">> [] d = "n9" -> <<"9", "N">> [] d = "q3" -> <<"3", "Q">> [] d = "q6" -> <<"6", "Q">>
                [] d = "q9" -> <<"9", "Q">> [] d = "Ez" -> <<"E", "z">> [] d = "z1" -> <<":", "z">> [] d = "z2" -> <<":", ":", "z">>
                [] d = "z3" -> <<":", ":", ":", "z">> [] d = "percent" -> <<"%">> [] d = "plus" -> <<"+">> [] d = "bare" -> <<>> [] OTHER -> <<d>>
All == DOMAIN Meaning \cup DOMAIN Colon

(* The patterns of Spark. *)
Spark ==
  [HH |-> "hour24/2", H |-> "hour24/1", hh |-> "hour12/2", h |-> "hour12/1", kk |-> "hour1-24/2", KK |-> "hour0-11/2", mm |-> "minute/2", m |-> "minute/1",
   ss |-> "second/2", s |-> "second/1", a |-> "ampm", SSS |-> "fraction/3", SSSSSS |-> "fraction/6", SSSSSSSSS |-> "fraction/9",
   z |-> "zone", zz |-> "zone", zzz |-> "zone", zzzz |-> "zone/full", VV |-> "zone/id",
   x |-> "offset/hh", xx |-> "offset/hhmm", xxx |-> "offset/hh:mm", xxxx |-> "offset/hhmmss", xxxxx |-> "offset/hh:mm:ss",
   Z |-> "offset/hhmm", ZZ |-> "offset/hhmm", ZZZ |-> "offset/hhmm", XXX |-> "offset/Z or hh:mm", XX |-> "offset/Z or hhmm", X |-> "offset/Z or hh",
   yyyy |-> "year/4", uuuu |-> "year/4", yy |-> "year/2", MM |-> "month/2", M |-> "month/1", MMM |-> "month/short", MMMM |-> "month/full",
   LL |-> "month/2", dd |-> "day/2", d |-> "day/1", DDD |-> "dayofyear/3", D |-> "dayofyear/1",
   E |-> "weekday/short", EE |-> "weekday/short", EEE |-> "weekday/short", EEEE |-> "weekday/full"]
Written == [f \in {F_.v : F_ \in UNION {{Means(d)[j] : j \in 1..Len(Means(d))} : d \in All}} |->
              IF \E r \in DOMAIN Spark : Spark[r] = f THEN CHOOSE r \in DOMAIN Spark : Spark[r] = f ELSE ""]

-----------------------------------------------------------------------------
Out(ts) == IF ts = <<>> THEN <<>> ELSE IF ts[1].k = "dir" THEN Means(ts[1].v) ELSE <<Txt(ts[1].v)>>
RECURSIVE Denote(_)
Denote(ts) == IF ts = <<>> THEN <<>> ELSE Out(ts) \o Denote(Tail(ts))
Dir(d) == [k |-> "dir", v |-> d]

First(d) == IF Means(d) = No THEN "" ELSE Means(d)[1].v
Last(d) == IF Means(d) = No THEN "" ELSE Means(d)[Len(Means(d))].v
\* two fields of the same letter in a row are one field to Spark: left open
Letter(f) == CASE f \in {"hour24/2", "hour24/1"} -> "H" [] f \in {"month/2", "month/short", "month/full"} -> "M" [] f \in {"day/2", "day/1"} -> "d"
               [] f \in {"fraction/3", "fraction/6", "fraction/9"} -> "S" [] f \in {"year/4", "year/2"} -> "y" [] f \in {"weekday/full", "weekday/short"} -> "E"
               [] f \in {"offset/hhmm", "offset/hh:mm", "offset/hh:mm:ss", "offset/hh"} -> "x" [] OTHER -> f
Distinct_(ts, d) == IF ts = <<>> THEN TRUE
                    ELSE IF ts[Len(ts)].k # "dir" THEN TRUE
                    ELSE IF ts[Len(ts)].v = "percent" \/ d = "percent" THEN TRUE
                    ELSE IF Means(d) = No \/ Means(ts[Len(ts)].v) = No THEN TRUE
                    ELSE Letter(Last(ts[Len(ts)].v)) # Letter(First(d))
\* a bare percent sign: at the end, or before something that no directive begins with
Bare(ts) == IF ts = <<>> THEN FALSE ELSE ts[Len(ts)] = Dir("bare")

Init == src = <<>> /\ toks = <<>>
Directive(d) == /\ Len(toks) < MaxLen /\ ~Bare(toks) /\ Distinct_(toks, d)
                /\ toks' = Append(toks, Dir(d)) /\ src' = src \o <<"%">> \o Spelled(d)
Text(c) == /\ Len(toks) < MaxLen /\ (Bare(toks) => c \in {" ", "!", ","})
           /\ toks' = Append(toks, Txt(c)) /\ src' = Append(src, c)
Next == (\E d \in Directives : Directive(d)) \/ \E c \in Texts : Text(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Reading a text from left to right, the longest directive first. *)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Scan(_)
Scan(s) == IF s = <<>> THEN <<>>
           ELSE IF s[1] # "%" THEN <<Txt(s[1])>> \o Scan(Tail(s))
           ELSE LET fits == {d \in All : StartsWith(Tail(s), Spelled(d))}
                    d == CHOOSE x \in fits : \A y \in fits : Len(Spelled(y)) <= Len(Spelled(x))
                IN <<Dir(d)>> \o Scan(SubSeq(s, 2 + Len(Spelled(d)), Len(s)))
Unambiguous == Scan(src) = toks

Refused == \E j \in 1..Len(toks) : toks[j].k = "dir" /\ Means(toks[j].v) = No
(* A pattern for the format: fields as runs, every text between apostrophes. *)
RECURSIVE SparkWrite(_)
SparkWrite(m) == IF m = <<>> THEN <<>>
                 ELSE (IF m[1].k = "field" THEN <<[r |-> Written[m[1].v]]>> ELSE IF m[1].v = "'" THEN <<[q |-> "''"]>> ELSE <<[q |-> m[1].v]>>) \o SparkWrite(Tail(m))
RECURSIVE SparkRead(_)
SparkRead(p) == IF p = <<>> THEN <<>>
                ELSE (IF "r" \in DOMAIN p[1] THEN <<Fld(Spark[p[1].r])>> ELSE <<Txt(IF p[1].q = "''" THEN "'" ELSE p[1].q)>>) \o SparkRead(Tail(p))
Expressible == ~Refused => SparkRead(SparkWrite(Denote(toks))) = Denote(toks)
Emit == toks # <<>> => PrintT("@@" \o ToJson([f |-> src, ok |-> ~Refused, m |-> IF Refused THEN <<>> ELSE Denote(toks)]))
EmitSpark == toks = <<>> => PrintT("@@" \o ToJson([spark |-> Spark]))
=============================================================================
