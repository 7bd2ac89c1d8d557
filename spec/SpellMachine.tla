---------------------------- MODULE SpellMachine ----------------------------
(***************************************************************************)
(* The spellings of a query.  A query is a sequence of pieces: text that   *)
(* has one spelling only, keywords of any case, places where blanks or     *)
(* line breaks may or must stand, separators of lists, names that may be   *)
(* quoted, expressions that may be put in parentheses, options in any      *)
(* order, beginnings that may be left out.  The machine writes the pieces  *)
(* from left to right; each step takes one of the spellings of the next    *)
(* piece.  devs records where it left the first spelling: whatever is in   *)
(* it, the query means what the one with devs empty means.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bases, MaxDevs, Sim

SV == INSTANCE SplValues
ToLower(s) == SV!ToLower(s)
ToUpper(s) == SV!ToUpper(s)
Lo(c) == SV!Lo(c)

\* ---- pieces
T(s) == [k |-> "text", s |-> s]
K(s) == [k |-> "keyword", s |-> s]
S == [k |-> "blank", s |-> " "]                        \* at least one
O == [k |-> "maybe blank", s |-> ""]
OS == [k |-> "maybe blank", s |-> " "]
C == [k |-> "comma", s |-> ", "]
L == [k |-> "list", s |-> ", "]                        \* between the items of a list: a comma or blanks
N(s) == [k |-> "name", s |-> s]
Q(ps) == [k |-> "pieces", ps |-> ps]
G(p) == [k |-> "group", ps |-> <<p>>]
Opt(p) == [k |-> "left out", ps |-> p]
Either(alts) == [k |-> "any", alts |-> alts]              \* any of these sequences of pieces
Perm(ps) == [k |-> "order", ps |-> ps]
Bar == Q(<<O, OS, T("|"), OS>>)

Cap(s) == ToUpper(SubSeq(s, 1, 1)) \o SubSeq(s, 2, Len(s))
Mixed(s) == LET c[k \in 0..Len(s)] == IF k = 0 THEN "" ELSE c[k - 1] \o (IF k % 2 = 1 THEN SubSeq(s, k, k) ELSE ToUpper(SubSeq(s, k, k))) IN c[Len(s)]
Dedup(s) == LET d[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE LET p == d[k - 1] IN IF \E i \in 1..Len(p) : p[i] = s[k] THEN p ELSE Append(p, s[k]) IN d[Len(s)]
Spaces == <<"", " ", "  ", "\n", "\t", " \n  ", "\r\n">>
Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
SetSeq(X) == CHOOSE s \in [1..Cardinality(X) -> X] : \A i, j \in 1..Cardinality(X) : i # j => s[i] # s[j]
RECURSIVE Between(_, _)
Between(ps, sep) == IF Len(ps) <= 1 THEN ps ELSE <<Head(ps), sep>> \o Between(Tail(ps), sep)
Identity(n) == [i \in 1..n |-> i]
\* the spellings of a piece, the first one first: what is written and what remains to be written
Texts(ss) == [i \in 1..Len(ss) |-> [out |-> ss[i], rest |-> <<>>]]
Spellings(p) ==
  CASE p.k = "text" -> Texts(<<p.s>>)
    [] p.k = "keyword" -> Texts(Dedup(<<p.s, ToLower(p.s), ToUpper(p.s), Cap(ToLower(p.s)), Mixed(ToLower(p.s))>>))
    [] p.k = "blank" -> Texts(Dedup(<<p.s>> \o SubSeq(Spaces, 2, Len(Spaces))))
    [] p.k = "maybe blank" -> Texts(Dedup(<<p.s>> \o Spaces))
    [] p.k = "comma" -> Texts(<<", ", ",", " ,", " , ", ",\n", "\n,\n   ">>)
    [] p.k = "list" -> Texts(<<", ", ",", " ,", " , ", ",\n", " ", "  ", "\n", "\t">>)
    [] p.k = "name" -> Texts(<<p.s, "\"" \o p.s \o "\"">>)
    [] p.k = "pieces" -> <<[out |-> "", rest |-> p.ps]>>
    [] p.k = "group" -> <<[out |-> "", rest |-> p.ps], [out |-> "", rest |-> <<T("("), O>> \o p.ps \o <<O, T(")")>>],
                          [out |-> "", rest |-> <<T("("), T("(")>> \o p.ps \o <<T(")"), T(")")>>]>>
    [] p.k = "left out" -> <<[out |-> "", rest |-> p.ps], [out |-> "", rest |-> <<>>]>>
    [] p.k = "any" -> [i \in 1..Len(p.alts) |-> [out |-> "", rest |-> p.alts[i]]]
    [] p.k = "order" -> LET n == Len(p.ps)  os == <<Identity(n)>> \o SetSeq(Orders(n) \ {Identity(n)})
                        IN [i \in 1..Len(os) |-> [out |-> "", rest |-> Between([j \in 1..n |-> p.ps[os[i][j]]], S)]]

-----------------------------------------------------------------------------
(* A spelling reads back: without its blanks, commas, quotes, parentheses  *)
(* and case nothing but the order of options is left of the differences.   *)
Bare(s) == LET c[k \in 0..Len(s)] == IF k = 0 THEN "" ELSE LET x == SubSeq(s, k, k) IN IF x \in {" ", "\n", "\t", "\r", ",", "\"", "(", ")"} THEN c[k - 1] ELSE c[k - 1] \o Lo(x) IN c[Len(s)]
RECURSIVE First(_, _)
First(ps, done) == IF ps = <<>> THEN done ELSE LET a == Spellings(Head(ps))[1] IN First(a.rest \o Tail(ps), done \o a.out)
VARIABLES id, todo, text, devs, bare
vars == <<id, todo, text, devs, bare>>

Init == LET bs == Bases IN \E b \in 1..Len(bs) : id = b /\ todo = bs[b] /\ text = "" /\ devs = <<>> /\ bare = Bare(First(todo, ""))
Step(i) == LET a == Spellings(Head(todo))[i]
           IN /\ text' = text \o a.out
              /\ todo' = a.rest \o Tail(todo)
              /\ devs' = IF i = 1 THEN devs ELSE Append(devs, Head(todo).k)
              /\ UNCHANGED <<id, bare>>
\* the alternatives of a piece are not counted: all of them are written in every way
Changed == Cardinality({i \in 1..Len(devs) : devs[i] # "any"})
Choices == LET n == Len(Spellings(Head(todo))) IN IF Head(todo).k = "any" \/ Changed < MaxDevs THEN 1..n ELSE {1}
Next == /\ todo # <<>>
        /\ \E i \in (IF Sim THEN {RandomElement(Choices)} ELSE Choices) : Step(i)
Spec == Init /\ [][Next]_vars

Harmless == todo = <<>> /\ {devs[i] : i \in 1..Len(devs)} \cap {"order", "left out", "any"} = {} => Bare(text) = bare
Emit == todo = <<>> => PrintT("@@" \o ToJson([id |-> id, q |-> text, devs |-> devs]))
=============================================================================
