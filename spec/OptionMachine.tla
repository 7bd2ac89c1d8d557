--------------------------- MODULE OptionMachine ---------------------------
(***************************************************************************)
(* A command is given options one at a time, in any order, before or after *)
(* its arguments.  What each attribute of the command holds is a function  *)
(* of the options given; the arguments hold what they hold without any.    *)
(* One wrong value makes the command wrong, whatever else is given.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, OptionVocab

CONSTANTS Cmds,        \* indices into AllCmds
          MaxGiven,    \* how many options at most
          Few,         \* only a few of the values
          MaxWrong,    \* how many of them may be wrong
          Sim          \* a random walk: one value at a time, written out only at the end

VARIABLES c, given, done
vars == <<c, given, done>>

Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X
Cm == AllCmds[c]
Names == {given[k].o : k \in 1..Len(given)}
Left == {k \in 1..Len(Cm.opts) : k \notin Names}
Wrongs == Cardinality({k \in 1..Len(given) : given[k].wrong})

Init == c \in Cmds /\ given = <<>> /\ done = FALSE

Give ==
  /\ ~done /\ Len(given) < MaxGiven /\ Left # {}
  /\ \E o \in Pick(Left) :
       LET kind == Cm.opts[o].kind
           right == {[o |-> o, t |-> v[1], v |-> v[2], wrong |-> FALSE] : v \in (IF Few THEN FewValues(kind) ELSE Values(kind))}
           wrong == IF Wrongs < MaxWrong THEN {[o |-> o, t |-> w, v |-> None, wrong |-> TRUE] : w \in Wrong(kind)} ELSE {}
       IN \E g \in (IF Sim /\ wrong # {} /\ RandomElement(1..6) = 1 THEN Pick(wrong) ELSE Pick(right) \cup (IF Sim THEN {} ELSE wrong)) :
            given' = Append(given, g)
  /\ UNCHANGED <<c, done>>
Finish == Sim /\ ~done /\ given # <<>> /\ done' = TRUE /\ UNCHANGED <<c, given>>
Next == Give \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- the text
RECURSIVE Glue(_)
Glue(ts) == IF ts = <<>> THEN "" ELSE (IF Head(ts) = "" THEN "" ELSE " " \o Head(ts)) \o Glue(Tail(ts))
OptText(g) == Cm.opts[g.o].name \o "=" \o g.t
Of(after) == LET sel == SelectSeq(given, LAMBDA g : Cm.opts[g.o].after = after) IN [k \in 1..Len(sel) |-> OptText(sel[k])]
Text == Cm.name \o Glue(Of(FALSE)) \o Glue(<<Cm.args>>) \o Glue(Of(TRUE))

\* ---- the meaning
ValueOf(o, gs) == LET is == {k \in 1..Len(gs) : gs[k].o = o} IN IF is = {} THEN Cm.opts[o].default ELSE gs[CHOOSE k \in is : TRUE].v
Refused == Wrongs > 0 \/ \E n \in Cm.need : \A k \in 1..Len(given) : Cm.opts[given[k].o].name # n
Meaning(gs) == [o \in 1..Len(Cm.opts) |-> [attr |-> Cm.opts[o].attr, v |-> ValueOf(o, gs)]]

\* the order in which options are given does not matter
OrderFree == \A k \in 1..Len(given) - 1 :
  LET sw == [given EXCEPT ![k] = given[k + 1], ![k + 1] = given[k]] IN Meaning(sw) = Meaning(given)
\* an option says nothing about another's value
Independent == \A k \in 1..Len(given) : \A o \in 1..Len(Cm.opts) :
  LET without == SubSeq(given, 1, k - 1) \o SubSeq(given, k + 1, Len(given)) IN
  o # given[k].o => ValueOf(o, without) = ValueOf(o, given)

Emit == (~Sim \/ done) =>
  PrintT("@@" \o ToJson([q |-> Text, base |-> Cm.name \o Glue([k \in 1..Len(Cm.opts) |-> IF Cm.opts[k].name \in Cm.need THEN Cm.opts[k].name \o "=zz" ELSE ""]) \o Glue(<<Cm.args>>),
                         refused |-> Refused, attrs |-> IF Refused THEN <<>> ELSE Meaning(given), n |-> Len(given), cmd |-> Cm.name]))
=============================================================================
