------------------------------ MODULE Codegen ------------------------------
(***************************************************************************)
(* Generated programs.  A program is a sequence of statements: all but the *)
(* last give a new name to a data frame, the last one is the result.  The  *)
(* machine runs through recorded programs, each statement reduced to what  *)
(* it assigns and which names it reads, and says where a program does      *)
(* something that no program may do.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Given == {"spark", "F", "commands", "functions", "udfs"}       \* by the imports the documentation tells to write

Programs == JsonDeserialize(IOEnv.PROGRAMS)                    \* <<[id, body |-> <<[k, to, reads]>>]>>

VARIABLES prog, at, names, unread, wrong
vars == <<prog, at, names, unread, wrong>>

Body == Programs[prog].body
Reads(s) == {s.reads[j] : j \in 1..Len(s.reads)}
Init == prog \in 1..Len(Programs) /\ at = 1 /\ names = {} /\ unread = {} /\ wrong = ""
Last == at = Len(Body)
Fault(s) ==
  IF ~(Reads(s) \subseteq names \cup Given) THEN "reads a name that is not assigned before"
  ELSE IF s.k = "assign" /\ s.to \in names \cup Given THEN "assigns a name again"
  ELSE IF s.k \notin {"assign", "result"} THEN "is neither an assignment to a name nor the result"
  ELSE IF s.k = "result" /\ ~Last THEN "has no effect"
  ELSE IF s.k = "assign" /\ Last THEN "is the last one but no result"
  ELSE IF Last /\ ~(unread \subseteq Reads(s)) THEN "leaves a data frame unused"
  ELSE ""
Statement == /\ at <= Len(Body) /\ wrong = ""
             /\ LET s == Body[at]  f == Fault(s) IN
                /\ wrong' = f
                /\ names' = IF s.k = "assign" THEN names \cup {s.to} ELSE names
                /\ unread' = (unread \ Reads(s)) \cup (IF s.k = "assign" THEN {s.to} ELSE {})
             /\ at' = at + 1 /\ UNCHANGED prog
Next == Statement
Spec == Init /\ [][Next]_vars

TypeOK == unread \subseteq names /\ at \in 1..(Len(Body) + 1) /\ (at > Len(Body) /\ wrong = "" => unread \subseteq Reads(Body[Len(Body)]))
Emit == wrong # "" => PrintT("@@" \o ToJson([id |-> Programs[prog].id, at |-> at - 1, why |-> wrong]))
EmptyIsWrong == Len(Body) = 0 => PrintT("@@" \o ToJson([id |-> Programs[prog].id, at |-> 0, why |-> "is empty"]))
=============================================================================
