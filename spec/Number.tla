------------------------------- MODULE Number -------------------------------
(***************************************************************************)
(* Numbers and unquoted names, character by character.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Digits, MaxInt, MaxFrac, NameFirst, NameRest, MaxName

VARIABLES kind, sign, ip, fp
vars == <<kind, sign, ip, fp>>

Init == kind \in {"int", "name"} /\ sign \in (IF kind = "name" THEN {""} ELSE {"", "-"}) /\ ip = <<>> /\ fp = <<>>
Digit(d) == /\ kind = "int" /\ Len(ip) < MaxInt /\ ip' = Append(ip, d) /\ UNCHANGED <<kind, sign, fp>>
Point == /\ kind = "int" /\ Len(ip) > 0 /\ MaxFrac > 0 /\ kind' = "dec" /\ UNCHANGED <<sign, ip, fp>>
Frac(d) == /\ kind = "dec" /\ Len(fp) < MaxFrac /\ fp' = Append(fp, d) /\ UNCHANGED <<kind, sign, ip>>
Letter(c) == /\ kind = "name" /\ Len(ip) < MaxName /\ (ip = <<>> => c \in NameFirst) /\ ip' = Append(ip, c) /\ UNCHANGED <<kind, sign, fp>>
Next == Point \/ (\E d \in Digits : Digit(d) \/ Frac(d)) \/ \E c \in NameRest \cup NameFirst : Letter(c)
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
RECURSIVE NoLead(_)
NoLead(q) == IF Len(q) > 1 /\ q[1] = "0" THEN NoLead(Tail(q)) ELSE q
RECURSIVE NoTrail(_)
NoTrail(q) == IF q # <<>> /\ q[Len(q)] = "0" THEN NoTrail(SubSeq(q, 1, Len(q) - 1)) ELSE q
Zero == NoLead(ip) = <<"0">> /\ NoTrail(fp) = <<>>
Whole == Len(ip) > 0 /\ (kind = "dec" => Len(fp) > 0)
\* the canonical text of the value
Value == IF kind = "name" THEN Cat(ip)
         ELSE (IF sign = "-" /\ ~Zero THEN "-" ELSE "") \o Cat(NoLead(ip)) \o (IF NoTrail(fp) = <<>> THEN "" ELSE "." \o Cat(NoTrail(fp)))
Text == IF kind = "name" THEN Cat(ip) ELSE sign \o Cat(ip) \o (IF kind = "dec" THEN "." \o Cat(fp) ELSE "")
Canonical == Whole /\ kind # "name" => Len(NoLead(ip)) <= Len(ip) /\ Len(NoTrail(fp)) <= Len(fp)
Emit == Whole => PrintT("@@" \o ToJson([k |-> kind, t |-> Text, v |-> Value]))
=============================================================================
