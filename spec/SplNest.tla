------------------------------ MODULE SplNest ------------------------------
(***************************************************************************)
(* Pipelines in pipelines.  The state is the text of a query as far as it  *)
(* has been written and the stack of pipelines that are open in it.  A     *)
(* pipeline begins with a source, goes on with commands, and a command may *)
(* contain pipelines of its own.  A piece that cannot be expressed may be  *)
(* put wherever the grammar has room for it; from then on the query has to *)
(* be refused, whatever else is written (blame never becomes "" again).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, SplVocab

CONSTANTS Srcs, Cmds, BadSrcs, BadCmds, BadEnds, MaxLen, MaxDepth, MaxTotal, Sim

VARIABLES q, stack, total, blame
vars == <<q, stack, total, blame>>

Pick(S) == IF Sim THEN IF S = {} THEN {} ELSE {RandomElement(S)} ELSE S
\* st: "new" nothing written yet, "open" goes on, "subs" between the subsearches of a multisearch
Frame(kind) == [kind |-> kind, st |-> "new", n |-> 0, subs |-> 0]
Top == stack[Len(stack)]
Put(f) == [stack EXCEPT ![Len(stack)] = f]

Init == q = "" /\ stack = <<Frame("top")>> /\ total = 0 /\ blame = ""
Begin(s) == /\ Top.st = "new" /\ q' = q \o s /\ stack' = Put([Top EXCEPT !.st = "open", !.n = 1]) /\ total' = total + 1
Add(c) == /\ Top.st = "open" /\ Top.n < MaxLen /\ total < MaxTotal
          /\ q' = q \o " | " \o c /\ stack' = Put([Top EXCEPT !.n = @ + 1]) /\ total' = total + 1
Room == Len(stack) <= MaxDepth /\ total < MaxTotal
OpenJoin(j) == /\ Top.st = "open" /\ Top.n < MaxLen /\ Room
               /\ q' = q \o " | join " \o j \o " [" /\ stack' = Append(Put([Top EXCEPT !.n = @ + 1]), Frame("join")) /\ total' = total + 1
OpenMulti == /\ Top.st = "new" /\ Room
             /\ q' = q \o "| multisearch [" /\ stack' = Append(Put([Top EXCEPT !.st = "subs", !.n = 1]), Frame("multi")) /\ total' = total + 1
Another == /\ Top.st = "subs" /\ Top.subs < 3 /\ (Top.subs < 2 \/ total < MaxTotal)
           /\ q' = q \o " [" /\ stack' = Append(stack, Frame("multi")) /\ UNCHANGED total
Close == /\ Len(stack) > 1 /\ Top.st = "open"
         /\ q' = q \o "]" /\ UNCHANGED total
         /\ LET s == SubSeq(stack, 1, Len(stack) - 1)  p == s[Len(s)]
            IN stack' = [s EXCEPT ![Len(s)] = IF p.st = "subs" THEN [p EXCEPT !.subs = @ + 1] ELSE p]
Ready == Top.st = "subs" /\ Top.subs >= 2
GoOn == /\ Ready /\ stack' = Put([Top EXCEPT !.st = "open"]) /\ UNCHANGED <<q, total>>

Good == \/ \E s \in Pick(Srcs) : Begin(s)
        \/ \E c \in Pick(Cmds) : Add(c)
        \/ \E j \in Pick({"a", "type=left a, b", "type=outer usetime=true earlier=false k", "max=1 host user"}) : OpenJoin(j)
        \/ OpenMulti \/ Another \/ Close \/ GoOn
Bad == /\ blame = ""
       /\ \/ \E s \in Pick(BadSrcs) : Begin(s) /\ blame' = s
          \/ \E c \in Pick(BadCmds) : Add(c) /\ blame' = c
          \/ \E e \in Pick(BadEnds) : /\ Top.st = "open" /\ total > 0 /\ q' = q \o e /\ blame' = "text left over:" \o e
                                      /\ (e = " [search foo]" => ~(Top.subs > 0 /\ Top.n = 1))      \* one more of a multisearch is fine
                                      /\ stack' = Put([Top EXCEPT !.n = MaxLen]) /\ UNCHANGED total
Next == (Good /\ UNCHANGED blame) \/ Bad
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Whole == Len(stack) = 1 /\ Top.st = "open"
Nested == /\ Len(stack) <= MaxDepth + 1 /\ stack[1].kind = "top" /\ \A k \in 2..Len(stack) : stack[k].kind # "top" /\ stack[k - 1].st # "new"
          /\ \A k \in 1..Len(stack) : stack[k].st = "subs" => k = Len(stack) \/ stack[k + 1].kind = "multi"
StaysRefused == [][blame # "" => blame' = blame]_vars
Emit == Whole => PrintT("@@" \o ToJson([q |-> q, bad |-> blame, n |-> total]))
EmitBad == Whole /\ blame # "" => PrintT("@@" \o ToJson([q |-> q, bad |-> blame, n |-> total]))
=============================================================================
