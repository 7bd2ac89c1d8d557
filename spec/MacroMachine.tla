---------------------------- MODULE MacroMachine ----------------------------
(***************************************************************************)
(* Macros.  A query is a text of pieces: literal fragments and calls of    *)
(* macros; a call names its macro and gives its arguments, by position or  *)
(* by name, and an argument is a text itself (inside quotes it may hold    *)
(* calls).  The machine first writes a query, then rewrites one call at a  *)
(* time, any of them, innermost or outermost, until none remains or one of *)
(* them is in error.  Every order has to end, and in the same text: the    *)
(* one that the denotation Expand gives.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Lits, Args, Names, MaxLen, MaxCalls, ArgCounts, Rewrite, Layouts, Sim

VARIABLES phase, text, now, bad
vars == <<phase, text, now, bad>>

-----------------------------------------------------------------------------
(* Texts.  pos: the names are absent; lay: how the call is laid out. *)
L(s) == [k |-> "lit", s |-> s]
P(x) == [k |-> "par", x |-> x]
C(n, names, args, lay) == [k |-> "call", n |-> n, names |-> names, args |-> args, lay |-> lay, up |-> {}]

RECURSIVE Flat(_)
RECURSIVE FlatArgs(_, _, _)
Comma(lay) == IF lay \in {"spaced", "wide"} THEN " , " ELSE ", "
FlatArgs(names, args, lay) ==
  IF args = <<>> THEN ""
  ELSE (IF names = <<>> THEN "" ELSE names[1] \o "=") \o Flat(args[1])
       \o (IF Len(args) > 1 THEN Comma(lay) \o FlatArgs(IF names = <<>> THEN <<>> ELSE Tail(names), Tail(args), lay) ELSE "")
FlatCall(c) ==
  LET in == IF c.lay = "wide" THEN " " ELSE ""
      sp == IF c.lay \in {"spaced", "wide"} THEN " " ELSE ""
      body == IF c.args = <<>> THEN (IF c.lay = "tight" THEN c.n ELSE c.n \o sp \o "(" \o in \o ")")
              ELSE c.n \o sp \o "(" \o in \o FlatArgs(c.names, c.args, c.lay) \o in \o ")"
  IN "`" \o in \o body \o in \o "`"
Flat(t) ==
  IF t = <<>> THEN ""
  ELSE (IF t[1].k = "lit" THEN t[1].s ELSE IF t[1].k = "par" THEN "$" \o t[1].x \o "$" ELSE FlatCall(t[1])) \o Flat(Tail(t))

-----------------------------------------------------------------------------
(* The registry. *)
Def(params, body) == [params |-> params, body |-> body]
Registry ==
  [base   |-> Def(<<>>, <<L("index=main")>>),
   empty  |-> Def(<<>>, <<>>),
   one    |-> Def(<<"x">>, <<L("eval y="), P("x")>>),
   two    |-> Def(<<"x", "y">>, <<L("search "), P("y"), L(" OR "), P("x"), L(" OR "), P("y")>>),
   like   |-> Def(<<"x", "xx">>, <<L("search "), P("x"), P("xx"), L(" $ x $x "), P("xx"), L("x$")>>),
   outer  |-> Def(<<>>, <<C("base", <<>>, <<>>, "tight"), L(" | "), C("one", <<>>, <<<<L("z")>>>>, "spaced")>>),
   passes |-> Def(<<"x">>, <<C("two", <<>>, <<<<P("x")>>, <<L("1")>>>>, "tight"), L(" | "), C("one", <<"x">>, <<<<P("x")>>>>, "tight")>>),
   back   |-> Def(<<"p">>, <<L("rex \"(?<z>\\d+)\\1 \" | eval w="), P("p"), L(" | ")>>),
   odd_name_2 |-> Def(<<"arg_1">>, <<L("head "), P("arg_1")>>),
   self   |-> Def(<<>>, <<L("a=1 "), C("self", <<>>, <<>>, "tight")>>),
   same   |-> Def(<<>>, <<C("same", <<>>, <<>>, "tight")>>),
   ping   |-> Def(<<>>, <<C("pong", <<>>, <<>>, "tight"), L(" "), C("pong", <<>>, <<>>, "tight")>>),
   pong   |-> Def(<<>>, <<L("b "), C("ping", <<>>, <<>>, "tight"), C("ping", <<>>, <<>>, "tight")>>),
   grow   |-> Def(<<"x">>, <<C("grow", <<>>, <<<<P("x")>>>>, "tight"), C("base", <<>>, <<>>, "tight")>>),
   broken |-> Def(<<>>, <<C("nosuch", <<>>, <<>>, "tight")>>),
   arity  |-> Def(<<>>, <<C("one", <<>>, <<>>, "tight")>>)]

ElementsOf(q) == {q[j] : j \in 1..Len(q)}
Unique(q) == Cardinality(ElementsOf(q)) = Len(q)
WellCalled(c) == /\ c.n \in DOMAIN Registry
                 /\ Len(c.args) = Len(Registry[c.n].params)
                 /\ c.names # <<>> => /\ Len(c.names) = Len(c.args)
                                      /\ ElementsOf(c.names) = ElementsOf(Registry[c.n].params)
ArgOf(c, x) == IF c.names = <<>> THEN c.args[CHOOSE j \in 1..Len(c.args) : Registry[c.n].params[j] = x]
               ELSE c.args[CHOOSE j \in 1..Len(c.args) : c.names[j] = x]
\* the body with its parameters replaced, all at the same time; a call that the body makes stands below `up`
RECURSIVE Subst(_, _, _)
Subst(t, c, up) ==
  IF t = <<>> THEN <<>>
  ELSE (IF t[1].k = "lit" THEN <<t[1]>>
        ELSE IF t[1].k = "par" THEN ArgOf(c, t[1].x)
        ELSE <<[t[1] EXCEPT !.args = [j \in DOMAIN t[1].args |-> Subst(t[1].args[j], c, up)], !.up = up]>>) \o Subst(Tail(t), c, up)

(* The denotation: arguments first, then the body. *)
Error == <<L("error")>>
RECURSIVE Expand(_, _)
Expand(t, up) ==
  IF t = <<>> THEN <<>>
  ELSE LET rest == Expand(Tail(t), up)
           c == t[1]
           args == IF c.k = "call" THEN [j \in DOMAIN c.args |-> Expand(c.args[j], up)] ELSE <<>>
           here == IF c.k # "call" THEN <<c>>
                   ELSE IF ~WellCalled(c) \/ c.n \in up \/ \E j \in DOMAIN args : args[j] = Error THEN Error
                   ELSE Expand(Subst(Registry[c.n].body, [c EXCEPT !.args = args], up \cup {c.n}), up \cup {c.n})
       IN IF here = Error \/ rest = Error THEN Error ELSE here \o rest

RECURSIVE NoCalls(_)
NoCalls(t) == \A j \in 1..Len(t) : t[j].k # "call"

-----------------------------------------------------------------------------
Init == phase = "write" /\ text = <<>> /\ now = <<>> /\ bad = FALSE
NumCalls(t) == Cardinality({j \in 1..Len(t) : t[j].k = "call"})
WriteLit(s) == /\ phase = "write" /\ Len(text) < MaxLen
               /\ text # <<>> => text[Len(text)].k # "lit"
               /\ text' = Append(text, L(s)) /\ UNCHANGED <<phase, now, bad>>
\* the names that a caller may write: those of the macro in any order, and wrong ones
NamesFor(n, k) == {<<>>} \cup (IF k = 0 \/ n \notin DOMAIN Registry THEN {}
                               ELSE IF k = 1 THEN {<<"x">>, <<"zz">>} \cup {<<y>> : y \in ElementsOf(Registry[n].params)}
                               ELSE {<<"x", "y">>, <<"y", "x">>, <<"x", "x">>, <<"x", "xx">>, <<"xx", "x">>})
WriteCall(n, as, names, lay) ==
  /\ phase = "write" /\ Len(text) < MaxLen /\ NumCalls(text) < MaxCalls
  /\ text # <<>> => text[Len(text)].k = "lit"
  /\ text' = Append(text, C(n, names, as, lay)) /\ UNCHANGED <<phase, now, bad>>
Start == phase = "write" /\ text # <<>> /\ phase' = "expand" /\ now' = text /\ UNCHANGED <<text, bad>>

\* the places of the calls in a text: <<j>> at the top, <<j, a>> \o p inside argument a
RECURSIVE Places(_)
Places(t) == UNION {IF t[j].k # "call" THEN {}
                    ELSE {<<j>>} \cup UNION {{<<j, a>> \o p : p \in Places(t[j].args[a])} : a \in DOMAIN t[j].args} : j \in 1..Len(t)}
RECURSIVE At(_, _)
At(t, p) == IF Len(p) = 1 THEN t[p[1]] ELSE At(t[p[1]].args[p[2]], SubSeq(p, 3, Len(p)))
RECURSIVE Put(_, _, _)
Put(t, p, new) == SubSeq(t, 1, p[1] - 1)
                  \o (IF Len(p) = 1 THEN new ELSE <<[t[p[1]] EXCEPT !.args[p[2]] = Put(@, SubSeq(p, 3, Len(p)), new)]>>)
                  \o SubSeq(t, p[1] + 1, Len(t))
Step(p) == /\ phase = "expand" /\ ~bad
           /\ LET c == At(now, p) IN
              IF ~WellCalled(c) \/ c.n \in c.up THEN bad' = TRUE /\ UNCHANGED now
              ELSE now' = Put(now, p, Subst(Registry[c.n].body, c, c.up \cup {c.n})) /\ UNCHANGED bad
           /\ UNCHANGED <<phase, text>>
Finish == phase = "expand" /\ (bad \/ Places(now) = {}) /\ phase' = "done" /\ UNCHANGED <<text, now, bad>>
\* in a simulation one choice of each is enough; more of the calls are well-formed then
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Arity(n) == IF n \in DOMAIN Registry /\ Sim /\ RandomElement(1..6) # 1 THEN {Len(Registry[n].params)} ELSE Pick(ArgCounts)
Next == \/ \E s \in Pick(Lits) : WriteLit(s)
        \/ \E n \in Pick(Names) : \E k \in Arity(n) : \E as \in Pick([1..k -> Args]) : \E names \in Pick(NamesFor(n, k)) : \E lay \in Pick(Layouts) : WriteCall(n, as, names, lay)
        \/ Rewrite /\ (Start \/ Finish \/ \E p \in Places(now) : Step(p))
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Finish) /\ WF_vars(\E p \in Places(now) : Step(p))

-----------------------------------------------------------------------------
Meaning == Expand(text, {})
\* every order ends in the text that the denotation gives
Confluent == phase = "done" => IF bad THEN Meaning = Error ELSE Meaning # Error /\ Flat(now) = Flat(Meaning)
Ends == (phase = "expand") ~> (phase = "done")
RECURSIVE Calls(_, _)
Calls(t, before) ==   \* what detection reports: the text before each call, its name, its arguments
  IF t = <<>> THEN <<[pre |-> before, n |-> "", a |-> <<>>]>>
  ELSE IF t[1].k = "lit" THEN Calls(Tail(t), before \o t[1].s)
  ELSE <<[pre |-> before, n |-> t[1].n, a |-> [j \in 1..Len(t[1].args) |-> [name |-> IF t[1].names = <<>> THEN "" ELSE t[1].names[j], value |-> Flat(t[1].args[j])]]]>>
       \o Calls(Tail(t), "")
Emit == (phase = "write" /\ text # <<>>) =>
           PrintT("@@" \o ToJson([t |-> Flat(text), c |-> Calls(text, ""), e |-> IF Meaning = Error THEN "" ELSE Flat(Meaning), ok |-> Meaning # Error]))
DefList == [n \in DOMAIN Registry |-> [params |-> Registry[n].params, body |-> Flat(Registry[n].body)]]
EmitDefs == (phase = "write" /\ text = <<>>) => PrintT("@@" \o ToJson([defs |-> DefList]))
=============================================================================
