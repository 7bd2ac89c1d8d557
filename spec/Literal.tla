------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* String literals and names.  The lexer reads the text between two quotes *)
(* character by character and builds the value that the literal denotes;   *)
(* the writer turns the same text into the body of a Python literal, and   *)
(* the reader of Python turns that body into a value again.  RoundTrip and *)
(* Contained say that the program then holds exactly the value, and that   *)
(* no text can end the literal of the program.  Characters are named, so   *)
(* that texts may hold quotes, line breaks and characters beyond ASCII.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Chars, MaxLen, Quote   \* Quote: "dq" or "sq"

VARIABLES src, val, esc
vars == <<src, val, esc>>

Init == src = <<>> /\ val = <<>> /\ esc = FALSE
\* \" and \\ are the escape sequences; before anything else a backslash stands for itself.
\* What a backslash before the other kind of quote means is left open.
Escapes == {Quote, "bs"}
Open_ == {"dq", "sq"} \ {Quote}
Read(c) == /\ Len(src) < MaxLen
           /\ ~(esc /\ c \in Open_)
           /\ ~(~esc /\ c = Quote)
           /\ src' = Append(src, c)
           /\ IF esc THEN esc' = FALSE /\ val' = IF c \in Escapes THEN Append(val, c) ELSE val \o <<"bs", c>>
              ELSE IF c = "bs" THEN esc' = TRUE /\ UNCHANGED val
              ELSE esc' = FALSE /\ val' = Append(val, c)
Next == \E c \in Chars : Read(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The writer: a backslash that Python would take for the start of an      *)
(* escape sequence of its own is doubled.                                  *)
PyOnly == {"a", "b", "f", "n", "r", "t", "v", "x", "u", "U", "N", "0", "1", "7", "nl", "cr"}
Plainly(c, q) == IF c = "nl" THEN <<"bs", "n">> ELSE IF c = "cr" THEN <<"bs", "r">> ELSE IF c = q THEN <<"bs", c>> ELSE <<c>>
RECURSIVE PyEmit(_, _)
PyEmit(s, q) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # "bs" THEN Plainly(s[1], q) \o PyEmit(Tail(s), q)
  ELSE IF Len(s) > 1 /\ s[2] \notin PyOnly THEN <<"bs", s[2]>> \o PyEmit(SubSeq(s, 3, Len(s)), q)
  ELSE <<"bs", "bs">> \o PyEmit(Tail(s), q)

(* Python's reader of a literal that is quoted by q. *)
Known == [nl |-> <<>>, n |-> <<"nl">>, r |-> <<"cr">>, t |-> <<"tab">>]
RECURSIVE PyRead(_)
PyRead(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF b[1] # "bs" THEN <<b[1]>> \o PyRead(Tail(b))
  ELSE IF Len(b) = 1 THEN <<"unterminated">>
  ELSE LET c == b[2]  rest == PyRead(SubSeq(b, 3, Len(b))) IN
       IF c \in {"bs", "dq", "sq"} THEN <<c>> \o rest
       ELSE IF c \in DOMAIN Known THEN Known[c] \o rest
       ELSE IF c \in PyOnly THEN <<"other character">> \o rest
       ELSE <<"bs", c>> \o rest
RECURSIVE Ends(_, _)
Ends(b, q) == IF b = <<>> THEN FALSE
              ELSE IF b[1] = "bs" THEN Len(b) = 1 \/ Ends(SubSeq(b, 3, Len(b)), q)
              ELSE b[1] \in {q, "nl", "cr"} \/ Ends(Tail(b), q)

RoundTrip == ~esc => \A q \in {"dq", "sq"} : PyRead(PyEmit(src, q)) = val
Contained == ~esc => \A q \in {"dq", "sq"} : ~Ends(PyEmit(src, q), q)
Star(v) == [j \in 1..Len(v) |-> IF v[j] = "star" THEN "pct" ELSE v[j]]
Emit == ~esc => PrintT("@@" \o ToJson([s |-> src, v |-> val, w |-> IF \E j \in 1..Len(val) : val[j] = "star" THEN Star(val) ELSE <<>>]))
=============================================================================
