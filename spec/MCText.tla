------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Writes every well-formed text of at most MaxLen characters over a small *)
(* set of characters, character by character, while the lexical machine of *)
(* JSONText reads along.  The writer knows which tokens it writes (made);  *)
(* the reader must find exactly these, whatever blanks surround them and   *)
(* whatever strings contain, and the legal boundaries of Partition must be *)
(* the places where the text can be cut without changing what is read.     *)
(*                                                                         *)
(*   text   what has been written so far                                   *)
(*   w      state of the token writer (Writer)                             *)
(*   mode   "gap" between tokens, "str"/"esc" inside of a string, "name"   *)
(*          behind a name, where its colon is still missing, "sign" behind *)
(*          the sign of a number, "num" inside of a number                 *)
(*   from   where the token that is being written begins                   *)
(*   to     where a name ends whose colon is missing                       *)
(*   made   the tokens that are complete                                   *)
(*   lx     the reader                                                     *)
(***************************************************************************)
EXTENDS Writer, Partition, Json

CONSTANTS MaxLen, BlankKinds, MaxBlanks, Inside, Digits, Braces
(* BlankKinds, MaxBlanks: which blanks may stand between tokens, and how many in a text;
   Inside: characters inside of strings, besides the backslash; Digits: characters of numbers,
   the minus sign only at the beginning; Braces: whether there are objects *)

Blanks == {<<" ", "\t", "\n", "\r">>[i] : i \in BlankKinds}
Escapes == {"\\", "\""} \cup (Inside \cap {"b", "f", "n", "r", "t", "/"})

Slash == "\\"
Quote == "\""

VARIABLES text, w, mode, from, to, made, lx, blanks
vars == <<text, w, mode, from, to, made, lx, blanks>>

Init == /\ text = "" /\ w = WriterInit /\ mode = "gap" /\ from = 0 /\ to = 0
        /\ made = <<>> /\ lx = LexInit /\ blanks = 0

Here == Len(text) + 1
Name == "name"

(* what the writer allows next, seen as token kinds *)
Allowed == MayWrite(w, {Name}, {"value"})
Put(x) == Wrote(w, x, {Name})

(* the number that ends in front of the character that is written now *)
NumberDone == IF mode = "num" THEN Append(made, Tok("p", from, Len(text), Text(text, from, Len(text)))) ELSE made

(* effects of writing the character c: [w, mode, from, to, made], or no effect if it is not allowed *)
Effects(c) ==
    LET open == mode \in {"gap", "num"} IN
    (IF open /\ c \in Blanks /\ blanks < MaxBlanks
     THEN {[w |-> w, mode |-> "gap", from |-> 0, to |-> 0, made |-> NumberDone]} ELSE {})
    \cup
    (IF open /\ c \in Allowed /\ c \in Structural
     THEN {[w |-> Put(c), mode |-> "gap", from |-> 0, to |-> 0, made |-> Append(NumberDone, Tok(c, Here, Here, c))]} ELSE {})
    \cup
    (IF mode = "gap" /\ c = Quote /\ Allowed \cap {Name, "value"} # {}
     THEN {[w |-> w, mode |-> "str", from |-> Here, to |-> 0, made |-> made]} ELSE {})
    \cup
    (IF mode = "gap" /\ c \in Digits \ {"0"} /\ "value" \in Allowed
     THEN {[w |-> Put("value"), mode |-> IF c = "-" THEN "sign" ELSE "num", from |-> Here, to |-> 0, made |-> made]} ELSE {})
    \cup
    (IF mode \in {"sign", "num"} /\ c \in Digits \ {"-"}
     THEN {[w |-> w, mode |-> "num", from |-> from, to |-> 0, made |-> made]} ELSE {})
    \cup
    (IF mode = "str" /\ c = Slash
     THEN {[w |-> w, mode |-> "esc", from |-> from, to |-> 0, made |-> made]} ELSE {})
    \cup
    (IF mode = "str" /\ c \in Inside
     THEN {[w |-> w, mode |-> "str", from |-> from, to |-> 0, made |-> made]} ELSE {})
    \cup
    (IF mode = "esc" /\ c \in Escapes
     THEN {[w |-> w, mode |-> "str", from |-> from, to |-> 0, made |-> made]} ELSE {})
    \cup
    (IF mode = "str" /\ c = Quote /\ Name \in Allowed
     THEN {[w |-> w, mode |-> "name", from |-> from, to |-> Here, made |-> made]} ELSE {})
    \cup
    (IF mode = "str" /\ c = Quote /\ "value" \in Allowed
     THEN {[w |-> Put("value"), mode |-> "gap", from |-> 0, to |-> 0,
            made |-> Append(made, Tok("p", from, Here, Text(text, from, Len(text)) \o c))]} ELSE {})
    \cup
    (IF mode = "name" /\ c \in Blanks /\ blanks < MaxBlanks
     THEN {[w |-> w, mode |-> "name", from |-> from, to |-> to, made |-> made]} ELSE {})
    \cup
    (IF mode = "name" /\ c = ":"
     THEN {[w |-> Put(Name), mode |-> "gap", from |-> 0, to |-> 0,
            made |-> Append(made, Tok("k", from, Here, Text(text, from + 1, to - 1)))]} ELSE {})

(* characters that are needed at least to complete the text: a value takes one, a name three *)
Needed(e) == Len(e.w.open) + (CASE e.mode = "esc" -> 2 [] e.mode = "sign" -> 1 [] e.mode = "str" -> 1 [] e.mode = "name" -> 2 [] OTHER -> 0)
             + (IF e.mode \in {"str", "esc"} /\ e.w.at \in {"name", "first"} /\ Last(e.w.open) = "o" THEN 2 ELSE 0)
             + (CASE e.mode # "gap" -> 0 [] e.w.at = "value" -> 1 [] e.w.at = "name" -> 4 [] OTHER -> 0)

Characters == Blanks \cup Inside \cup Digits \cup {"[", "]", ",", ":", Quote, Slash} \cup
              (IF Braces THEN {"{", "}"} ELSE {})

Next == /\ Len(text) < MaxLen
        /\ \E c \in Characters : \E e \in Effects(c) :
              /\ Here + Needed(e) <= MaxLen
              /\ text' = text \o c
              /\ w' = e.w /\ mode' = e.mode /\ from' = e.from /\ to' = e.to /\ made' = e.made
              /\ lx' = LexStep(text', lx, Here)
              /\ blanks' = IF mode \in {"gap", "num", "name"} /\ c \in Blanks THEN blanks + 1 ELSE blanks

Spec == Init /\ [][Next]_vars

Complete == w.at = "done" /\ mode \in {"gap", "num"}
Written == NumberDone

-----------------------------------------------------------------------------
(* The reader is never ahead of the writer, and at most one token behind it. *)
Along == /\ Len(lx.toks) <= Len(made)
         /\ Len(made) <= Len(lx.toks) + 1
         /\ \A i \in 1..Len(lx.toks) : lx.toks[i] = made[i]

(* It finds exactly what was written. *)
Found == Complete => LexEnd(text, lx).toks = Written

(* Every token can be told from its place: the tokens lie behind each other, and only blanks
   lie between them. *)
Placed == Complete =>
    LET t == Written IN
    /\ \A i \in 1..Len(t) : t[i].s <= t[i].e
    /\ \A i \in 2..Len(t) : t[i - 1].e < t[i].s
    /\ \A j \in 1..Len(text) : (\A i \in 1..Len(t) : ~(t[i].s <= j /\ j <= t[i].e)) => Ch(text, j) \in Blank

(* A text that is cut at a legal boundary is read like the whole one, and a reader that starts
   at the boundary sees at once whether it stands in an object or in an array. *)
Shift(toks, d) == [i \in 1..Len(toks) |-> [toks[i] EXCEPT !.s = @ + d, !.e = @ + d]]
Cuttable == Complete => \A b \in Boundaries(text) :
    LET right == Lex(Text(text, b + 1, Len(text)))
    IN  /\ Lex(Text(text, 1, b)) \o Shift(right, b) = Written
        /\ right[1].t \in {"k", "p"}

(* The tree that is built from the tokens covers all of them. *)
Whole == Complete => WellFormed(TreeOf(Written))

Printed == Complete => PrintT(<<"TEXT", ToJson(text)>>)
=============================================================================
