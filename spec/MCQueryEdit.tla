---------------------------- MODULE MCQueryEdit ----------------------------
(***************************************************************************)
(* Texts beside the syntax: every query text of up to MaxSymbols symbols   *)
(* with one edit - a symbol left out, put in, exchanged for another one,   *)
(* or two neighbours swapped.  Some are queries again, most are not.  Each *)
(* text is printed; the real parser has to refuse those that are not       *)
(* sentences (ConformRefusal).                                             *)
(***************************************************************************)
EXTENDS MCQueryText

CONSTANT Other      \* symbols that only edits bring in

Spell(x) == IF x.t = "str" THEN "'" \o x.v \o "'" ELSE x.v
Spaced(xs) == FoldLeft(LAMBDA a, x : a \o (IF a = "" THEN "" ELSE " ") \o Spell(x), "", xs)

Edits(xs) ==
    LET n == Len(xs)
        any == {SymOf(a) : a \in Alphabet \cup Other}
    IN  {RemoveAt(xs, i) : i \in 1..n}
        \cup {ReplaceAt(xs, i, x) : i \in 1..n, x \in any}
        \cup {InsertAt(xs, i, x) : i \in 1..n + 1, x \in any}
        \cup {[xs EXCEPT ![i] = xs[i + 1], ![i + 1] = xs[i]] : i \in 1..n - 1}

Edited == [mode |-> "edited", extra |-> FALSE]

Edit ==
    /\ Complete(st)
    /\ \E xs \in Edits(syms) :
          /\ syms' = xs
          /\ text' = Spaced(xs)
          /\ PrintT(<<"QUERY", text'>>)
    /\ st' = Edited

NextEdit == (st.mode # "edited" /\ Next) \/ Edit
SpecEdit == Init /\ [][NextEdit]_vars

(* what the text says is what its symbols say, and no text is both refused and a query *)
SameReading == st = Edited => Scan(text) = syms /\ (IsQuery(text) => IsSentence(text))
(* a text whose beginning is refused is refused *)
Lasting == st = Edited => \A i \in 1..Len(syms) : Parse(SubSeq(syms, 1, i)) = Broken => Parse(syms) = Broken
=============================================================================
