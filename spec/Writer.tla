------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* The environment: something that writes a well-formed document token by  *)
(* token.  A token is the text it is written with; names are written with  *)
(* their colon.                                                            *)
(*   open  the open containers, "o" or "a"                                 *)
(*   at    what comes next: "value", "name" (after a comma), "first" (the  *)
(*         first member or the end of the container), "more" (a comma or   *)
(*         the end of it), "done"                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

WriterInit == [open |-> <<>>, at |-> "value"]

Inner(w) == Last(w.open)
Closer(w) == IF Inner(w) = "o" THEN "}" ELSE "]"
AfterValue(w) == [w EXCEPT !.at = IF w.open = <<>> THEN "done" ELSE "more"]

(* the tokens that may be written next *)
MayWrite(w, Names, Values) ==
    LET value == Values \cup {"{", "["}
    IN  CASE w.at = "value" -> value
          [] w.at = "name"  -> Names
          [] w.at = "first" -> {Closer(w)} \cup (IF Inner(w) = "o" THEN Names ELSE value)
          [] w.at = "more"  -> {Closer(w), ","}
          [] OTHER -> {}

Wrote(w, x, Names) ==
    CASE x = "{" -> [open |-> Append(w.open, "o"), at |-> "first"]
      [] x = "[" -> [open |-> Append(w.open, "a"), at |-> "first"]
      [] x \in {"}", "]"} -> AfterValue([w EXCEPT !.open = Front(@)])
      [] x = "," -> [w EXCEPT !.at = IF Inner(w) = "o" THEN "name" ELSE "value"]
      [] x \in Names -> [w EXCEPT !.at = "value"]
      [] OTHER -> AfterValue(w)

(* tokens that are needed at least to complete the document *)
ToWrite(w) == Len(w.open) + (CASE w.at = "value" -> 1 [] w.at = "name" -> 2 [] OTHER -> 0)
=============================================================================
