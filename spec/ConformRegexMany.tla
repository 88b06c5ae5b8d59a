------------------------- MODULE ConformRegexMany -------------------------
(***************************************************************************)
(* Like ConformRegex for many lists of expressions in one case (r.lists),  *)
(* which all read the same words (r.words).                                *)
(***************************************************************************)
EXTENDS Conform, Regex

(* steps[i + 1] is what the library said after i characters: -1 if it is dead, else the matching
   expression *)
RECURSIVE Run(_, _, _, _)
Run(S, w, steps, i) ==
    /\ i > 1 => steps[i] = (IF Dead(S) THEN -1 ELSE Stop(S))      \* tokens are never empty
    /\ i <= Len(w) /\ ~Dead(S) => Run(After(S, w[i]), w, steps, i + 1)

DeadStays(steps) == \A i \in 2..Len(steps) : steps[i - 1] = -1 => steps[i] = -1

ListOK(r, i) ==
    /\ i < Len(r.ev)
    /\ r.ev[i].e = "walks"
    /\ LET walks == r.ev[i].w
           begin == Begin(r.lists[i])
       IN  /\ Len(walks) = Len(r.words)
           /\ \A j \in 1..Len(walks) : /\ Len(walks[j]) = Len(r.words[j]) + 1
                                       /\ DeadStays(walks[j])
                                       /\ Run(begin, r.words[j], walks[j], 1)

Verdict(r) ==
    LET n == Len(r.lists)
        bad == {i \in 1..n : ~ListOK(r, i)}
    IN  IF bad = {} /\ Len(r.ev) = n + 1 /\ r.ev[n + 1].e = "end" /\ r.ev[n + 1].st = "ok" THEN <<>>
        ELSE <<[lists |-> [i \in bad |-> r.lists[i]]]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
