--------------------------- MODULE ConformRegex ---------------------------
(* Walks through automata built by the real regular expression library. *)
EXTENDS Conform, Regex

RECURSIVE Run(_, _, _, _)
(* the steps recorded from number i on are those of the residuals S *)
Run(S, w, steps, i) ==
    /\ steps[i].dead = Dead(S)
    /\ i > 1 => steps[i].stop = Stop(S)      \* tokens are never empty
    /\ i <= Len(w) => Run(After(S, w[i]), w, steps, i + 1)

Verdict(r) ==
    LET n == Len(r.words)
    IN  IF /\ Len(r.ev) = n + 1
           /\ r.ev[n + 1].e = "end" /\ r.ev[n + 1].st = "ok"
           /\ \A i \in 1..n : /\ r.ev[i].e = "walk"
                              /\ Len(r.ev[i].steps) = Len(r.words[i]) + 1
                              /\ Run(Begin(r.list), r.words[i], r.ev[i].steps, 1)
        THEN <<>>
        ELSE LET bad == {i \in 1..n : i <= Len(r.ev) /\ r.ev[i].e = "walk" /\ (Len(r.ev[i].steps) # Len(r.words[i]) + 1 \/ ~Run(Begin(r.list), r.words[i], r.ev[i].steps, 1))}
             IN  <<[words |-> {r.words[i] : i \in bad}]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
