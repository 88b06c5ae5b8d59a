--------------------------- MODULE ConformParser ---------------------------
(* Recorded syntax trees of the real parser: r.texts, one event per text. *)
EXTENDS Conform, QueryParser

Verdict(r) ==
    LET n == Len(r.texts)
        bad == {i \in 1..n : ~IsQuery(r.texts[i]) \/ r.ev[i].e # "ast" \/ r.ev[i].tree # TreeOfQuery(r.texts[i])}
    IN  IF Len(r.ev) # n + 1 \/ r.ev[n + 1].st # "ok" THEN <<"incomplete">>
        ELSE IF bad = {} THEN <<>>
        ELSE LET i == CHOOSE i \in bad : TRUE
             IN  <<[text |-> r.texts[i], isquery |-> IsQuery(r.texts[i]), want |-> TreeOfQuery(r.texts[i])]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
