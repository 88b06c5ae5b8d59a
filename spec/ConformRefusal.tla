--------------------------- MODULE ConformRefusal ---------------------------
(***************************************************************************)
(* What the real code did with texts, one event per text: ev.code is 0 if  *)
(* the parser returned ev.tree, ev.said tells whether anything was printed *)
(* and ev.made whether an automaton was made of a refused text.        *)
(***************************************************************************)
EXTENDS Conform, QueryParser

Refuses(ev) == ev.code > 0 /\ ev.said /\ ~ev.made
Reads(ev, t) == ev.code = 0 /\ ev.tree = TreeOfQuery(t)

Explains(t, ev) ==
    LET c == Scanned(t)
        s == Parse(c.toks)
    IN  /\ ev.e = "text"
        /\ IF ~Complete(s) THEN Refuses(ev)
           ELSE IF s.extra THEN ev.code >= 0                \* undocumented: anything but a crash
           ELSE IF c.unknown > 0 THEN Refuses(ev) \/ (Reads(ev, t) /\ ev.said)
           ELSE Reads(ev, t)

Verdict(r) ==
    LET n == Len(r.texts)
        bad == {i \in 1..n : ~Explains(r.texts[i], r.ev[i])}
    IN  IF Len(r.ev) # n + 1 \/ r.ev[n + 1].st # "ok" THEN <<"incomplete">>
        ELSE IF bad = {} THEN <<>>
        ELSE LET i == CHOOSE i \in bad : TRUE
             IN  <<[text |-> r.texts[i], got |-> r.ev[i], sentence |-> IsSentence(r.texts[i])]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
