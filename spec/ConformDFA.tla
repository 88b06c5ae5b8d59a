---------------------------- MODULE ConformDFA ----------------------------
(***************************************************************************)
(* Walks through the compiled automata of the real code: role, bounds and  *)
(* conditions of the state that every label sequence leads to.             *)
(***************************************************************************)
EXTENDS Conform, QueryAutomaton

Empty(b) == b[1] >= b[2]
(* [0:] and [:n] may be stored with any lower bound that admits the same indexes *)
SameBound(b, ev) ==
    /\ ev.bounded
    /\ IF Empty(b) THEN ev.lo >= ev.hi
       ELSE ev.lo = b[1] /\ ev.hi = b[2]
NoBound(ev) == ~ev.bounded \/ (ev.lo = 0 /\ ev.hi = NoHi)

(* Positions are kept exactly; a state that can neither be left nor selects anything is dead *)
Explains(q, w, ev) ==
    LET a == Walk(q, w)
    IN  /\ ev.e = "walk"
        /\ (ev.state = 0) = IsDead(q, a)
        /\ ev.output = IsOutput(q, a)
        /\ ev.filter = IsFilter(q, a)
        /\ {<<ev.reads[i].at, ev.reads[i].name>> : i \in 1..Len(ev.reads)} = Reads(q, a)
        /\ LET b == Bounds(q, a) \ {<<0, NoHi>>}
           IN  IF b = {} THEN NoBound(ev) ELSE \A x \in b : SameBound(x, ev)

Verdict(r) ==
    LET n == Len(r.words)
        bad == {i \in 1..n : ~Explains(r.q, r.words[i], r.ev[i + 1])}
    IN  IF ~(/\ QueryText(r.q) = r.qt
             /\ Len(r.ev) = n + 2
             /\ r.ev[1].e = "create" /\ r.ev[1].ok
             /\ r.ev[n + 2].e = "end" /\ r.ev[n + 2].st = "ok") THEN <<"incomplete">>
        ELSE IF bad = {} THEN <<>>
        ELSE LET i == CHOOSE i \in bad : TRUE
             IN  <<[word |-> r.words[i], got |-> r.ev[i + 1], want |-> Walk(r.q, r.words[i])]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
