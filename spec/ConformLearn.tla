--------------------------- MODULE ConformLearn ---------------------------
(***************************************************************************)
(* Learned constraint tables.  The states of the compiled automaton are    *)
(* named by the label sequences that lead to them (walk events; checked    *)
(* against QueryAutomaton by ConformDFA); the document determines in which *)
(* of these states each name, or an array, occurs.                         *)
(***************************************************************************)
EXTENDS Conform, QueryAutomaton

(* the walk of a label sequence in record r *)
WalkOf(r, w) == r.ev[1 + (CHOOSE i \in 1..Len(r.words) : r.words[i] = w)]

InBounds(ev, i) == ~ev.bounded \/ (i >= ev.lo /\ i < ev.hi)

(* An element outside of the bounds of its index is dead, but a reader that starts in it does
   not know its index yet: it occurs in both states. *)
(* occurrences <<label, state>> below node n, reached with the labels w; dead: in state 0;
   i: index of the node if it is an array element, else -1 *)
RECURSIVE Occ(_, _, _, _, _)
Occ(r, n, w, dead, i) ==
    IF n.k = "p" THEN {}
    ELSE LET ev == WalkOf(r, w)
             state == IF dead THEN 0 ELSE ev.state
             below == state = 0 \/ (i >= 0 /\ ~InBounds(ev, i))
             states == {state} \cup (IF below THEN {0} ELSE {})
             lab(c) == IF n.k = "a" THEN "[" ELSE "k" \o c.key
         IN  (IF n.k = "a" THEN {<<"[", x>> : x \in states}
              ELSE {<<"k" \o n.kids[j].key, x>> : j \in 1..Len(n.kids), x \in states})
             \cup UNION {LET c == n.kids[j]
                         IN  Occ(r, c.n, Append(w, lab(c)), below, IF n.k = "a" THEN j - 1 ELSE -1)
                         : j \in 1..Len(n.kids)}

Verdict(r) ==
    LET nw == Len(r.words)
        nl == Len(r.looks)
        look(i) == r.ev[2 + nw + i]
    IN  IF ~(/\ QueryText(r.q) = r.qt
             /\ Len(r.ev) = nw + nl + 3
             /\ r.ev[1].e = "create" /\ r.ev[1].ok
             /\ r.ev[nw + nl + 3].e = "end" /\ r.ev[nw + nl + 3].st = "ok") THEN <<"incomplete">>
        ELSE LET occ == Occ(r, Parse(r.doc), <<>>, FALSE, -1)
                 want(i) == {o[2] : o \in {x \in occ : x[1] = r.looks[i]}}
                 ok(i) == LET ev == look(i)
                          IN  /\ ev.known = (want(i) # {})
                              /\ {ev.states[j] : j \in 1..Len(ev.states)} = want(i)
                              /\ Cardinality(want(i)) = Len(ev.states)
             IN  IF \A i \in 1..nl : ok(i) THEN <<>>
                 ELSE LET i == CHOOSE i \in 1..nl : ~ok(i)
                      IN  <<[look |-> r.looks[i], want |-> want(i), got |-> look(i)]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
