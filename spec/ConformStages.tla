--------------------------- MODULE ConformStages ---------------------------
(***************************************************************************)
(* The stages of a run, called one by one, against the path semantics:     *)
(* building the automaton (from a query text or from its syntax tree),     *)
(* loading, running the serial automaton, learning with it, splitting or   *)
(* cutting anywhere a chunk may begin, running the parallel automata, and  *)
(* filtering the tuples.                                                   *)
(* A case is a text (r.doc) with a query, the cuts that were made (r.cuts, *)
(* which must be legal ones), and the events.  The tuples of a query       *)
(* without filters are the results already.  An automaton that has read    *)
(* the text twice ("again") has the results twice.                         *)
(***************************************************************************)
EXTENDS Conform, JSONPath, Partition

IsRun(ev) == ev.e \in {"serial", "parallel", "opt", "again"}

Judge(r) ==
    LET once == Results(r.doc, r.q)
        want(ev) == IF ev.e = "again" THEN once \o once ELSE once
        plain == \A i \in 1..Len(r.q) : r.q[i].t # "?"
        bad(ev) == CASE IsRun(ev) -> ev.out # want(ev) \/ (plain /\ ev.tuples # want(ev))
                     [] ev.e = "end" -> ev.st # "ok"
                     [] OTHER -> ~ev.ok
        legal == LET b == Boundaries(r.doc) IN \A i \in 1..Len(r.cuts) : \A k \in 1..Len(r.cuts[i]) : r.cuts[i][k] \in b
        n == Cardinality({i \in 1..Len(r.ev) : IsRun(r.ev[i])})
    IN  IF ~legal THEN <<[want |-> "cuts in front of string tokens"]>>
        ELSE IF n = r.runs /\ r.ev[Len(r.ev)].e = "end" /\ \A i \in 1..Len(r.ev) : ~bad(r.ev[i])
        THEN <<>>
        ELSE <<[want |-> once]>>

Init == ConformInit
Next == Consume(LAMBDA r : IF QueryText(r.q) # r.qt THEN <<[want |-> QueryText(r.q)]>> ELSE Judge(r))
Spec == Init /\ [][Next]_cvars
=============================================================================
