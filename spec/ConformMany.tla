---------------------------- MODULE ConformMany ----------------------------
(***************************************************************************)
(* Like ConformRun for cases with one query and several small documents:   *)
(* the runs of a case go through the documents of r.docs, r.per runs for   *)
(* each of them.                                                           *)
(***************************************************************************)
EXTENDS Conform, JSONPath

IsRun(ev) == ev.e \in {"serial", "parallel", "opt"}

Judge(r) ==
    LET runs == SelectSeq(r.ev, IsRun)
        want == [i \in 1..Len(r.docs) |-> Results(r.docs[i], r.q)]
        bad == {i \in 1..Len(runs) : runs[i].out # want[(i - 1) \div r.per + 1]}
    IN  IF /\ Len(runs) = r.per * Len(r.docs)
           /\ bad = {}
           /\ \A i \in 1..Len(r.ev) : IsRun(r.ev[i]) \/ r.ev[i].e = "end" \/ r.ev[i].ok
           /\ r.ev[Len(r.ev)].e = "end" /\ r.ev[Len(r.ev)].st = "ok"
        THEN <<>>
        ELSE <<[docs |-> [i \in bad |-> <<r.docs[(i - 1) \div r.per + 1], want[(i - 1) \div r.per + 1]>>]]>>

Init == ConformInit
Next == Consume(LAMBDA r : IF QueryText(r.q) # r.qt THEN <<[want |-> QueryText(r.q)]>> ELSE Judge(r))
Spec == Init /\ [][Next]_cvars
=============================================================================
