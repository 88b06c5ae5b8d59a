---------------------------- MODULE ConformRun ----------------------------
(***************************************************************************)
(* Complete runs of the real code against the path semantics.  A case is a *)
(* document, a query (its steps and its text) and the events of the calls  *)
(* that were made with them: serial runs, parallel runs with any number of *)
(* cores and runs with learned constraints.  Every run must return exactly *)
(* the texts of the selected elements, and the process must end normally.  *)
(***************************************************************************)
EXTENDS Conform, JSONPath

IsRun(ev) == ev.e \in {"serial", "parallel", "opt"}

Judge(r) ==
    LET want == Results(r.doc, r.q)
        bad(ev) == CASE IsRun(ev) -> ev.out # want
                     [] ev.e = "end" -> ev.st # "ok"
                     [] OTHER -> ~ev.ok
        n == Cardinality({i \in 1..Len(r.ev) : IsRun(r.ev[i])})
    IN  IF n = r.runs /\ r.ev[Len(r.ev)].e = "end" /\ \A i \in 1..Len(r.ev) : ~bad(r.ev[i])
        THEN <<>>
        ELSE <<[want |-> want]>>

Init == ConformInit
Next == Consume(LAMBDA r : IF QueryText(r.q) # r.qt THEN <<[want |-> QueryText(r.q)]>> ELSE Judge(r))
Spec == Init /\ [][Next]_cvars
=============================================================================
