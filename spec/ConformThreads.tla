-------------------------- MODULE ConformThreads --------------------------
(***************************************************************************)
(* Scheduled parallel runs of the real code.  A case is a document, a      *)
(* query and the events of runs under forced schedules.  What each run     *)
(* returns must be what the path selects whatever the schedule, the        *)
(* recorded life of the threads must be a behaviour of Threads that ends   *)
(* with all workers joined, and no thread may have touched what another    *)
(* one wrote without being ordered by creation or join.                    *)
(***************************************************************************)
EXTENDS Conform, JSONPath, Threads

IsRun(ev) == ev.e \in {"serial", "parallel", "opt"}

Legal(trace) ==
    LET r == FoldLeft(LAMBDA a, ev : IF a.ok /\ May(a.w, ev) THEN [ok |-> TRUE, w |-> Next1(a.w, ev)] ELSE [a EXCEPT !.ok = FALSE],
                      [ok |-> TRUE, w |-> ThreadsInit], trace)
    IN  r.ok /\ AllJoined(r.w)

Judge(r) ==
    LET want == Results(r.doc, r.q)
        bad(ev) == CASE IsRun(ev) -> ev.out # want
                     [] ev.e = "trace" -> ev.conflicts # 0 \/ ~Legal(ev.trace)
                     [] ev.e = "end" -> ev.st # "ok"
                     [] OTHER -> ~ev.ok
        n == Cardinality({i \in 1..Len(r.ev) : IsRun(r.ev[i])})
        t == Cardinality({i \in 1..Len(r.ev) : r.ev[i].e = "trace"})
    IN  IF n = r.runs /\ t = r.runs /\ r.ev[Len(r.ev)].e = "end" /\ \A i \in 1..Len(r.ev) : ~bad(r.ev[i])
        THEN <<>>
        ELSE <<[want |-> want]>>

Init == ConformInit
Next == Consume(LAMBDA r : IF QueryText(r.q) # r.qt THEN <<[want |-> QueryText(r.q)]>> ELSE Judge(r))
Spec == Init /\ [][Next]_cvars
=============================================================================
