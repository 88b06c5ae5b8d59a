----------------------------- MODULE MCThreads -----------------------------
(***************************************************************************)
(* All schedules of a parallel run with a given number of workers.  The    *)
(* running thread may lose control at control points: behind a creation,   *)
(* in front of each of its first Points + 1 tokens, when it ends, and when the *)
(* main thread waits.  sched is the list of decisions made there, which is *)
(* replayed on the real code; trace is what happens, unit[t] counts what   *)
(* worker t has found, read what the main thread gets when it merges.      *)
(***************************************************************************)
EXTENDS Threads, Json

CONSTANTS Workers, Points

VARIABLES w, unit, at, sched, read
vars == <<w, unit, at, sched, read>>

Init == w = ThreadsInit /\ unit = [t \in 1..Workers |-> 0] /\ at = "point" /\ sched = <<>> /\ read = <<>>

Unjoined == {t \in 1..Len(w) : w[t] # "joined"}
First == CHOOSE t \in Unjoined : \A u \in Unjoined : t <= u

(* the main thread: creates a worker, or waits for the workers in order *)
Creates == Len(w) < Workers /\ w' = Next1(w, <<"c", Len(w) + 1>>) /\ UNCHANGED <<unit, read, at>>
RECURSIVE JoinAll(_, _)
JoinAll(v, t) == IF t > Workers \/ v[t] # "finished" THEN v ELSE JoinAll(Next1(v, <<"j", t>>), t + 1)
Joins == /\ Len(w) = Workers /\ Unjoined # {} /\ w[First] = "finished"
         /\ w' = JoinAll(w, First)
         /\ IF AllJoined(w') THEN at' = "done" /\ read' = unit ELSE UNCHANGED <<read, at>>
         /\ UNCHANGED unit

(* a worker: begins, reads tokens, ends *)
Begins(t) == w[t] = "created" /\ w' = Next1(w, <<"b", t>>) /\ UNCHANGED <<unit, read, at>>
Reads(t) == w[t] = "running" /\ unit[t] < Points /\ unit' = [unit EXCEPT ![t] = @ + 1] /\ UNCHANGED <<w, read, at>>
Ends(t) == w[t] = "running" /\ unit[t] = Points /\ w' = Next1(w, <<"f", t>>) /\ UNCHANGED <<unit, read, at>>

Runs(t) == IF t = 0 THEN Creates \/ Joins ELSE t <= Len(w) /\ (Begins(t) \/ Reads(t) \/ Ends(t))

Next == at = "point" /\ \E t \in 0..Workers : Runs(t) /\ sched' = Append(sched, t)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* merging happens behind all workers, and sees all they have found *)
MergeLast == at = "done" => AllJoined(w) /\ read = [t \in 1..Workers |-> Points]
(* a run always ends *)
Ends_ == <>(at = "done")
(* nobody is stuck before *)
NotStuck == at = "point" => \E t \in 0..Workers : ENABLED Runs(t)

Printed == at = "done" => PrintT(<<"SCHEDULE", ToJson(sched)>>)
=============================================================================
