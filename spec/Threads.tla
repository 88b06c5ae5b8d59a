------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* The threads of a parallel run.  The main thread creates one worker per  *)
(* chunk and waits for all of them before it merges what they found.       *)
(*   w[t]   the life of worker t: created, running, finished, joined       *)
(* Events are <<"c", t>> created, <<"b", t>> begins, <<"t", t>> reads a    *)
(* token, <<"f", t>> finished, <<"j", t>> joined.  Thread 0 is the main    *)
(* thread.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

ThreadsInit == <<>>

May(w, ev) ==
    LET k == ev[1]
        t == ev[2]
        is(x) == t \in 1..Len(w) /\ w[t] = x
    IN  CASE k = "c" -> t = Len(w) + 1
          [] k = "b" -> is("created")
          [] k = "t" -> t = 0 \/ is("running")
          [] k = "f" -> is("running")
          [] k = "j" -> is("finished")
          [] OTHER -> FALSE

Next1(w, ev) ==
    LET k == ev[1]
        t == ev[2]
    IN  CASE k = "c" -> Append(w, "created")
          [] k = "b" -> [w EXCEPT ![t] = "running"]
          [] k = "f" -> [w EXCEPT ![t] = "finished"]
          [] k = "j" -> [w EXCEPT ![t] = "joined"]
          [] OTHER -> w

AllJoined(w) == \A t \in 1..Len(w) : w[t] = "joined"
=============================================================================
