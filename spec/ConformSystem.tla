--------------------------- MODULE ConformSystem ---------------------------
(***************************************************************************)
(* Recorded histories of calls against System: every event must be the     *)
(* action of the specification that the script names, be enabled in the    *)
(* current state of the specification, and return what the specification   *)
(* returns.  One step of this machine consumes one event.                  *)
(* A case has ops (the calls made) and ev (the events, one per call, and   *)
(* one for the end of the process).                                        *)
(***************************************************************************)
EXTENDS Conform, System

VARIABLES k, sys

Bad == [bad |-> TRUE]

EventOf == [create |-> "create", free |-> "free", bound |-> "bound", serial |-> "serial", parallel |-> "parallel",
            learn |-> "learn", opt |-> "opt", open |-> "open", close |-> "close",
            feed |-> "feed", pfeed |-> "feed", ofeed |-> "feed"]
HasResults(op) == op.op \in {"serial", "parallel", "opt", "feed", "pfeed", "ofeed"}

Explains(s, op, ev) ==
    /\ ev.e = EventOf[op.op]
    /\ Can(s, op)
    /\ IF HasResults(op) THEN ev.out = Answer(s, op) ELSE ev.ok

Lines(r) == Len(r.ops) + 1

Init == ConformInit /\ k = 0 /\ sys = SysInit

Follow(r) ==
    LET i == k + 1
        last == i = Lines(r)
        there == i <= Len(r.ev)
        ok == IF last THEN there /\ r.ev[i].e = "end" /\ r.ev[i].st = "ok"
              ELSE there /\ r.ev[i].e # "end" /\ Explains(sys, r.ops[i], r.ev[i])
    IN  /\ IF sys = Bad \/ ok THEN TRUE
           ELSE PrintT(<<"REJECT", r.id, ToJson([event |-> i,
                     want |-> IF last THEN <<>> ELSE Answer(sys, r.ops[i])])>>)
        /\ IF last THEN pos' = pos + 1 /\ k' = 0 /\ sys' = SysInit
           ELSE /\ pos' = pos /\ k' = i
                /\ sys' = IF sys # Bad /\ ok THEN After(sys, r.ops[i]) ELSE Bad
        /\ chain' = chain

Next == Index <= NCases /\ Follow(Cases[Index])

Spec == Init /\ [][Next]_<<chain, pos, k, sys>>

(* one state per chain and one per consumed event *)
Consumed == TLCGet("distinct") = Chains + FoldLeft(LAMBDA a, r : a + Lines(r), 0, Cases)
=============================================================================
