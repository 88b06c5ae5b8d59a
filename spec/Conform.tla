------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Consumes recorded cases, one JSON object per line, given by the         *)
(* environment variable TRACE.  The cases are independent of each other;   *)
(* they are spread over several chains so that TLC's workers share them.   *)
(* A module that extends this one defines Verdict(r): <<>> if the case is  *)
(* explained by the specification, otherwise what the specification        *)
(* demands.  Each rejected case is printed; the run counts only if every   *)
(* case has been consumed, which AllConsumed demands at the end.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Cases)
Chains == IF NCases < 64 THEN NCases ELSE 64

VARIABLES chain, pos
cvars == <<chain, pos>>

ConformInit == chain \in 1..Chains /\ pos = 0

Index == chain + pos * Chains

Consume(Verdict(_)) ==
    /\ Index <= NCases
    /\ LET r == Cases[Index]
           v == Verdict(r)
       IN  IF v = <<>> THEN TRUE ELSE PrintT(<<"REJECT", r.id, ToJson(v)>>)
    /\ pos' = pos + 1
    /\ chain' = chain

(* one initial state per chain and one state per consumed case *)
AllConsumed == TLCGet("distinct") = Chains + NCases
=============================================================================
