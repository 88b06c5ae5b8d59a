---------------------------- MODULE ConformLex ----------------------------
(***************************************************************************)
(* Token sequences delivered by the real tokenizer against the lexical     *)
(* machine of JSONText: the same symbols in the same order, names and      *)
(* primitives with exactly their text, and behind every symbol of the      *)
(* structure the position directly behind it.                              *)
(***************************************************************************)
EXTENDS Conform, JSONText

Explains(tok, ev) ==
    /\ ev.e = "tok"
    /\ ev.t = tok.t
    /\ tok.t \in {"k", "p"} => ev.v = tok.v
    /\ tok.t \in Structural => ev.at = tok.e

Verdict(r) ==
    LET toks == Lex(r.doc)
        n == Len(toks)
    IN  IF /\ Len(r.ev) = n + 2
           /\ r.ev[n + 1].e = "eot" /\ r.ev[n + 1].t = "end of text"
           /\ r.ev[n + 2].e = "end" /\ r.ev[n + 2].st = "ok"
           /\ \A i \in 1..n : Explains(toks[i], r.ev[i])
        THEN <<>>
        ELSE <<[tokens |-> toks]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
