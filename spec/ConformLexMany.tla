-------------------------- MODULE ConformLexMany --------------------------
(***************************************************************************)
(* Like ConformLex, with many short texts in one case (r.docs): the events *)
(* of the real tokenizer are, text by text, the tokens that the lexical    *)
(* machine of JSONText reads, and the end of the text.                     *)
(***************************************************************************)
EXTENDS Conform, JSONText

Explains(tok, ev) ==
    /\ ev.e = "tok"
    /\ ev.t = tok.t
    /\ tok.t \in {"k", "p"} => ev.v = tok.v
    /\ tok.t \in Structural => ev.at = tok.e

(* Walks over the texts; at is the number of events that have been explained. *)
One(r, st, i) ==
    IF st.bad # 0 THEN st
    ELSE LET toks == Lex(r.docs[i])
             n == Len(toks)
         IN  IF /\ st.at + n + 1 < Len(r.ev)
                /\ \A j \in 1..n : Explains(toks[j], r.ev[st.at + j])
                /\ r.ev[st.at + n + 1].e = "eot" /\ r.ev[st.at + n + 1].t = "end of text"
             THEN [at |-> st.at + n + 1, bad |-> 0]
             ELSE [st EXCEPT !.bad = i]

Verdict(r) ==
    LET st == FoldLeft(LAMBDA a, i : One(r, a, i), [at |-> 0, bad |-> 0], Iota(Len(r.docs)))
        n == Len(r.ev)
    IN  IF st.bad = 0 /\ n = st.at + 1 /\ r.ev[n].e = "end" /\ r.ev[n].st = "ok" THEN <<>>
        ELSE IF st.bad = 0 THEN <<[text |-> "", tokens |-> <<>>]>>
        ELSE <<[text |-> r.docs[st.bad], tokens |-> Lex(r.docs[st.bad])]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
