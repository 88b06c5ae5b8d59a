-------------------------- MODULE ConformPartMany --------------------------
(***************************************************************************)
(* Partitions and bounded loads of many short texts in one case.  A text d *)
(* (r.docs) is split into every number of chunks from 1 to its length and  *)
(* one more (r.what = "split"), or loaded with every bound from 1 to its   *)
(* length and one more (r.what = "load").                                  *)
(***************************************************************************)
EXTENDS Conform, Partition

(* events of the loads: each ends with one that finds nothing *)
Groups(ev) ==
    FoldLeft(LAMBDA a, e : IF e.more THEN [a EXCEPT !.cur = Append(@, e)]
                           ELSE [done |-> Append(a.done, Append(a.cur, e)), cur |-> <<>>],
             [done |-> <<>>, cur |-> <<>>], ev)

(* texts and parameters in the order in which they were tried *)
Tried(r) == FoldLeft(LAMBDA a, d : a \o [n \in 1..Len(d) + 1 |-> [doc |-> d, n |-> n]], <<>>, r.docs)

SplitOK(t, ev) == ev.e = "split" /\ ev.n = t.n /\ ev.num = Len(ev.chunks) /\ Legal(t.doc, t.n, ev.chunks)

LoadOK(t, l) ==
    LET n == Len(l)
        pieces == [i \in 1..n - 1 |-> l[i].text]
    IN  /\ \A i \in 1..n : l[i].e = "load"
        /\ LegalPieces(t.doc, t.n, pieces)
        /\ \A i \in 1..n - 1 : l[i].pos = Offset(pieces, i + 1)

Verdict(r) ==
    LET n == Len(r.ev)
        tried == Tried(r)
        ev == Front(r.ev)
        g == Groups(ev)
        bad == IF r.what = "split"
               THEN {i \in 1..Len(tried) : ~(i <= Len(ev) /\ SplitOK(tried[i], ev[i]))}
               ELSE {i \in 1..Len(tried) : ~(i <= Len(g.done) /\ LoadOK(tried[i], g.done[i]))}
        extra == IF r.what = "split" THEN Len(ev) # Len(tried) ELSE Len(g.done) # Len(tried) \/ g.cur # <<>>
    IN  IF r.ev[n].e = "end" /\ r.ev[n].st = "ok" /\ bad = {} /\ ~extra THEN <<>>
        ELSE IF bad = {} THEN <<"more or fewer events than calls">>
        ELSE <<[case |-> tried[Min(bad)], boundaries |-> Boundaries(tried[Min(bad)].doc)]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
