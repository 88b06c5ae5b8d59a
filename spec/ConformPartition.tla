------------------------- MODULE ConformPartition -------------------------
(***************************************************************************)
(* Recorded partitions and bounded loads of the real code.                 *)
(***************************************************************************)
EXTENDS Conform, Partition

SplitOK(doc, ev) == ev.num = Len(ev.chunks) /\ Legal(doc, ev.n, ev.chunks)

(* loads are events of a history: the position after each load is the amount of text
   delivered so far, and the last load finds nothing *)
Loads(r) == SelectSeq(r.ev, LAMBDA ev : ev.e = "load")
LoadsOK(r) ==
    LET l == Loads(r)
        n == Len(l)
        pieces == [i \in 1..n - 1 |-> l[i].text]
    IN  n = 0 \/ (/\ ~l[n].more
                  /\ \A i \in 1..n - 1 : l[i].more
                  /\ LegalPieces(r.doc, r.bound, pieces)
                  /\ \A i \in 1..n - 1 : l[i].pos = Offset(pieces, i + 1))

Verdict(r) ==
    LET n == Len(r.ev)
    IN  IF /\ r.ev[n].e = "end" /\ r.ev[n].st = "ok"
           /\ Cardinality({i \in 1..n : r.ev[i].e = "split"}) = r.splits
           /\ (r.bound > 0 => Loads(r) # <<>>)
           /\ \A i \in 1..n : r.ev[i].e = "split" => SplitOK(r.doc, r.ev[i])
           /\ LoadsOK(r)
        THEN <<>>
        ELSE <<[boundaries |-> Boundaries(r.doc)]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
