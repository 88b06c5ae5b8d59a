----------------------------- MODULE MCParallel -----------------------------
(***************************************************************************)
(* Every text of up to MaxDocs documents, one after the other, with up to  *)
(* MaxTokens tokens, every query, and up to MaxCuts chunk boundaries,      *)
(* wherever the partitioner may set them: in                               *)
(* front of a member name or of a string that is an element.  The reader   *)
(* reads the document as a whole (m); one chunk after the other is read by *)
(* a worker that does not know what comes before, and is merged.  At any   *)
(* time merging must give what the reader has got.  (Merging takes the     *)
(* units one after the other; here it takes each of them as soon as it is  *)
(* complete.)                                                              *)
(* R is what constraints leave of the possible states: all of them, none,  *)
(* or all but those that lead to the selection of something, whatever they *)
(* were learned from.                                                      *)
(***************************************************************************)
EXTENDS Parallel, Writer, Json, IOUtils

CONSTANTS MaxDocs, MaxTokens, MaxDepth, MaxSteps, MaxCuts, Must, MemberNames, Strings, Words

Names == {"\"" \o x \o "\":" : x \in MemberNames}
Texts == {"\"" \o x \o "\"" : x \in Strings}
Values == Texts \cup Words

Steps == ndJsonDeserialize(IOEnv.STEPS)
Query(x) == [i \in 1..Len(x) |-> Steps[x[i]]]
Numbers == UNION {[1..k -> 1..Len(Steps)] : k \in 1..MaxSteps}
Chosen == {x \in Numbers : LET y == Query(x) IN Supported(y) /\ (Must = {} \/ \E i \in 1..Len(y) : y[i].t \in Must)}

Labels == {"["} \cup {"k" \o x : x \in MemberNames}
AllStates == [x \in Chosen |-> States(Query(x), Labels, MaxDepth)]

VARIABLES q, doc, n, docs, w,
          m,        \* the reader of the whole document
          base,     \* merged from the chunks that are complete
          wk,       \* <<the worker of the current chunk>>, <<>> in the first chunk
          full,     \* does it start with all states?
          cuts      \* the chunk boundaries

vars == <<q, doc, n, docs, w, m, base, wk, full, cuts>>
Q == Query(q)
R(f) == IF f = "all" THEN AllStates[q]
        ELSE IF f = "none" THEN {}
        ELSE {a \in AllStates[q] : a.P = {}}

Init == q \in Chosen /\ doc = "" /\ n = 0 /\ docs = 1 /\ w = WriterInit /\ m = ReaderInit /\ base = ReaderInit /\ wk = <<>> /\ full = "all" /\ cuts = <<>>

TokenOf(before, x) ==
    LET s == Len(before) + 1
    IN  IF x \in Structural THEN Tok(x, s, s, x)
        ELSE IF x \in Names THEN Tok("k", s, s + Len(x) - 1, SubSeq(x, 2, Len(x) - 2))
        ELSE Tok("p", s, s + Len(x) - 1, x)

MayCut(x) == x \in Names \/ (x \in Texts /\ w.open # <<>> /\ Inner(w) = "a")

(* what has been written is continued with token x *)
Writes(before, writer, x) ==
    /\ x \in MayWrite(writer, Names, Values)
    /\ w' = Wrote(writer, x, Names)
    /\ n' = n + 1
    /\ n + 1 + ToWrite(w') <= MaxTokens
    /\ Len(w'.open) <= MaxDepth
    /\ doc' = before \o x
    /\ m' = ReaderStep(Q, m, TokenOf(before, x))
    /\ q' = q

Merged == IF wk = <<>> THEN base ELSE Merge(Q, base, wk[1])

(* A worker that starts with all states never makes merging read a unit again, unless indexes
   are involved. *)
Chunked(before, x) ==
    /\ IF wk = <<>> THEN base' = ReaderStep(Q, base, TokenOf(before, x)) /\ wk' = wk
       ELSE LET v == WorkerStep(Q, wk[1], R(full), TokenOf(before, x))
            IN  /\ base' = FoldLeft(LAMBDA t, u : MergeUnit(Q, t, u), base, v.units)
                /\ wk' = <<[v EXCEPT !.units = <<>>]>>
                /\ (full = "all" /\ \A i \in 1..Len(Q) : ~IsIndex(Q[i])) =>
                       \A i \in 1..Len(v.units) : Assert(~Again(Q, base, v.units[i]), "a unit is read again")
    /\ UNCHANGED <<full, cuts>>

Follows(x) == Writes(doc, w, x) /\ Chunked(doc, x) /\ docs' = docs
(* another document begins on a new line *)
Another(x) == w.at = "done" /\ docs < MaxDocs /\ Writes(doc \o "\n", WriterInit, x) /\ Chunked(doc \o "\n", x) /\ docs' = docs + 1

Cuts(x) ==
    /\ Len(cuts) < MaxCuts /\ MayCut(x)
    /\ Writes(doc, w, x) /\ docs' = docs
    /\ base' = Merged
    /\ \E f \in {"all", "none", "dead"} : full' = f /\ wk' = <<WorkerStep(Q, WorkerInit(R(f)), R(f), TokenOf(doc, x))>>
    /\ cuts' = Append(cuts, Len(doc))

Next == \E x \in Structural \cup Names \cup Values : Follows(x) \/ Another(x) \/ Cuts(x)
Spec == Init /\ [][Next]_vars

(* merging gives what reading gives *)
Same == Merged = m

(* every container state that occurs is among the possible ones *)
Possible == \A i \in 1..Len(m.frames) : m.frames[i].a \in AllStates[q]

Done == w.at = "done" /\ n > 1
Printed == Done /\ cuts # <<>> /\ full = "all" => PrintT(<<"CASE", q, cuts, Len(SelectSeq(m.tup, LAMBDA t : t[1] = "r")), doc>>)
=============================================================================
