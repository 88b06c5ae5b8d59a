---------------------------- MODULE MCStreaming ----------------------------
(***************************************************************************)
(* Every text of up to MaxDocs documents, one after the other, with up to  *)
(* MaxTokens tokens over the given names and values, read by the streaming machine for every supported query of up   *)
(* to MaxSteps steps of STEPS (a file with one step per line).  When the   *)
(* document is complete, what the machine has delivered must be what the   *)
(* path selects, and it must have been delivered as soon as it was known   *)
(* (Known of System).  The documents are printed with the query, and       *)
(* replayed on the real code.                                              *)
(***************************************************************************)
EXTENDS Streaming, Writer, Json, IOUtils

CONSTANTS MaxDocs, MaxTokens, MaxDepth, MaxSteps,
          Must,       \* kinds of steps of which one must occur in the query, {} for any query
          MemberNames,\* names, without quotes
          Strings,    \* strings, without quotes
          Words       \* numbers and words

Names == {"\"" \o x \o "\":" : x \in MemberNames}
Values == {"\"" \o x \o "\"" : x \in Strings} \cup Words

Steps == ndJsonDeserialize(IOEnv.STEPS)
Query(x) == [i \in 1..Len(x) |-> Steps[x[i]]]
Numbers == UNION {[1..k -> 1..Len(Steps)] : k \in 1..MaxSteps}
Chosen == {x \in Numbers : LET y == Query(x) IN Supported(y) /\ (Must = {} \/ \E i \in 1..Len(y) : y[i].t \in Must)}

VARIABLES q,        \* the query, as numbers of steps
          doc,      \* what has been written
          n,        \* number of tokens
          docs,     \* number of documents that have been begun
          w,        \* the writer
          m,        \* the machine
          log       \* number of delivered results and of characters after each token

vars == <<q, doc, n, docs, w, m, log>>
Q == Query(q)

Init == q \in Chosen /\ doc = "" /\ n = 0 /\ docs = 1 /\ w = WriterInit /\ m = StreamInit /\ log = <<>>

TokenOf(before, x) ==
    LET s == Len(before) + 1
    IN  IF x \in Structural THEN Tok(x, s, s, x)
        ELSE IF x \in Names THEN Tok("k", s, s + Len(x) - 1, SubSeq(x, 2, Len(x) - 2))
        ELSE Tok("p", s, s + Len(x) - 1, x)

(* what has been written is continued with token x *)
Writes(before, writer, x) ==
    /\ x \in MayWrite(writer, Names, Values)
    /\ w' = Wrote(writer, x, Names)
    /\ n' = n + 1
    /\ n + 1 + ToWrite(w') <= MaxTokens
    /\ Len(w'.open) <= MaxDepth
    /\ doc' = before \o x
    /\ m' = StreamStep(Q, m, TokenOf(before, x))
    /\ log' = Append(log, <<Len(m'.f.out), Len(doc')>>)
    /\ q' = q

Write(x) == Writes(doc, w, x) /\ docs' = docs
(* another document begins on a new line *)
Another(x) == w.at = "done" /\ docs < MaxDocs /\ Writes(doc \o "\n", WriterInit, x) /\ docs' = docs + 1

Next == \E x \in Structural \cup Names \cup Values : Write(x) \/ Another(x)
Spec == Init /\ [][Next]_vars

Done == w.at = "done" /\ n > 1
Sel3 == Selected(Documents(doc), Q)

(* the text is what was meant *)
Reads1 == Done => WellFormedTexts(TreeOf(Lex(doc))) /\ Len(Documents(doc)) = docs
(* the machine selects what the path selects, in order *)
Exact == Done => m.f.out = [i \in 1..Len(Sel3) |-> <<Sel3[i][1], Sel3[i][2]>>]
(* and delivers it as soon as it is known *)
Prompt == Done => LET s == Sel3 IN \A i \in 1..Len(log) : log[i][1] = Len(SelectSeq(s, LAMBDA x : x[2] <= log[i][2] /\ x[3] <= log[i][2]))
(* only open containers are remembered *)
Small == Len(m.r.frames) = Len(w.open)

(* delivered results are never withdrawn or reordered *)
Stable == [][SubSeq(m'.f.out, 1, Len(m.f.out)) = m.f.out]_vars

Printed == Done => PrintT(<<"CASE", q, Len(m.f.out), doc>>)
=============================================================================
