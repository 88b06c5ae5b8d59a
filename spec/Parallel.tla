------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* Reading a chunk that begins somewhere in a document.                    *)
(*                                                                         *)
(* A worker begins in front of a member name or an element of an array.    *)
(* It knows neither the containers around that place nor the states of     *)
(* the query automaton there, so it runs the reader for every state that   *)
(* is possible.  The chunk falls into units: the brackets that close       *)
(* containers which were open before, and the tokens up to the next one    *)
(* of these.                                                               *)
(*   closers  the closing brackets in front of the unit                    *)
(*   body     its other tokens                                             *)
(*   runs     for each possible state of the container around the unit     *)
(*            (see Streaming), the reader's frames and tuples              *)
(*   depth    open containers that the worker has seen begin               *)
(* Merging takes units one after the other: the brackets are applied, the  *)
(* run that begins with the true state is continued from, or, if there is  *)
(* no such run, or if it has taken elements whose index is out of range,   *)
(* the tokens are read again.                                              *)
(***************************************************************************)
EXTENDS Streaming

Closing(tok) == tok.t \in {"}", "]"}
Opening(tok) == tok.t \in {"{", "["}

NewUnit(R) == [closers |-> <<>>, body |-> <<>>, depth |-> 0,
               runs |-> [r \in R |-> [frames |-> <<Frame("", 0, r, FALSE)>>, tup |-> <<>>]]]
WorkerInit(R) == [units |-> <<>>, u |-> NewUnit(R)]

(* the kind of the container around the unit is that of the first token *)
Entered(u, tok) ==
    IF u.body # <<>> THEN u
    ELSE [u EXCEPT !.runs = [r \in DOMAIN @ |-> [@[r] EXCEPT !.frames[1].k = IF tok.t = "k" THEN "o" ELSE "a"]]]

WorkerStep(q, w, R, tok) ==
    IF Closing(tok) /\ w.u.depth = 0
    THEN IF w.u.body = <<>> THEN [w EXCEPT !.u.closers = Append(@, tok)]
         ELSE [units |-> Append(w.units, w.u), u |-> [NewUnit(R) EXCEPT !.closers = <<tok>>]]
    ELSE IF tok.t = "," THEN w
    ELSE LET v == Entered(w.u, tok)
         IN  [w EXCEPT !.u = [v EXCEPT !.body = Append(@, tok),
                                       !.depth = @ + (IF Opening(tok) THEN 1 ELSE IF Closing(tok) THEN -1 ELSE 0),
                                       !.runs = [r \in DOMAIN @ |-> ReaderStep(q, @[r], tok)]]]

-----------------------------------------------------------------------------
(* all elements that the run has seen at its root are within the bounds of the step that takes them *)
Fits(q, top, run) ==
    LET f == run.frames[1]
        b == Step(q, top.a, "[")
        st == {q[j] : j \in {i \in b.P : i > 0 /\ i = b.n /\ IsIndex(q[i])}}
    IN  f.k = "a" => \A x \in st, i \in top.cnt .. top.cnt + f.cnt - 1 : InRange(x, i)

Continue(s, run) ==
    LET f == run.frames[1]
    IN  [frames |-> Append(Front(s.frames), [Top(s) EXCEPT !.cnt = @ + f.cnt, !.key = IF f.k = "o" THEN f.key ELSE @]) \o Tail(run.frames),
         tup |-> s.tup \o run.tup]

(* behind the end of a document the next one is read from its beginning *)
MergeUnit(q, s0, u) ==
    LET s == ReadAll(q, s0, u.closers)
    IN  IF u.body = <<>> THEN s
        ELSE IF s.frames = <<>> THEN ReadAll(q, s, u.body)
        ELSE IF Top(s).a \in DOMAIN u.runs /\ Fits(q, Top(s), u.runs[Top(s).a])
        THEN Continue(s, u.runs[Top(s).a])
        ELSE ReadAll(q, s, u.body)

Merge(q, s, w) == MergeUnit(q, FoldLeft(LAMBDA t, u : MergeUnit(q, t, u), s, w.units), w.u)

(* Units whose merging reads the tokens again *)
Again(q, s0, u) ==
    LET s == ReadAll(q, s0, u.closers)
    IN  u.body # <<>> /\ s.frames # <<>> /\ ~(Top(s).a \in DOMAIN u.runs /\ Fits(q, Top(s), u.runs[Top(s).a]))

(* The states that containers can have whose depth is at most d *)
RECURSIVE States(_, _, _)
States(q, labels, d) ==
    IF d = 0 THEN {Start(q)}
    ELSE LET S == States(q, labels, d - 1)
         IN  S \cup {Reach(q, x[1], x[2], x[3], x[4]) : x \in S \X labels \X (0..2) \X {"o", "a"}}
=============================================================================
