----------------------------- MODULE Streaming -----------------------------
(***************************************************************************)
(* The streaming machine.  It reads the tokens of a document one by one    *)
(* and has two stages.                                                     *)
(*                                                                         *)
(* The reader keeps one frame for every open container and nothing of what *)
(* has been closed:                                                        *)
(*   k     "o" or "a"           s     where it starts                      *)
(*   a     state of the query automaton for this element                   *)
(*   hit   the element is selected by the path                             *)
(*   cnt   elements seen so far (an element is counted when it begins, so  *)
(*         that its index is cnt - 1)                                      *)
(* A container whose beginning has not been seen (Parallel) has s = 0; the *)
(* indexes of its elements are not known.                                  *)
(*   key   name of the current member                                      *)
(* It produces tuples, in the order of the document:                       *)
(*   <<"{", step, paths>>      an object begins that step filters, by an   *)
(*                             expression that reads the members at paths  *)
(*   <<"v", {<<n, path>>}, v>> a member with value v that filters read: n  *)
(*                             tells which of the open filters, path which *)
(*                             of its members                              *)
(*   <<"r", first, last>>      an element that the path selects            *)
(*   <<"}", step>>             the end of the filtered object              *)
(* The filter stage consumes the tuples.  It keeps the open filtered       *)
(* objects with what is known of their members and the results that wait   *)
(* for them, and delivers results as soon as they are known.               *)
(***************************************************************************)
EXTENDS QueryAutomaton

-----------------------------------------------------------------------------
(* The reader *)
Frame(k, s, a, hit) == [k |-> k, s |-> s, a |-> a, hit |-> hit, cnt |-> 0, key |-> ""]
ReaderInit == [frames |-> <<>>, tup |-> <<>>]

Unknown == -1
Index(f) == IF f.s = 0 THEN Unknown ELSE f.cnt - 1

(* The automaton state of an element that is reached from parent state a with label l, as
   element number i, and is a container of kind k (or "p") *)
Reach(q, a, l, i, k) ==
    LET b == Step(q, a, l)
    IN  [b EXCEPT !.P = {j \in @ : /\ (j = b.n /\ j > 0 /\ IsIndex(q[j]) /\ i # Unknown) => InRange(q[j], i)
                                   /\ Filtered(q, j, b.n) => k = "o"}]

Top(s) == Last(s.frames)

(* state for the element that begins now *)
Child(q, s, k) ==
    IF s.frames = <<>> THEN Start(q)
    ELSE Reach(q, Top(s).a, IF Top(s).k = "a" THEN "[" ELSE "k" \o Top(s).key, Index(Top(s)), k)

Begin(s) == IF s.frames # <<>> /\ Top(s).k = "a" THEN [s EXCEPT !.frames[Len(s.frames)].cnt = @ + 1] ELSE s

FilterStep(q, a) == LET f == {j \in a.P : Filtered(q, j, a.n)} IN IF f = {} THEN 0 ELSE CHOOSE j \in f : TRUE

Tuple(s, t) == [s EXCEPT !.tup = Append(@, t)]

(* an element with automaton state a has ended and has the given value *)
Learn(q, s, a, v) == IF Reads(q, a) = {} THEN s ELSE Tuple(s, <<"v", Reads(q, a), v>>)

OpenFrame(q, s0, tok, k) ==
    LET s == Begin(s0)
        a == Child(q, s, k)
        f == FilterStep(q, a)
        t == [s EXCEPT !.frames = Append(@, Frame(k, tok.s, a, IsOutput(q, a)))]
    IN  IF f = 0 THEN t ELSE Tuple(t, <<"{", f, a.n>>)

CloseFrame(q, s, tok) ==
    LET f == Top(s)
        s1 == Learn(q, [s EXCEPT !.frames = Front(@)], f.a, Bool(TRUE))
        s2 == IF f.hit THEN Tuple(s1, <<"r", f.s, tok.e>>) ELSE s1
        k == FilterStep(q, f.a)
    IN  IF k = 0 THEN s2 ELSE Tuple(s2, <<"}", k>>)

Primitive(q, s0, tok) ==
    LET s == Begin(s0)
        a == Child(q, s, "p")
        s1 == Learn(q, s, a, ValueOf([k |-> "p", v |-> tok.v]))
    IN  IF IsOutput(q, a) THEN Tuple(s1, <<"r", tok.s, tok.e>>) ELSE s1

ReaderStep(q, s, tok) ==
    CASE tok.t = "{" -> OpenFrame(q, s, tok, "o")
      [] tok.t = "[" -> OpenFrame(q, s, tok, "a")
      [] tok.t \in {"}", "]"} -> CloseFrame(q, s, tok)
      [] tok.t = "k" -> [s EXCEPT !.frames[Len(s.frames)].key = tok.v]
      [] tok.t = "p" -> Primitive(q, s, tok)
      [] OTHER -> s

ReadAll(q, s, toks) == FoldLeft(LAMBDA x, t : ReaderStep(q, x, t), s, toks)

-----------------------------------------------------------------------------
(* The filter stage *)
FilterInit == [open |-> <<>>, out |-> <<>>]

(* results go to the innermost open filtered object, or out *)
Release(f, r) == IF f.open = <<>> THEN [f EXCEPT !.out = @ \o r]
                 ELSE [f EXCEPT !.open[Len(f.open)].wait = @ \o r]

Consider(q, f, t) ==
    CASE t[1] = "{" -> [f EXCEPT !.open = Append(@, [n |-> t[3], env |-> [p \in VarsOf(q[t[2]].e) |-> Null], wait |-> <<>>])]
      [] t[1] = "v" -> [f EXCEPT !.open = [d \in DOMAIN @ |->
                            [@[d] EXCEPT !.env = [p \in DOMAIN @ |->
                                IF <<f.open[d].n, FoldLeft(Join, "", p)>> \in t[2] THEN t[3] ELSE @[p]]]]]
      [] t[1] = "r" -> Release(f, <<<<t[2], t[3]>>>>)
      [] OTHER      -> LET top == Last(f.open)
                           g == [f EXCEPT !.open = Front(@)]
                       IN  IF Truth(EvalExpr(q[t[2]].e, top.env)) THEN Release(g, top.wait) ELSE g

-----------------------------------------------------------------------------
StreamInit == [r |-> ReaderInit, f |-> FilterInit]

(* tuples are consumed at once *)
StreamStep(q, m, tok) ==
    LET r == ReaderStep(q, m.r, tok)
    IN  [r |-> [r EXCEPT !.tup = <<>>], f |-> FoldLeft(LAMBDA g, t : Consider(q, g, t), m.f, r.tup)]

Stream(q, toks) == FoldLeft(LAMBDA m, t : StreamStep(q, m, t), StreamInit, toks)
=============================================================================
