----------------------------- MODULE MCAutomaton -----------------------------
(***************************************************************************)
(* The automata of all supported queries of at most MaxSteps steps of      *)
(* STEPS (a file with one step per line), along every sequence of at most  *)
(* MaxLabels labels: what QueryAutomaton says about the state that is      *)
(* reached is compared with what the steps mean.  The queries are replayed *)
(* on the code, with all label sequences.                                  *)
(***************************************************************************)
EXTENDS QueryAutomaton, Json, IOUtils

CONSTANTS MaxSteps, MaxLabels, Labels

Steps == ndJsonDeserialize(IOEnv.STEPS)
Query(x) == [i \in 1..Len(x) |-> Steps[x[i]]]
Numbers == UNION {[1..k -> 1..Len(Steps)] : k \in 1..MaxSteps}

VARIABLES num,  \* the query, as numbers of steps
          w,    \* the labels so far
          a     \* the automaton
vars == <<num, w, a>>

q == Query(num)

Init == num \in {x \in Numbers : Supported(Query(x))} /\ w = <<>> /\ a = Start(q)
Next == Len(w) < MaxLabels /\ \E l \in Labels : w' = Append(w, l) /\ a' = Step(q, a, l) /\ UNCHANGED num
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The steps i, i + 1, ... can take the labels of x from j on, so that the last step takes the
   last label; only a descendant step may leave out labels. *)
RECURSIVE Takes_(_, _, _)
Takes_(i, x, j) ==
    IF i > Len(q) THEN j > Len(x)
    ELSE \E k \in j..Len(x) :
            /\ k > j => Descends(q[i])
            /\ Matches(q[i], x[k])
            /\ (i > 1 /\ q[i - 1].t = "?") => x[j] # "["   \* what is filtered is an object
            /\ Takes_(i + 1, x, k + 1)

Selects(x) == Takes_(1, x, 1)

(* the filters that apply to what x leads to: the steps up to the filter take all of x *)
RECURSIVE Upto(_, _, _)
Upto(n, x, j) == IF n = 0 \/ j = 0 THEN n = j
                 ELSE /\ Matches(q[n], x[j]) /\ ~Descends(q[n])
                      /\ (n > 1 /\ q[n - 1].t = "?") => x[j] # "["
                      /\ Upto(n - 1, x, j - 1)
FilterAt(x) == Len(x) > 0 /\ Len(x) <= Len(q) /\ q[Len(x)].t = "?" /\ Upto(Len(x), x, Len(x))
               /\ \A i \in 1..Len(x) : ~Descends(q[i])

Path(p) == [i \in 1..Len(p) |-> "k" \o p[i]]
Dotted(p) == FoldLeft(LAMBDA s, k : IF s = "" THEN k ELSE s \o "." \o k, "", p)
ReadsOf(x) == UNION {LET f == SubSeq(x, 1, n) IN
                        IF ~FilterAt(f) THEN {}
                        ELSE {<<n, Dotted(p)>> : p \in {v \in VarsOf(q[n].e) : Path(v) = SubSeq(x, n + 1, Len(x))}}
                     : n \in 1..Len(x)}

(* The automaton is what the steps mean. *)
Output == IsOutput(q, a) = Selects(w)
Filter == IsFilter(q, a) = FilterAt(w)
Reading_ == Reads(q, a) = ReadsOf(w)
Function == a = Walk(q, w)

(* It is dead if nothing can be selected or read any more, and only then. *)
Continuations == UNION {[1..k -> Labels] : k \in 0..MaxSteps + 1}
Dead == IsDead(q, a) = ~\E v \in Continuations : Selects(w \o v) \/ ReadsOf(w \o v) # {}
Stays == [][IsDead(q, a) => IsDead(q, a')]_vars

(* Bounds belong to array elements. *)
Bounded == Bounds(q, a) # {} => w # <<>> /\ Last(w) = "["

Printed == w = <<>> => PrintT(<<"QUERY", ToJson(num)>>)
=============================================================================
