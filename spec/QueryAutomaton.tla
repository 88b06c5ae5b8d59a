-------------------------- MODULE QueryAutomaton --------------------------
(***************************************************************************)
(* Queries as automata over labels.  A label is "[" (one step into an      *)
(* array) or "k" followed by a member name.  Position i of a query means   *)
(* that its first i steps have been taken; the automaton is the set of     *)
(* possible positions plus the conditions that are being read.             *)
(***************************************************************************)
EXTENDS JSONPath

Matches(st, l) ==
    CASE st.t \in {"k", "dk"} -> l = "k" \o st.n
      [] st.t \in {"*", "d*"} -> TRUE
      [] OTHER                -> l = "["

(* position i has just passed a filter after n labels (in supported queries no descendant step
   comes before a filter, so that step i is taken by label i; a later step may still wait at
   position i for a descendant) *)
Filtered(q, i, n) == i > 0 /\ i = n /\ q[i].t = "?"

(* members of arrays that are no objects do not pass a filter *)
Blocked(q, i, n, l) == Filtered(q, i, n) /\ l = "["

(* P: set of positions, C: conditions being read as <<labels passed at the filter, name read so far, rest>> *)
Start(q) == [n |-> 0, P |-> {0}, C |-> {}]

Move(q, P, n, l) ==
    UNION {IF i = Len(q) \/ Blocked(q, i, n, l) THEN {}
           ELSE (IF Matches(q[i + 1], l) THEN {i + 1} ELSE {})
                \cup (IF Descends(q[i + 1]) THEN {i} ELSE {}) : i \in P}

Reading(q, P, n) == {<<n, "", p>> : p \in UNION {VarsOf(q[i].e) : i \in {j \in P : Filtered(q, j, n)}}}

Join(x, y) == IF x = "" THEN y ELSE x \o "." \o y

Step(q, a, l) ==
    LET from == a.C \cup Reading(q, a.P, a.n)
    IN  [n |-> a.n + 1,
         P |-> Move(q, a.P, a.n, l),
         C |-> {<<c[1], Join(c[2], Head(c[3])), Tail(c[3])>> : c \in {d \in from : d[3] # <<>> /\ l = "k" \o Head(d[3])}}]

Walk(q, w) == FoldLeft(LAMBDA a, l : Step(q, a, l), Start(q), w)

IsOutput(q, a) == Len(q) \in a.P
IsFilter(q, a) == \E i \in a.P : Filtered(q, i, a.n)
Reads(q, a) == {<<c[1], c[2]>> : c \in {d \in a.C : d[3] = <<>>}}
(* nothing can be selected or read below *)
IsDead(q, a) == a.P = {} /\ a.C = {}

Bound(st) == IF st.t = "[i]" THEN <<st.i, st.i + 1>>
             ELSE IF st.t = "[far]" THEN <<IF st.form # "upto" THEN NoHi ELSE IF st.lo = <<>> THEN 0 ELSE st.lo[1], NoHi>>
             ELSE <<IF st.lo = <<>> THEN 0 ELSE st.lo[1], IF st.hi = <<>> THEN NoHi ELSE st.hi[1]>>
(* Bounds apply to elements that have just taken the step (as for filters) *)
Bounds(q, a) == {Bound(q[i]) : i \in {j \in a.P : j > 0 /\ j = a.n /\ IsIndex(q[j])}}
=============================================================================
