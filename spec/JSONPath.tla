------------------------------ MODULE JSONPath ------------------------------
(***************************************************************************)
(* The declarative semantics of queries: which elements of a document a    *)
(* path selects.  A query is a sequence of steps:                          *)
(*   [t |-> "k", n |-> "a"]  .a        [t |-> "*"]      .*                 *)
(*   [t |-> "dk", n |-> "a"] ..a       [t |-> "d*"]     ..*                *)
(*   [t |-> "[*]"]           [*]       [t |-> "[i]", i |-> 2]   [2]        *)
(*   [t |-> "[:]", lo |-> <<1>>, hi |-> <<>>]   [1:]                       *)
(*   [t |-> "[far]", form |-> "at" / "from" / "upto", lo |-> <<1>>, x |-> "2147483648"]                     *)
(*                 [2147483648]  [2147483648:]  [1:2147483648], bounds beyond every array                   *)
(*   [t |-> "?", e |-> symbols]        [?(...)]                            *)
(***************************************************************************)
EXTENDS FilterExpr, FiniteSets, FiniteSetsExt

NoHi == 1000000000

InRange(st, i) ==
    CASE st.t = "[*]" -> TRUE
      [] st.t = "[i]" -> i = st.i
      [] st.t = "[:]" -> /\ (st.lo = <<>> \/ i >= st.lo[1])
                         /\ (st.hi = <<>> \/ i < st.hi[1])
      [] st.t = "[far]" -> st.form = "upto" /\ (st.lo = <<>> \/ i >= st.lo[1])
      [] OTHER -> FALSE

(* The member of an object with the given path; the last one if a name is used repeatedly *)
RECURSIVE Members(_, _)
Members(n, p) ==
    IF p = <<>> THEN <<n>>
    ELSE IF n.k # "o" THEN <<>>
    ELSE FoldLeft(LAMBDA a, c : IF c.key = Head(p) THEN a \o Members(c.n, Tail(p)) ELSE a, <<>>, n.kids)

Lookup(n, p) == LET m == Members(n, p) IN IF m = <<>> THEN Null ELSE ValueOf(m[Len(m)])

Satisfies(n, e) == n.k = "o" /\ Truth(EvalExpr(e, [p \in VarsOf(e) |-> Lookup(n, p)]))

(* Is child number i (with key c.key in objects) of n taken by step st? *)
Takes(n, i, c, st) ==
    CASE st.t \in {"k", "dk"} -> n.k = "o" /\ c.key = st.n
      [] st.t \in {"*", "d*"} -> TRUE
      [] st.t = "?"           -> n.k = "a" /\ Satisfies(c.n, st.e)
      [] OTHER                -> n.k = "a" /\ InRange(st, i - 1)

Descends(st) == st.t \in {"dk", "d*"}

(* The selected elements as triples <<s, e, f>>: the element occupies s..e, and f is the
   end of the outermost filtered object on the way to it (0 if the path passes none). *)
RECURSIVE Sel(_, _, _)
Sel(n, q, f) ==
    IF q = <<>> THEN {<<n.s, n.e, f>>}
    ELSE LET st == Head(q) IN
         UNION { LET c == n.kids[i] IN
                    (IF Takes(n, i, c, st)
                     THEN Sel(c.n, Tail(q), IF st.t = "?" /\ f = 0 THEN c.n.e ELSE f) ELSE {})
                    \cup (IF Descends(st) THEN Sel(c.n, q, f) ELSE {})
                 : i \in 1..Len(n.kids) }

(* The elements that are selected in the documents of a text (which is one document, or several,
   one after the other), in the order in which they end *)
Selected(docs, q) == SetToSortSeq(UNION {Sel(docs[i], q, 0) : i \in 1..Len(docs)}, LAMBDA x, y : x[2] < y[2])

Results(doc, q) ==
    LET sel == Selected(Documents(doc), q)
    IN  [i \in 1..Len(sel) |-> Text(doc, sel[i][1], sel[i][2])]

-----------------------------------------------------------------------------
(* Text of queries *)
StepText(st) ==
    CASE st.t = "k"   -> "." \o st.n
      [] st.t = "*"   -> ".*"
      [] st.t = "dk"  -> ".." \o st.n
      [] st.t = "d*"  -> "..*"
      [] st.t = "[*]" -> "[*]"
      [] st.t = "[i]" -> "[" \o ToString(st.i) \o "]"
      [] st.t = "[:]" -> "[" \o (IF st.lo = <<>> THEN "" ELSE ToString(st.lo[1])) \o ":"
                             \o (IF st.hi = <<>> THEN "" ELSE ToString(st.hi[1])) \o "]"
      [] st.t = "[far]" -> "[" \o (IF st.form # "upto" THEN "" ELSE (IF st.lo = <<>> THEN "" ELSE ToString(st.lo[1])) \o ":")
                               \o st.x \o (IF st.form = "from" THEN ":" ELSE "") \o "]"
      [] st.t = "?"   -> "[?(" \o ExprText(st.e) \o ")]"
QueryText(q) == FoldLeft(LAMBDA a, st : a \o StepText(st), "$", q)

(* The queries the system supports without a recorded limitation *)
IsIndex(st) == st.t \in {"[i]", "[:]", "[far]"}
Supported(q) ==
    \A i \in 1..Len(q) : Descends(q[i]) =>
        \A j \in i + 1 .. Len(q) : ~IsIndex(q[j]) /\ q[j].t # "?"
=============================================================================
