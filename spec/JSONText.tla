------------------------------ MODULE JSONText ------------------------------
(***************************************************************************)
(* The text layer: a document is a string, its characters are read one by  *)
(* one by a small lexical machine that delivers tokens, and the tokens are *)
(* read one by one by a structural machine that delivers the element tree. *)
(*                                                                         *)
(* Both machines are written as step functions (LexStep, TreeStep), so     *)
(* that the same definitions serve three purposes: they are the            *)
(* transitions of the model-checked state machines (MCText.tla,            *)
(* MCStreaming.tla), they are folded over complete documents to get the    *)
(* reference result of a recorded run, and they are stepped along recorded *)
(* token traces of the implementation.                                     *)
(*                                                                         *)
(* Positions are 1-based; an element occupies the characters s..e.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ch(str, i) == SubSeq(str, i, i)
Text(str, s, e) == SubSeq(str, s, e)

Blank == {" ", "\t", "\n", "\r"}
Structural == {"{", "}", "[", "]", ","}

-----------------------------------------------------------------------------
(* Lexical machine *)

(* mode: "out"   between tokens
         "str"   inside of a string         "esc"  after a backslash in it
         "aft"   behind a string: a colon decides that it is a member name
         "prim"  inside of a number or word                                *)
LexInit == [mode |-> "out", from |-> 0, to |-> 0, toks |-> <<>>]

Tok(t, s, e, v) == [t |-> t, s |-> s, e |-> e, v |-> v]
Emit(st, tok) == [st EXCEPT !.toks = Append(@, tok), !.mode = "out"]

LexOut(st, i, c) ==
    CASE c \in Blank      -> [st EXCEPT !.mode = "out"]
      [] c \in Structural -> Emit(st, Tok(c, i, i, c))
      [] c = "\""         -> [st EXCEPT !.mode = "str", !.from = i]
      [] OTHER            -> [st EXCEPT !.mode = "prim", !.from = i]

LexStep(str, st, i) ==
    LET c == Ch(str, i) IN
    CASE st.mode = "out" -> LexOut(st, i, c)
      [] st.mode = "str" ->
            IF c = "\\" THEN [st EXCEPT !.mode = "esc"]
            ELSE IF c = "\"" THEN [st EXCEPT !.mode = "aft", !.to = i]
            ELSE st
      [] st.mode = "esc" -> [st EXCEPT !.mode = "str"]
      [] st.mode = "aft" ->
            IF c \in Blank THEN st
            ELSE IF c = ":"
                 THEN Emit(st, Tok("k", st.from, i, Text(str, st.from + 1, st.to - 1)))
                 ELSE LexOut(Emit(st, Tok("p", st.from, st.to, Text(str, st.from, st.to))), i, c)
      [] st.mode = "prim" ->
            IF c \in Blank \cup {",", "]", "}"}
            THEN LexOut(Emit(st, Tok("p", st.from, i - 1, Text(str, st.from, i - 1))), i, c)
            ELSE st

(* A number or word at the very end of the text is complete, and so is a string. *)
LexEnd(str, st) ==
    CASE st.mode = "aft"  -> Emit(st, Tok("p", st.from, st.to, Text(str, st.from, st.to)))
      [] st.mode = "prim" -> Emit(st, Tok("p", st.from, Len(str), Text(str, st.from, Len(str))))
      [] OTHER            -> st

Iota(n) == [i \in 1..n |-> i]

Lex(str) == LexEnd(str, FoldLeft(LAMBDA st, i : LexStep(str, st, i), LexInit, Iota(Len(str)))).toks

-----------------------------------------------------------------------------
(* Structural machine: token sequence -> tree of elements                  *)
(*   node: [k |-> "o"/"a"/"p", s, e, v, kids |-> <<[key, n], ...>>]        *)

Node(k, s, e, v, kids) == [k |-> k, s |-> s, e |-> e, v |-> v, kids |-> kids]

TreeInit == [open |-> <<>>, key |-> <<>>, root |-> <<>>]

(* An element is complete: it becomes a member or array element of the innermost
   open container, or the root. *)
Deliver(st, n) ==
    IF st.open = <<>> THEN [st EXCEPT !.root = Append(@, n)]
    ELSE LET d == Len(st.open)
             c == st.open[d]
         IN  [st EXCEPT !.open[d].kids = Append(@, [key |-> c.key, n |-> n])]

TreeStep(st, tok) ==
    CASE tok.t \in {"{", "["} ->
            [st EXCEPT !.open = Append(@, [k |-> IF tok.t = "{" THEN "o" ELSE "a",
                                          s |-> tok.s, key |-> "", kids |-> <<>>])]
      [] tok.t \in {"}", "]"} ->
            LET d == Len(st.open)
                c == st.open[d]
            IN  Deliver([st EXCEPT !.open = SubSeq(@, 1, d - 1)],
                        Node(c.k, c.s, tok.e, "", c.kids))
      [] tok.t = "k" -> [st EXCEPT !.open[Len(st.open)].key = tok.v]
      [] tok.t = "p" -> Deliver(st, Node("p", tok.s, tok.e, tok.v, <<>>))
      [] OTHER -> st

TreeOf(toks) == FoldLeft(TreeStep, TreeInit, toks)

WellFormed(st) == st.open = <<>> /\ Len(st.root) = 1

(* a text may hold several documents, one after the other *)
WellFormedTexts(st) == st.open = <<>> /\ Len(st.root) > 0
Documents(str) == TreeOf(Lex(str)).root
Parse(str) == TreeOf(Lex(str)).root[1]

(* Number of elements of a tree; nesting depth *)
RECURSIVE Size(_), Depth(_)
Size(n) == FoldLeft(LAMBDA a, c : a + Size(c.n), 1, n.kids)
Depth(n) == IF n.k = "p" THEN 0
            ELSE 1 + FoldLeft(LAMBDA a, c : LET d == Depth(c.n) IN IF d > a THEN d ELSE a, 0, n.kids)
=============================================================================
