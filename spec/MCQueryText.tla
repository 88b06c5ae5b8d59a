---------------------------- MODULE MCQueryText ----------------------------
(***************************************************************************)
(* All query texts of up to MaxSymbols symbols over a small alphabet, as   *)
(* the reachable states of the parser.  Each complete text is printed; the   *)
(* real parser has to build the tree that the specification has built      *)
(* (ConformParser).  Invariants: scanning the text again gives the symbols *)
(* it was made of, and a complete query has nothing left on its stacks.    *)
(***************************************************************************)
EXTENDS QueryParser

CONSTANTS MaxSymbols, Alphabet

VARIABLES text, syms, st
vars == <<text, syms, st>>

SymOf(a) == CASE a = "a" -> Sym("id", "a") [] a = "bc" -> Sym("id", "bc") [] a = "7" -> Sym("num", "7")
              [] a = "1.5" -> Sym("num", "1.5") [] a = "'s'" -> Sym("str", "s") [] a = "\"s\"" -> Sym("str", "s")
              [] OTHER -> Sym(a, a)

Init == text = "" /\ syms = <<>> /\ st = ParseInit

(* the least number of symbols that completes the text *)
Depth(s) == Len(SelectSeq(s.ops, LAMBDA o : o \in {"(", "script"}))
Needs(s) ==
    CASE s.mode = "path" -> 0
      [] s.mode \in {"start", "prop", "dprop", "lo", "close"} -> 1
      [] s.mode = "br" -> 2
      [] s.mode = "hi" -> IF s.lo = None \/ s.neg THEN 2 ELSE 1
      [] s.mode = "open" -> 4
      [] s.mode = "operator" -> Depth(s) + 1
      [] s.mode \in {"operand", "eprop", "edprop"} -> Depth(s) + 2

Read(a) ==
    /\ SymOf(a).t \in Expects(st)
    /\ st' = ParseStep(st, SymOf(a))
    /\ ~st'.extra
    /\ Len(syms) + 1 + Needs(st') <= MaxSymbols
    /\ syms' = Append(syms, SymOf(a))
    /\ text' = text \o a
    /\ IF Complete(st') THEN PrintT(<<"QUERY", text'>>) ELSE TRUE

Next == \E a \in Alphabet : Read(a)
Spec == Init /\ [][Next]_vars

SameSymbols == Complete(st) => Scan(text) = syms
CleanStacks == Complete(st) => st.vals = <<>> /\ st.ops = <<>> /\ st.part = None /\ st.lo = None /\ ~st.neg
=============================================================================
