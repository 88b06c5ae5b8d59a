------------------------------- MODULE MCRegex -------------------------------
(***************************************************************************)
(* Builds every list of regular expressions with at most MaxNodes nodes:   *)
(* a stack machine pushes leaves and combines the top of the stack into    *)
(* sequences and alternatives.  The partial derivatives of Regex are       *)
(* compared with the set-theoretic meaning of the operators on every word  *)
(* of at most MaxWord characters; every stack is printed and replayed on   *)
(* the library, once as one sequence and once as a list of expressions.    *)
(***************************************************************************)
EXTENDS Regex, TLC, Json

CONSTANTS MaxNodes, MaxWord, Chars, CharOpts, SetOpts, InnerOpts

VARIABLES stack, nodes
vars == <<stack, nodes>>

Init == stack = <<>> /\ nodes = 0

Leaves == {[k |-> "c", c |-> c, o |-> o] : c \in Chars, o \in CharOpts}
          \cup {[k |-> "s", neg |-> neg, set |-> <<1>>, o |-> o] : neg \in BOOLEAN, o \in SetOpts}

Push == \E x \in Leaves : stack' = Append(stack, x) /\ nodes' = nodes + 1

Combine == \E n \in 1..Len(stack), k \in {"l", "a"}, o \in InnerOpts :
    /\ k = "a" => n > 1
    /\ LET keep == Len(stack) - n
       IN  stack' = Append(SubSeq(stack, 1, keep), [k |-> k, items |-> SubSeq(stack, keep + 1, Len(stack)), o |-> o])
    /\ nodes' = nodes + 1

Next == nodes < MaxNodes /\ (Push \/ Combine)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The meaning of an expression: the positions up to which it can match word w from i on *)
RECURSIVE Ends(_, _, _), EndsSeq(_, _, _), Closure(_, _, _)
EndsSeq(items, w, S) == IF items = <<>> THEN S ELSE EndsSeq(Tail(items), w, UNION {Ends(Head(items), w, i) : i \in S})
Once(x, w, i) ==
    CASE x.k = "c" -> IF i <= Len(w) /\ w[i] = x.c THEN {i + 1} ELSE {}
      [] x.k = "s" -> IF i <= Len(w) /\ ((\E j \in 1..Len(x.set) : x.set[j] = w[i]) # x.neg) THEN {i + 1} ELSE {}
      [] x.k = "l" -> EndsSeq(x.items, w, {i})
      [] x.k = "a" -> UNION {Ends(x.items[j], w, i) : j \in 1..Len(x.items)}
Closure(x, w, S) == LET T == S \cup UNION {Once(x, w, i) : i \in S} IN IF T = S THEN S ELSE Closure(x, w, T)
Ends(x, w, i) ==
    CASE x.o = "-" -> Once(x, w, i)
      [] x.o = "?" -> {i} \cup Once(x, w, i)
      [] x.o = "*" -> Closure(x, w, {i})
      [] x.o = "+" -> Closure(x, w, Once(x, w, i))

Match(x, w) == Len(w) + 1 \in Ends(x, w, 1)

Words == UNION {[1..n -> Chars \cup {3}] : n \in 0..MaxWord}

Last_(list, w) == LET m == {i \in 1..Len(list) : Match(list[i], w)}
                  IN  IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : j <= i

Walk(list, w) == FoldLeft(LAMBDA S, a : After(S, a), Begin(list), w)

Lists == IF stack = <<>> THEN {} ELSE {stack, <<[k |-> "l", items |-> stack, o |-> "-"]>>}

Derivatives == \A list \in Lists : \A w \in Words : Stop(Walk(list, w)) = Last_(list, w)

(* a set of residuals is dead if and only if no continuation is matched *)
Deadness == \A list \in Lists : \A w \in Words :
    Dead(Walk(list, w)) => \A v \in Words : Last_(list, w \o v) = 0

Printed == stack # <<>> => PrintT(<<"LIST", ToJson(stack)>>)
=============================================================================
