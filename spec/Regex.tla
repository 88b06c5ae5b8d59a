------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions by partial derivatives.                             *)
(*   [k |-> "c", c |-> 3, o |-> "-"]                  one character        *)
(*   [k |-> "s", neg |-> TRUE, set |-> <<1, 2>>, o]   a set                *)
(*   [k |-> "t", d |-> <<97, 45, 99>>, o]             a set as it is written *)
(*   [k |-> "q", d |-> <<97, 98>>, o]                 a sequence as it is written *)
(*   [k |-> "l", items |-> <<...>>, o]                a sequence           *)
(*   [k |-> "a", items |-> <<...>>, o]                alternatives         *)
(* o: "-" once, "?" optional, "*" repeated, "+" repeated at least once     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(***************************************************************************)
(* A written set: characters and ranges (a-c), the negation of them behind *)
(* ^ at the beginning, and escapes: \n \t \r \f \v, \x with two, \u with  *)
(* four and \U with eight hexadecimal digits, or any other character.      *)
(***************************************************************************)
Digit(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE Number(_, _, _)
Number(d, i, n) == IF n = 0 THEN 0 ELSE 16 * Number(d, i, n - 1) + Digit(d[i + n - 1])
(* the character that begins at position i, and the position behind it *)
CharAt(d, i) ==
    IF d[i] # 92 THEN <<d[i], i + 1>>
    ELSE LET c == d[i + 1]
         IN  CASE c = 110 -> <<10, i + 2>>
               [] c = 116 -> <<9, i + 2>>
               [] c = 114 -> <<13, i + 2>>
               [] c = 102 -> <<12, i + 2>>
               [] c = 118 -> <<11, i + 2>>
               [] c = 120 -> <<Number(d, i + 2, 2), i + 4>>
               [] c = 117 -> <<Number(d, i + 2, 4), i + 6>>
               [] c = 85 -> <<Number(d, i + 2, 8), i + 10>>
               [] OTHER -> <<c, i + 2>>
RECURSIVE Among(_, _, _)
(* whether a is one of the characters written from position i on *)
Among(d, i, a) ==
    /\ i <= Len(d)
    /\ LET p == CharAt(d, i)
       IN  IF p[2] < Len(d) /\ d[p[2]] = 45
           THEN LET q == CharAt(d, p[2] + 1)
                IN  (p[1] <= a /\ a <= q[1]) \/ Among(d, q[2], a)
           ELSE p[1] = a \/ Among(d, p[2], a)
Written(d, a) == IF d # <<>> /\ d[1] = 94 THEN ~Among(d, 2, a) ELSE Among(d, 1, a)

(* the characters of a text with escapes, one after the other *)
RECURSIVE Spelled(_, _)
Spelled(d, i) == IF i > Len(d) THEN <<>>
                 ELSE LET p == CharAt(d, i) IN <<p[1]>> \o Spelled(d, p[2])

RECURSIVE Nullable(_)
Nullable(x) ==
    \/ x.o \in {"?", "*"}
    \/ x.k = "l" /\ \A i \in 1..Len(x.items) : Nullable(x.items[i])
    \/ x.k = "a" /\ \E i \in 1..Len(x.items) : Nullable(x.items[i])

NullableSeq(s) == \A i \in 1..Len(s) : Nullable(s[i])

RECURSIVE DSeq(_, _), DItem(_, _)
(* what remains of a sequence of expressions after character a: a set of sequences *)
DSeq(s, a) ==
    IF s = <<>> THEN {}
    ELSE {d \o Tail(s) : d \in DItem(Head(s), a)}
         \cup (IF Nullable(Head(s)) THEN DSeq(Tail(s), a) ELSE {})

DItem(x, a) ==
    LET once == CASE x.k = "c" -> IF x.c = a THEN {<<>>} ELSE {}
                  [] x.k = "s" -> IF (\E i \in 1..Len(x.set) : x.set[i] = a) # x.neg THEN {<<>>} ELSE {}
                  [] x.k = "t" -> IF Written(x.d, a) THEN {<<>>} ELSE {}
                  [] x.k = "q" -> LET cs == Spelled(x.d, 1) IN DSeq([i \in 1..Len(cs) |-> [k |-> "c", c |-> cs[i], o |-> "-"]], a)
                  [] x.k = "l" -> DSeq(x.items, a)
                  [] x.k = "a" -> UNION {DItem(x.items[i], a) : i \in 1..Len(x.items)}
    IN  IF x.o \in {"*", "+"} THEN {d \o <<[x EXCEPT !.o = "*"]>> : d \in once} ELSE once

(* a set of residuals per expression *)
Begin(list) == [i \in 1..Len(list) |-> {<<list[i]>>}]
After(S, a) == [i \in 1..Len(S) |-> UNION {DSeq(s, a) : s \in S[i]}]

(* the last expression of the list that matches, 0 if none does *)
Stop(S) == LET m == {i \in 1..Len(S) : \E s \in S[i] : NullableSeq(s)}
           IN  IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : j <= i
Dead(S) == \A i \in 1..Len(S) : S[i] = {}
=============================================================================
