------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* Writes every filter expression of at most MaxSyms symbols: operands are *)
(* the members a, b, c in order and constants, between them stand          *)
(* operators, and parentheses and ! where they are allowed.  The grouping  *)
(* of FilterExpr (a shift-reduce machine) is compared with a definition by *)
(* splitting: an expression is its last weakest operator outside of        *)
(* parentheses, applied to what stands left and right of it.  The          *)
(* expressions are replayed on the code with values for their members.     *)
(*                                                                         *)
(* The laws of the operators are checked for all of Values.                *)
(***************************************************************************)
EXTENDS FilterExpr, Json, FiniteSets

CONSTANTS MaxSyms, MaxOperands, Operators, UseConstants, Parens

VARIABLES syms, open, operands, want
vars == <<syms, open, operands, want>>
(* want: "operand" or "operator" comes next *)

Init == syms = <<>> /\ open = 0 /\ operands = 0 /\ want = "operand"

Members == <<"a", "b", "c", "d">>
O(v) == [t |-> "o", v |-> v, p |-> <<>>]
V(p) == [t |-> "v", v |-> "", p |-> <<p>>]
Constants == IF UseConstants THEN {[t |-> "n", v |-> "2", p |-> <<>>], [t |-> "n", v |-> "-1", p |-> <<>>],
                                   [t |-> "n", v |-> "0", p |-> <<>>], [t |-> "s", v |-> "x", p |-> <<>>]} ELSE {}

Operand == /\ want = "operand" /\ operands < MaxOperands
           /\ \E x \in {V(Members[operands + 1])} \cup Constants : syms' = Append(syms, x)
           /\ operands' = operands + 1 /\ want' = "operator" /\ UNCHANGED open
Operator == /\ want = "operator" /\ operands < MaxOperands
            /\ \E o \in Operators \ {"!"} : syms' = Append(syms, O(o))
            /\ want' = "operand" /\ UNCHANGED <<open, operands>>
Not == /\ want = "operand" /\ "!" \in Operators
       /\ syms' = Append(syms, O("!")) /\ UNCHANGED <<open, operands, want>>
Open == /\ Parens /\ want = "operand"
        /\ syms' = Append(syms, O("(")) /\ open' = open + 1 /\ UNCHANGED <<operands, want>>
Close == /\ want = "operator" /\ open > 0
         /\ syms' = Append(syms, O(")")) /\ open' = open - 1 /\ UNCHANGED <<operands, want>>

Needed == Len(syms') + open' + (IF want' = "operand" THEN 1 ELSE 0)

Next == (Operand \/ Operator \/ Not \/ Open \/ Close) /\ Needed <= MaxSyms
Spec == Init /\ [][Next]_vars

Complete == want = "operator" /\ open = 0 /\ syms # <<>>

-----------------------------------------------------------------------------
(* Grouping by splitting *)
IsOp(x, v) == x.t = "o" /\ x.v = v
DepthAt(s, i) == FoldLeft(LAMBDA d, j : d + (IF IsOp(s[j], "(") THEN 1 ELSE IF IsOp(s[j], ")") THEN -1 ELSE 0), 0, Iota(i))
Binary(x) == x.t = "o" /\ x.v \notin {"(", ")", "!"}

RECURSIVE Group(_)
Group(s) ==
    LET splits == {i \in 1..Len(s) : Binary(s[i]) /\ DepthAt(s, i) = 0}
        weakest == {i \in splits : \A j \in splits : Prec(s[i].v) <= Prec(s[j].v)}
    IN  IF splits # {}
        THEN LET i == CHOOSE i \in weakest : \A j \in weakest : j <= i
             IN  Op(s[i].v, <<Group(SubSeq(s, 1, i - 1)), Group(SubSeq(s, i + 1, Len(s)))>>)
        ELSE IF IsOp(s[1], "!") THEN Op("!", <<Group(Tail(s))>>)
        ELSE IF IsOp(s[1], "(") THEN Group(SubSeq(s, 2, Len(s) - 1))
        ELSE Leaf(s[1])

SameGroups == Complete => ParseExpr(syms) = Group(syms)

(* Parentheses around the whole expression, and blanks (which are no symbols), change nothing. *)
Redundant == Complete => ParseExpr(<<O("(")>> \o syms \o <<O(")")>>) = ParseExpr(syms)

(* Every expression has a value, whatever its members hold. *)
Some == {Null, Bool(TRUE), Bool(FALSE), Rat(0, 1), Rat(2, 1), Rat(-1, 2), Str("x")}
Total == Complete /\ Cardinality(VarsOf(syms)) <= 2 /\ (\A i \in 1..Len(syms) : ~IsOp(syms[i], "/")) =>
    \A env \in [VarsOf(syms) -> Some] : EvalExpr(syms, env).t \in {"null", "bool", "num", "str"}

Printed == Complete => PrintT(<<"EXPR", ToJson(syms)>>)

-----------------------------------------------------------------------------
(* Laws of the operators *)
Values == Some \cup {Rat(1, 1), Rat(-1, 1), Rat(5, 2), Rat(100, 1), Rat(7, 1), Str(""), Str("a"), Str("ab"), Str("b"), Str("B")}
T(o, a, b) == Truth(Apply(o, a, b))
ASSUME \A a, b \in Values :
    /\ T("==", a, b) = T("==", b, a)
    /\ T("!=", a, b) = ~T("==", a, b)
    /\ T("<", a, b) = T(">", b, a)
    /\ T("<=", a, b) = T(">=", b, a)
    /\ T("<=", a, b) = (T("<", a, b) \/ (a.t = b.t /\ a.t \in {"num", "str"} /\ T("==", a, b)))
    /\ Cardinality({o \in {"<", ">", "=="} : T(o, a, b)}) <= 1
    /\ (a.t = b.t /\ a.t \in {"num", "str"}) => Cardinality({o \in {"<", ">", "=="} : T(o, a, b)}) = 1
    /\ a.t # b.t => ~T("==", a, b) /\ ~T("<", a, b) /\ ~T("<=", a, b)
    /\ T("&&", a, b) = T("&&", b, a) /\ T("||", a, b) = T("||", b, a)
    /\ T("&&", a, b) = ~(~Truth(a) \/ ~Truth(b))
    /\ a.t = "num" /\ b.t = "num" =>
          /\ Equal(Apply("-", Apply("+", a, b), b), a)
          /\ b.n # 0 => Equal(Apply("*", Apply("/", a, b), b), a)
          /\ Trunc(b) # 0 => LET m == Apply("%", a, b)
                             IN  Abs(m.n) < Abs(Trunc(b)) /\ (Trunc(a) - m.n) % Abs(Trunc(b)) = 0
    /\ (a.t # "num" \/ b.t # "num") => \A o \in {"+", "-", "*", "%"} : Apply(o, a, b) = Null
Long == {NumOf(x) : x \in {"1e300", "-1e300", "12345678901234567890", "12345678901234567891", "1e-20", "-0.00000000001", "4294967296",
                           "4294967297", "9223372036854775807", "9223372036854775808", "0.1234567891", "0", "1", "-1", "0.5", "100000000", "-0.0"}}
ASSUME \A a, b \in Long : /\ Cardinality({o \in {"<", ">", "=="} : T(o, a, b)}) = 1
                          /\ T("<", a, b) = T(">", b, a) /\ T("==", a, b) = T("==", b, a)
ASSUME \A a, b, c \in Long : T("<", a, b) /\ T("<", b, c) => T("<", a, c)
ASSUME Cardinality({a \in Long : T("<", NumOf("0"), a)}) = 12 /\ T("==", NumOf("0"), NumOf("-0.0"))
ASSUME /\ T("==", NumOf("1e10"), NumOf("10000000000.0")) /\ T("==", NumOf("120e8"), NumOf("1.2e+10"))
       /\ T("==", NumOf("0.00000000012e3"), NumOf("1.2e-7"))
ASSUME \A a, b, c \in Values : T("<", a, b) /\ T("<", b, c) => T("<", a, c)
ASSUME \A a, b, c \in Values : T("==", a, b) /\ T("==", b, c) => T("==", a, c)
=============================================================================
