----------------------------- MODULE FilterExpr -----------------------------
(***************************************************************************)
(* Filter expressions.  An expression is given as the sequence of symbols  *)
(* it is written with; ParseExpr groups them by precedence, EvalExpr gives *)
(* the value for an assignment of the members it reads, ExprText is the    *)
(* text.  Numbers are exact rationals; those too long for that are kept as *)
(* decimals, which can be compared.                                        *)
(*                                                                         *)
(* Symbols:  [t |-> "v", p |-> <<"a", "b">>]   @.a.b                       *)
(*           [t |-> "n", v |-> "3.5"]          numeral                     *)
(*           [t |-> "s", v |-> "x"]            string                      *)
(*           [t |-> "o", v |-> "&&"]           operator or parenthesis     *)
(***************************************************************************)
EXTENDS JSONText

(* a number is n / d, or the decimal x if d = 0: [neg, ds, e] is 0.ds * 10^e *)
Null    == [t |-> "null", b |-> FALSE, n |-> 0, d |-> 1, s |-> "", x |-> <<>>]
Bool(b) == [Null EXCEPT !.t = "bool", !.b = b]
Str(s)  == [Null EXCEPT !.t = "str", !.s = s]
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Abs(x) == IF x < 0 THEN -x ELSE x
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d))
             IN  [Null EXCEPT !.t = "num", !.n = (IF d < 0 THEN -n ELSE n) \div g, !.d = Abs(d) \div g]

-----------------------------------------------------------------------------
(* Numerals *)
DigitOf(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
                [] OTHER -> -1

RECURSIVE Pow10(_)
Pow10(k) == IF k <= 0 THEN 1 ELSE 10 * Pow10(k - 1)

(* part: 0 integer digits, 1 fraction digits, 2 exponent digits; ds: the digits from the first
   that is not 0, f: how many of all digits stand behind the point *)
NumStep(st, c) ==
    CASE c = "-" -> IF st.part = 2 THEN [st EXCEPT !.eneg = TRUE] ELSE [st EXCEPT !.neg = TRUE]
      [] c = "+" -> st
      [] c = "." -> [st EXCEPT !.part = 1]
      [] c \in {"e", "E"} -> [st EXCEPT !.part = 2]
      [] OTHER -> IF st.part = 2 THEN [st EXCEPT !.x = 10 * @ + DigitOf(c)]
                  ELSE [st EXCEPT !.ds = IF @ = "" /\ c = "0" THEN "" ELSE @ \o c,
                                  !.f = IF st.part = 1 THEN @ + 1 ELSE @]

RECURSIVE NoTail(_)
NoTail(ds) == IF ds # "" /\ Ch(ds, Len(ds)) = "0" THEN NoTail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Whole10(ds) == FoldLeft(LAMBDA a, i : 10 * a + DigitOf(Ch(ds, i)), 0, Iota(Len(ds)))

NumOf(str) ==
    LET st == FoldLeft(LAMBDA a, i : NumStep(a, Ch(str, i)),
                       [part |-> 0, ds |-> "", f |-> 0, x |-> 0, neg |-> FALSE, eneg |-> FALSE],
                       Iota(Len(str)))
        x == (IF st.eneg THEN -st.x ELSE st.x) - st.f      \* value = digits * 10^x
        sign == IF st.neg THEN -1 ELSE 1
        ds == NoTail(st.ds)
        dec == <<[neg |-> st.neg, ds |-> ds, e |-> Len(st.ds) + x]>>
        y == x + Len(st.ds) - Len(ds)                        \* value = 0.ds * 10^e = ds * 10^y
    IN  IF ds = "" THEN [Rat(0, 1) EXCEPT !.x = <<[neg |-> FALSE, ds |-> "", e |-> 0]>>]
        ELSE IF y >= 0 /\ Len(ds) + y <= 9 THEN [Rat(sign * Whole10(ds) * Pow10(y), 1) EXCEPT !.x = dec]
        ELSE IF y < 0 /\ y >= -6 /\ Len(ds) <= 9 THEN [Rat(sign * Whole10(ds), Pow10(-y)) EXCEPT !.x = dec]
        ELSE [Null EXCEPT !.t = "num", !.n = sign, !.d = 0, !.x = dec]

(* The value of an element: containers count as true *)
ValueOf(n) ==
    IF n.k # "p" THEN Bool(TRUE)
    ELSE LET c == Ch(n.v, 1) IN
         CASE n.v = "true"  -> Bool(TRUE)
           [] n.v = "false" -> Bool(FALSE)
           [] n.v = "null"  -> Null
           [] c = "\""      -> Str(SubSeq(n.v, 2, Len(n.v) - 1))
           [] OTHER         -> NumOf(n.v)

-----------------------------------------------------------------------------
(* Operators *)
Truth(v) == CASE v.t = "null" -> FALSE
              [] v.t = "bool" -> v.b
              [] v.t = "num"  -> v.n # 0
              [] OTHER        -> TRUE

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |->
                CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]
CharCode(c) == IF c \in DOMAIN AsciiCode THEN AsciiCode[c] ELSE 200   \* other bytes are larger

(* -1, 0, 1: byte order of two strings *)
StrCmp(x, y) ==
    LET m == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
        r == FoldLeft(LAMBDA a, i : IF a # 0 \/ Ch(x, i) = Ch(y, i) THEN a
                                    ELSE IF CharCode(Ch(x, i)) < CharCode(Ch(y, i)) THEN -1 ELSE 1,
                      0, Iota(m))
    IN  IF r # 0 THEN r
        ELSE IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE 0

(* -1, 0, 1: two decimals without signs *)
MagCmp(p, q) ==
    IF p.ds = "" \/ q.ds = "" THEN (IF p.ds = q.ds THEN 0 ELSE IF p.ds = "" THEN -1 ELSE 1)
    ELSE IF p.e # q.e THEN (IF p.e < q.e THEN -1 ELSE 1)
    ELSE StrCmp(p.ds, q.ds)
Sign(a) == IF a.n = 0 THEN 0 ELSE IF a.n < 0 THEN -1 ELSE 1
(* numbers that came out of a calculation have no decimal; they are compared with the longer
   ones by size only *)
Size_(a, b) == IF a.x # <<>> /\ b.x # <<>> THEN MagCmp(a.x[1], b.x[1])
               ELSE IF a.d = 0 THEN (IF a.x[1].e >= 12 \/ b.n = 0 THEN 1 ELSE IF a.x[1].e <= -12 THEN -1 ELSE Assert(FALSE, "number too long"))
               ELSE (IF b.x[1].e >= 12 \/ a.n = 0 THEN -1 ELSE IF b.x[1].e <= -12 THEN 1 ELSE Assert(FALSE, "number too long"))

NumCmp(a, b) ==
    IF a.d = 0 \/ b.d = 0
    THEN (IF Sign(a) # Sign(b) THEN (IF Sign(a) < Sign(b) THEN -1 ELSE 1) ELSE Sign(a) * Size_(a, b))
    ELSE LET x == a.n * b.d
             y == b.n * a.d
         IN  IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0

Equal(a, b) == /\ a.t = b.t
               /\ CASE a.t = "num" -> NumCmp(a, b) = 0
                    [] a.t = "str" -> a.s = b.s
                    [] a.t = "bool" -> a.b = b.b
                    [] OTHER -> TRUE

(* Only two numbers or two strings are ordered *)
Ordered(a, b) == a.t = b.t /\ a.t \in {"num", "str"}
Cmp(a, b) == IF a.t = "num" THEN NumCmp(a, b) ELSE StrCmp(a.s, b.s)

Trunc(a) == LET k == Abs(a.n) \div a.d IN IF a.n < 0 THEN -k ELSE k
(* remainder with the sign of the dividend *)
Rem(x, y) == LET r == Abs(x) % Abs(y) IN IF x < 0 THEN -r ELSE r

(* a number of 2^63 or more has no whole part that could be divided *)
Huge(a) == a.d = 0 /\ MagCmp(a.x[1], NumOf("9223372036854775808").x[1]) >= 0

Arith(o, a, b) ==
    IF a.t # "num" \/ b.t # "num" THEN Null
    ELSE IF o = "%" /\ (Huge(a) \/ Huge(b)) THEN Null
    ELSE IF a.d = 0 \/ b.d = 0 THEN Assert(FALSE, "number too long")
    ELSE CASE o = "+" -> Rat(a.n * b.d + b.n * a.d, a.d * b.d)
           [] o = "-" -> Rat(a.n * b.d - b.n * a.d, a.d * b.d)
           [] o = "*" -> Rat(a.n * b.n, a.d * b.d)
           [] o = "/" -> Rat(a.n * b.d, a.d * b.n)        \* the divisor is not 0
           [] o = "%" -> IF Trunc(b) = 0 THEN Null ELSE Rat(Rem(Trunc(a), Trunc(b)), 1)

Apply(o, a, b) ==
    CASE o = "||" -> Bool(Truth(a) \/ Truth(b))
      [] o = "&&" -> Bool(Truth(a) /\ Truth(b))
      [] o = "==" -> Bool(Equal(a, b))
      [] o = "!=" -> Bool(~Equal(a, b))
      [] o = "<"  -> Bool(Ordered(a, b) /\ Cmp(a, b) < 0)
      [] o = ">"  -> Bool(Ordered(a, b) /\ Cmp(a, b) > 0)
      [] o = "<=" -> Bool(Ordered(a, b) /\ Cmp(a, b) <= 0)
      [] o = ">=" -> Bool(Ordered(a, b) /\ Cmp(a, b) >= 0)
      [] OTHER    -> Arith(o, a, b)

-----------------------------------------------------------------------------
(* Grouping.  Shift-reduce machine: a stack of operands and a stack of     *)
(* pending operators; an operator reduces the pending ones that bind at    *)
(* least as strong (binary operators group from the left, ! is a prefix).  *)
Prec(o) == CASE o = "||" -> 1 [] o = "&&" -> 2
             [] o \in {"==", "!=", "<", ">", "<=", ">="} -> 3
             [] o \in {"+", "-"} -> 4
             [] o \in {"*", "/", "%"} -> 5
             [] o = "!" -> 6
             [] OTHER -> 0                                   \* parenthesis

Leaf(x) == [t |-> x.t, x |-> x, a |-> <<>>]
Op(o, args) == [t |-> "op", x |-> [t |-> "o", v |-> o], a |-> args]

Reduce(st) ==
    LET o == Last(st.ops)
        n == Len(st.vals)
    IN  IF o = "!"
        THEN [vals |-> Append(SubSeq(st.vals, 1, n - 1), Op(o, <<st.vals[n]>>)), ops |-> Front(st.ops)]
        ELSE [vals |-> Append(SubSeq(st.vals, 1, n - 2), Op(o, <<st.vals[n - 1], st.vals[n]>>)), ops |-> Front(st.ops)]

RECURSIVE ReduceWhile(_, _)
ReduceWhile(st, p) == IF st.ops # <<>> /\ Prec(Last(st.ops)) >= p THEN ReduceWhile(Reduce(st), p) ELSE st

ExprStep(st, x) ==
    IF x.t # "o" THEN [st EXCEPT !.vals = Append(@, Leaf(x))]
    ELSE CASE x.v = "(" -> [st EXCEPT !.ops = Append(@, "(")]
           [] x.v = ")" -> LET r == ReduceWhile(st, 1) IN [r EXCEPT !.ops = Front(@)]
           [] x.v = "!" -> [st EXCEPT !.ops = Append(@, "!")]
           [] OTHER     -> LET r == ReduceWhile(st, Prec(x.v)) IN [r EXCEPT !.ops = Append(@, x.v)]

ParseExpr(syms) == ReduceWhile(FoldLeft(ExprStep, [vals |-> <<>>, ops |-> <<>>], syms), 1).vals[1]

(* The members an expression reads *)
VarsOf(syms) == {syms[i].p : i \in {j \in 1..Len(syms) : syms[j].t = "v"}}

(* env maps the path of a member to its value *)
RECURSIVE EvalTree(_, _)
EvalTree(e, env) ==
    CASE e.t = "v" -> env[e.x.p]
      [] e.t = "n" -> NumOf(e.x.v)
      [] e.t = "s" -> Str(e.x.v)
      [] e.t = "op" -> IF e.x.v = "!" THEN Bool(~Truth(EvalTree(e.a[1], env)))
                       ELSE Apply(e.x.v, EvalTree(e.a[1], env), EvalTree(e.a[2], env))

EvalExpr(syms, env) == EvalTree(ParseExpr(syms), env)

-----------------------------------------------------------------------------
(* Text *)
SymText(x) ==
    CASE x.t = "v" -> FoldLeft(LAMBDA a, k : a \o "." \o k, "@", x.p)
      [] x.t = "n" -> x.v
      [] x.t = "s" -> IF \E i \in 1..Len(x.v) : Ch(x.v, i) = "'" THEN "\"" \o x.v \o "\"" ELSE "'" \o x.v \o "'"
      [] OTHER     -> x.v
ExprText(syms) == FoldLeft(LAMBDA a, x : a \o SymText(x), "", syms)
=============================================================================
