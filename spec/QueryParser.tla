---------------------------- MODULE QueryParser ----------------------------
(***************************************************************************)
(* From query text to syntax tree: a scanner that reads characters and a   *)
(* shift-reduce parser that reads symbols, both as step functions.         *)
(*                                                                         *)
(* Syntax trees: [t |-> "root"], "star", "ref", "none",                    *)
(*   [t |-> "id" / "string", v], [t |-> "number", whole, micro, neg],      *)
(*   [t |-> "child" / "descendant" / "bracket" / "filter" / "range", l, r],*)
(*   [t |-> "op", o, l, r], [t |-> "script", l, r]                         *)
(*                                                                         *)
(* The grammar has sentences that are not in the documented syntax: lists  *)
(* of indexes and names in brackets, scripts, members of numbers and       *)
(* strings.  The parser reads them too and remembers that it did (extra).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Ch(str, i) == SubSeq(str, i, i)
Iota(n) == [i \in 1..n |-> i]

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
NameStart == {Ch(Letters, i) : i \in 1..Len(Letters)}
NameChar == NameStart \cup Digit
Single == {"*", "-", "+", "/", "%", "?", "[", "]", "(", ")", "$", "@", ",", ":"}
Layout == {" ", "\t", "\f"}

-----------------------------------------------------------------------------
(* Scanner.  mode: "out"; "name"; "num" integer digits; "point" a point behind a number;
   "frac" fraction digits; "str" string; "esc"; "dot" one point; "two" first character of a
   symbol that may have two.  Characters that belong to no symbol are counted and left out. *)
ScanInit == [mode |-> "out", buf |-> "", q |-> "", from |-> 0, unknown |-> 0, toks |-> <<>>]
Sym(t, v) == [t |-> t, v |-> v]
Put(s, t, v) == [s EXCEPT !.toks = Append(@, Sym(t, v)), !.mode = "out", !.buf = ""]
Stray(s) == [s EXCEPT !.unknown = @ + 1, !.mode = "out", !.buf = ""]

ScanOut(s, c, i) ==
    CASE c \in Layout          -> s
      [] c \in Single          -> Put(s, c, c)
      [] c \in NameStart       -> [s EXCEPT !.mode = "name", !.buf = c]
      [] c \in Digit           -> [s EXCEPT !.mode = "num", !.buf = c]
      [] c \in {"'", "\""}     -> [s EXCEPT !.mode = "str", !.buf = "", !.q = c, !.from = i]
      [] c = "."               -> [s EXCEPT !.mode = "dot"]
      [] c \in {"=", "!", "<", ">", "&", "|"} -> [s EXCEPT !.mode = "two", !.buf = c]
      [] OTHER                 -> Stray(s)

Pairs == {"==", "=~", "!=", "<=", ">=", "&&", "||"}
(* one character that may have been the beginning of two *)
Alone(s) == IF s.buf \in {"!", "<", ">"} THEN Put(s, s.buf, s.buf) ELSE Stray(s)

ScanStep(s, c, i) ==
    CASE s.mode = "out"  -> ScanOut(s, c, i)
      [] s.mode = "name" -> IF c \in NameChar THEN [s EXCEPT !.buf = @ \o c] ELSE ScanOut(Put(s, "id", s.buf), c, i)
      [] s.mode = "num"  -> IF c \in Digit THEN [s EXCEPT !.buf = @ \o c]
                            ELSE IF c = "." THEN [s EXCEPT !.mode = "point"]
                            ELSE ScanOut(Put(s, "num", s.buf), c, i)
      [] s.mode = "point" -> IF c \in Digit THEN [s EXCEPT !.mode = "frac", !.buf = @ \o "." \o c]
                             ELSE IF c = "." THEN Put(Put(s, "num", s.buf), "..", "..")
                             ELSE ScanOut(Put(Put(s, "num", s.buf), ".", "."), c, i)
      [] s.mode = "frac" -> IF c \in Digit THEN [s EXCEPT !.buf = @ \o c] ELSE ScanOut(Put(s, "num", s.buf), c, i)
      [] s.mode = "str"  -> IF c = s.q THEN Put(s, "str", s.buf)
                            ELSE [s EXCEPT !.buf = @ \o c, !.mode = IF c = "\\" THEN "esc" ELSE "str"]
      [] s.mode = "esc"  -> [s EXCEPT !.buf = @ \o c, !.mode = "str"]
      [] s.mode = "dot"  -> IF c = "." THEN Put(s, "..", "..") ELSE ScanOut(Put(s, ".", "."), c, i)
      [] s.mode = "two"  -> IF s.buf \o c \in Pairs THEN Put(s, s.buf \o c, s.buf \o c) ELSE ScanOut(Alone(s), c, i)

(* a quote that is never closed stands alone, and what follows it is read again *)
RECURSIVE ScanFrom(_, _, _)
ScanFrom(s, text, i) ==
    IF i > Len(text)
    THEN CASE s.mode = "name" -> Put(s, "id", s.buf)
           [] s.mode \in {"num", "frac"} -> Put(s, "num", s.buf)
           [] s.mode = "point" -> Put(Put(s, "num", s.buf), ".", ".")
           [] s.mode = "dot" -> Put(s, ".", ".")
           [] s.mode = "two" -> Alone(s)
           [] s.mode \in {"str", "esc"} -> ScanFrom(Stray(s), text, s.from + 1)
           [] OTHER -> s
    ELSE LET n == FoldLeft(LAMBDA a, k : ScanStep(a, Ch(text, k), k), s, [k \in 1..Len(text) - i + 1 |-> i + k - 1])
         IN  ScanFrom(n, text, Len(text) + 1)

Scanned(text) == ScanFrom(ScanInit, text, 1)
Scan(text) == Scanned(text).toks

-----------------------------------------------------------------------------
None == [t |-> "none"]
Root == [t |-> "root"]
Star == [t |-> "star"]
Ref  == [t |-> "ref"]
Id(v) == [t |-> "id", v |-> v]
String(v) == [t |-> "string", v |-> v]
Pair(t, l, r) == [t |-> t, l |-> l, r |-> r]
OpNode(o, l, r) == [t |-> "op", o |-> o, l |-> l, r |-> r]

Val == [c \in Digit |-> CHOOSE i \in 0..9 : ToString(i) = c]
IntOf(str) == FoldLeft(LAMBDA a, i : 10 * a + Val[Ch(str, i)], 0, Iota(Len(str)))
Zeros == "000000"
(* digits without zeros in front *)
Shortest(d) == LET k == SelectInSeq(Iota(Len(d)), LAMBDA i : Ch(d, i) # "0")
               IN  IF k = 0 THEN "0" ELSE SubSeq(d, k, Len(d))
(* numerals have at most six digits behind the point *)
Number(text, neg) ==
    LET p == SelectInSeq(Iota(Len(text)), LAMBDA i : Ch(text, i) = ".")
        w == IF p = 0 THEN text ELSE SubSeq(text, 1, p - 1)
        f == IF p = 0 THEN "" ELSE SubSeq(text, p + 1, Len(text))
        m == IntOf(f \o SubSeq(Zeros, 1, 6 - Len(f)))
        v == Shortest(w)
    IN  [t |-> "number", whole |-> v, micro |-> m, neg |-> neg /\ (v # "0" \/ m # 0)]

-----------------------------------------------------------------------------
(* Parser.  mode says what may come next:
     "start" $        "path" . .. [ or the end    "prop", "dprop" a name or *
     "br" what stands in brackets   "lo" ] or : or ,   "hi" a bound or ]    "close" ]
     "item" an element of a list    "list" ] or ,
     "open" (         "operand" the beginning of an operand   "operator" what follows one
     "eprop", "edprop" a name or * in an expression *)
ParseInit == [mode |-> "start", path |-> None, lo |-> None, neg |-> FALSE, part |-> None, vals |-> <<>>, ops |-> <<>>, extra |-> FALSE]

Binary == {"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}
Strength(o) == CASE o = "||" -> 1 [] o = "&&" -> 2
                 [] o \in {"==", "!=", "<", ">", "<=", ">="} -> 3
                 [] o \in {"+", "-"} -> 4
                 [] o \in {"*", "/", "%"} -> 5
                 [] o = "!" -> 6
                 [] OTHER -> 0

Reduce1(s) ==
    LET o == Last(s.ops)
        n == Len(s.vals)
    IN  IF o = "!"
        THEN [s EXCEPT !.vals = Append(Front(@), OpNode(o, Last(s.vals), None)), !.ops = Front(@)]
        ELSE [s EXCEPT !.vals = Append(SubSeq(@, 1, n - 2), OpNode(o, s.vals[n - 1], s.vals[n])), !.ops = Front(@)]

RECURSIVE ReduceTo(_, _)
ReduceTo(s, p) == IF Strength(Last(s.ops)) >= p THEN ReduceTo(Reduce1(s), p) ELSE s

Operand(s, v) == [s EXCEPT !.vals = Append(@, v), !.mode = "operator", !.neg = FALSE]
Property(x) == IF x.t = "*" THEN Star ELSE Id(x.v)

(* the symbols that may come next *)
Expects(s) ==
    CASE s.mode = "start"  -> {"$"}
      [] s.mode = "path"   -> {".", "..", "["}
      [] s.mode \in {"prop", "dprop", "eprop", "edprop"} -> {"id", "*"}
      [] s.mode = "br"     -> IF s.neg THEN {"num"} ELSE {"*", "?", ":", "num", "-", "str", "("}
      [] s.mode = "lo"     -> {"]", ":", ","}
      [] s.mode = "item"   -> IF s.neg THEN {"num"} ELSE {"num", "-", "str"}
      [] s.mode = "list"   -> {"]", ","}
      [] s.mode = "hi"     -> IF s.neg THEN {"num"} ELSE IF s.lo = None THEN {"num", "-"} ELSE {"num", "-", "]"}
      [] s.mode = "close"  -> {"]"}
      [] s.mode = "open"   -> {"("}
      [] s.mode = "operand" -> IF s.neg THEN {"num"} ELSE {"@", "num", "str", "-", "!", "("}
      [] s.mode = "operator" -> Binary \cup {")", ".", ".."}

ParseStep(s, x) ==
    CASE s.mode = "start" -> [s EXCEPT !.path = Root, !.mode = "path"]
      [] s.mode = "path"  -> [s EXCEPT !.mode = IF x.t = "." THEN "prop" ELSE IF x.t = ".." THEN "dprop" ELSE "br"]
      [] s.mode = "prop"  -> [s EXCEPT !.path = Pair("child", @, Property(x)), !.mode = "path"]
      [] s.mode = "dprop" -> [s EXCEPT !.path = Pair("descendant", @, Property(x)), !.mode = "path"]
      [] s.mode = "br" ->
            (CASE x.t = "*"   -> [s EXCEPT !.part = Star, !.mode = "close"]
              [] x.t = "?"   -> [s EXCEPT !.mode = "open"]
              [] x.t = ":"   -> [s EXCEPT !.lo = None, !.mode = "hi"]
              [] x.t = "-"   -> [s EXCEPT !.neg = TRUE, !.extra = TRUE]
              [] x.t = "num" -> [s EXCEPT !.lo = Number(x.v, s.neg), !.neg = FALSE, !.mode = "lo"]
              [] x.t = "str" -> [s EXCEPT !.lo = String(x.v), !.mode = "list", !.extra = TRUE]
              [] x.t = "("   -> [s EXCEPT !.ops = <<"script">>, !.mode = "operand", !.extra = TRUE])
      [] s.mode = "lo" /\ x.t = ":" -> [s EXCEPT !.mode = "hi"]
      [] s.mode = "item" -> IF x.t = "-" THEN [s EXCEPT !.neg = TRUE]
                            ELSE [s EXCEPT !.lo = Pair("child", @, IF x.t = "num" THEN Number(x.v, s.neg) ELSE String(x.v)),
                                           !.neg = FALSE, !.mode = "list"]
      [] s.mode \in {"lo", "list"} -> IF x.t = "," THEN [s EXCEPT !.mode = "item", !.extra = TRUE]
                          ELSE [s EXCEPT !.path = Pair("bracket", @, s.lo), !.lo = None, !.mode = "path"]
      [] s.mode = "hi" ->
            (CASE x.t = "-"   -> [s EXCEPT !.neg = TRUE, !.extra = TRUE]
              [] x.t = "num" -> [s EXCEPT !.part = Pair("range", s.lo, Number(x.v, s.neg)), !.lo = None, !.neg = FALSE, !.mode = "close"]
              [] x.t = "]"   -> [s EXCEPT !.path = Pair("bracket", @, Pair("range", s.lo, None)), !.lo = None, !.mode = "path"])
      [] s.mode = "close" -> [s EXCEPT !.path = Pair("bracket", @, s.part), !.part = None, !.mode = "path"]
      [] s.mode = "open"  -> [s EXCEPT !.ops = <<"(">>, !.mode = "operand"]
      [] s.mode = "operand" ->
            (CASE x.t = "@"   -> Operand(s, Ref)
              [] x.t = "num" -> Operand(s, Number(x.v, s.neg))
              [] x.t = "str" -> Operand(s, String(x.v))
              [] x.t = "-"   -> [s EXCEPT !.neg = TRUE]
              [] OTHER       -> [s EXCEPT !.ops = Append(@, x.t)])
      [] s.mode = "operator" ->
            (CASE x.t = "."  -> [s EXCEPT !.mode = "eprop", !.extra = @ \/ Last(s.vals).t \in {"number", "string"}]
              [] x.t = ".." -> [s EXCEPT !.mode = "edprop", !.extra = @ \/ Last(s.vals).t \in {"number", "string"}]
              [] x.t = ")"  -> LET r == ReduceTo(s, 1)
                                   o == Front(r.ops)
                               IN  IF o = <<>>
                                   THEN [r EXCEPT !.ops = <<>>, !.part = Pair(IF Last(r.ops) = "script" THEN "script" ELSE "filter", r.vals[1], None),
                                                  !.vals = <<>>, !.mode = "close"]
                                   ELSE [r EXCEPT !.ops = o]
              [] OTHER      -> LET r == ReduceTo(s, Strength(x.t))
                               IN  [r EXCEPT !.ops = Append(@, x.t), !.mode = "operand"])
      [] s.mode \in {"eprop", "edprop"} ->
            [s EXCEPT !.vals = Append(Front(@), Pair(IF s.mode = "eprop" THEN "child" ELSE "descendant", Last(@), Property(x))),
                      !.mode = "operator"]

Complete(s) == s.mode = "path"
Broken == [mode |-> "broken", extra |-> FALSE]
Parse(toks) == FoldLeft(LAMBDA s, x : IF s.mode # "broken" /\ x.t \in Expects(s) THEN ParseStep(s, x) ELSE Broken, ParseInit, toks)

(* A text is a sentence if the parser reads all of it, and a query if it is in the documented syntax *)
TreeOfQuery(text) == Parse(Scan(text)).path
IsSentence(text) == Complete(Parse(Scan(text)))
IsQuery(text) == LET c == Scanned(text)
                     s == Parse(c.toks)
                 IN  c.unknown = 0 /\ Complete(s) /\ ~s.extra
=============================================================================
