----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* Where a text may be cut: in front of a complete string token that is a  *)
(* member name or an array element.  A reader that starts there is in      *)
(* front of a token, and knows whether it reads a name or a value.         *)
(***************************************************************************)
EXTENDS JSONText, FiniteSets, FiniteSetsExt

(* number i of characters in front of a legal boundary *)
Boundaries(str) ==
    LET toks == Lex(str)
        n == Len(toks)
    IN  {toks[i].s - 1 : i \in {j \in 2..n :
            \/ toks[j].t = "k"
            \/ /\ toks[j].t = "p" /\ Ch(toks[j].v, 1) = "\""
               /\ toks[j - 1].t \in {",", "["}}}

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o x, "", ss)

(* number of characters in front of chunk k *)
Offset(chunks, k) == FoldLeft(LAMBDA a, i : a + Len(chunks[i]), 0, Iota(k - 1))

(* chunks is a legal partition of the text into at most n chunks *)
Legal(text, n, chunks) ==
    /\ Len(chunks) >= 1
    /\ Len(chunks) <= n
    /\ Concat(chunks) = text
    /\ LET b == Boundaries(text)
       IN  \A k \in 2..Len(chunks) : Offset(chunks, k) \in b

(* the pieces of a bounded load: bound is the number of bytes that may be loaded at a time;
   a piece that would end inside of a token is continued up to the next boundary *)
LegalPieces(text, bound, pieces) ==
    /\ Concat(pieces) = text
    /\ \A k \in 1..Len(pieces) : Len(pieces[k]) > 0
    /\ LET b == Boundaries(text)
       IN  \A k \in 1..Len(pieces) :
              LET from == Offset(pieces, k)
                  to == from + Len(pieces[k])
              IN  /\ k > 1 => from \in b
                  /\ \A x \in b : x >= from + bound => to <= x
=============================================================================
