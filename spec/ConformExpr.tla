---------------------------- MODULE ConformExpr ----------------------------
(***************************************************************************)
(* Values of filter expressions computed by the real evaluator, for given  *)
(* texts of the members (<<>> if a member is absent).                      *)
(***************************************************************************)
EXTENDS Conform, FilterExpr

ValueText(t) ==
    IF t = <<>> THEN Null
    ELSE LET c == Ch(t[1], 1)
         IN  ValueOf([k |-> IF c = "{" THEN "o" ELSE IF c = "[" THEN "a" ELSE "p", v |-> t[1]])

Want(x) == Truth(EvalExpr(x.e, [p \in VarsOf(x.e) |->
                LET i == {j \in 1..Len(x.env) : x.env[j].p = p}
                IN  IF i = {} THEN Null ELSE ValueText(x.env[CHOOSE j \in i : TRUE].v)]))

Verdict(r) ==
    LET n == Len(r.exprs)
        want == [i \in 1..n |-> Want(r.exprs[i])]
    IN  IF /\ Len(r.ev) = n + 1
           /\ r.ev[n + 1].e = "end" /\ r.ev[n + 1].st = "ok"
           /\ \A i \in 1..n : /\ r.ev[i].e = "val"
                              /\ r.exprs[i].text = ExprText(r.exprs[i].e)
                              /\ r.ev[i].v = want[i]
                              /\ r.ev[i].again = want[i]
        THEN <<>>
        ELSE <<[want |-> want]>>

Init == ConformInit
Next == Consume(Verdict)
Spec == Init /\ [][Next]_cvars
=============================================================================
