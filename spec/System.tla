------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The system as its users see it: processors (one per query), learned     *)
(* constraint tables and streaming contexts live in one process, and       *)
(* calls on them come in any order.                                        *)
(*                                                                         *)
(*   procs[h]   <<q>> if processor h exists and holds query q, else <<>>   *)
(*   tables[t]  <<q>> if table t was learned for query q                   *)
(*   ctxs[c]    <<[q, doc, fed, kind]>> if context c is open: the query    *)
(*              and the document it has been fed with so far, and whether  *)
(*              it is fed serially or in parallel (q, doc, kind are <<>>   *)
(*              before the first piece)                                    *)
(*                                                                         *)
(* Every action has a guard that says when the call is allowed, the        *)
(* successor state, and the results the call returns.  Guards, results and *)
(* successors are operators of their own (Can, Answer, After), used by the *)
(* state machine MCSystem.tla, which generates histories, and by           *)
(* ConformSystem.tla, which follows recorded ones.                         *)
(*                                                                         *)
(* A document is given by its text; a piece is the text from behind the    *)
(* last piece (ctx.fed) to a new position (op.to).                         *)
(***************************************************************************)
EXTENDS JSONPath

Handles == 0..7

SysInit == [procs  |-> [h \in Handles |-> <<>>],
            tables |-> [h \in Handles |-> <<>>],
            ctxs   |-> [h \in Handles |-> <<>>]]

Fresh == [q |-> <<>>, doc |-> "", fed |-> 0, kind |-> ""]

(* The results that are known when the characters up to fed have been read: the element has
   ended, and so has the outermost filtered object around it. *)
Known(doc, q, fed) ==
    LET sel == SelectSeq(Selected(Documents(doc), q), LAMBDA x : x[2] <= fed /\ x[3] <= fed)
    IN  [i \in 1..Len(sel) |-> Text(doc, sel[i][1], sel[i][2])]

(* A document may be cut behind character i: not inside of a token. *)
MayCut(doc, i) == LET toks == Lex(doc) IN \A k \in 1..Len(toks) : ~(toks[k].s <= i /\ i < toks[k].e)

FeedKind(op) == IF op.op = "feed" THEN "serial" ELSE "parallel"
IsFeed(op) == op.op \in {"feed", "pfeed", "ofeed"}

(* May the call be made? *)
Can(s, op) ==
    CASE op.op = "create"   -> s.procs[op.h] = <<>>
      [] op.op = "free"     -> s.procs[op.h] # <<>>
      [] op.op = "bound"    -> TRUE
      [] op.op \in {"serial", "parallel"} -> s.procs[op.h] # <<>>
      [] op.op = "learn"    -> s.procs[op.h] # <<>>
      [] op.op = "opt"      -> s.procs[op.h] # <<>> /\ s.tables[op.t] = s.procs[op.h]
      [] op.op = "open"     -> s.ctxs[op.c] = <<>>
      [] op.op = "close"    -> s.ctxs[op.c] # <<>>
      [] IsFeed(op) ->
            /\ s.ctxs[op.c] # <<>> /\ s.procs[op.h] # <<>>
            /\ LET x == s.ctxs[op.c][1]
               IN  /\ x.kind = "" \/ (x.kind = FeedKind(op) /\ <<x.q>> = s.procs[op.h] /\ x.doc = op.doc)
                   /\ op.to > x.fed
            /\ MayCut(op.doc, op.to)
            /\ op.op = "ofeed" => s.tables[op.t] = s.procs[op.h]
      [] OTHER -> FALSE

(* What it returns; <<>> for calls without results *)
Answer(s, op) ==
    CASE op.op \in {"serial", "parallel", "opt"} -> Results(op.doc, s.procs[op.h][1])
      [] IsFeed(op) -> Known(op.doc, s.procs[op.h][1], op.to)
      [] OTHER -> <<>>

(* The state afterwards.  Runs change nothing. *)
After(s, op) ==
    CASE op.op = "create" -> [s EXCEPT !.procs[op.h] = <<op.q>>]
      [] op.op = "free"   -> [s EXCEPT !.procs[op.h] = <<>>]
      [] op.op = "learn"  -> [s EXCEPT !.tables[op.t] = s.procs[op.h]]
      [] op.op = "open"   -> [s EXCEPT !.ctxs[op.c] = <<Fresh>>]
      [] op.op = "close"  -> [s EXCEPT !.ctxs[op.c] = <<>>]
      [] IsFeed(op)       -> [s EXCEPT !.ctxs[op.c] = <<[q |-> s.procs[op.h][1], doc |-> op.doc,
                                                        fed |-> op.to, kind |-> FeedKind(op)]>>]
      [] OTHER -> s
=============================================================================
