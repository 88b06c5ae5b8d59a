------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* All histories of at most MaxCalls calls on System: processors are       *)
(* created and freed, run serially, in parallel and with learned tables,   *)
(* and streaming contexts are opened, fed and closed in every order that   *)
(* is allowed.  The histories are replayed on the code.                    *)
(*                                                                         *)
(* Names are used in order (the lowest free processor or context is        *)
(* created or opened next), which leaves out histories that differ in the  *)
(* names only.                                                             *)
(*   SETUP   file with one line: [queries, docs, ends]                     *)
(*           queries: sequence of queries; docs: texts; ends[d]: positions *)
(*           up to which document d is fed                                 *)
(***************************************************************************)
EXTENDS System, Json, IOUtils, FiniteSets, FiniteSetsExt

CONSTANTS MaxCalls, NProcs, NCtxs, Cores, Kinds, AtEnd
(* Kinds: the kinds of calls; AtEnd: a history is reported only if its last call is one of these *)

Setup == ndJsonDeserialize(IOEnv.SETUP)[1]
Queries == Setup.queries
Docs == Setup.docs

VARIABLES sys, hist
vars == <<sys, hist>>

Init == sys = SysInit /\ hist = <<>>

Procs == 0..NProcs - 1
Ctxs == 0..NCtxs - 1
D == 1..Len(Docs)

Unused(f, S) == LET u == {x \in S : f[x] = <<>>} IN IF u = {} THEN {} ELSE {Min(u)}

Calls ==
         {[op |-> "create", h |-> h, q |-> Queries[i]] : h \in Unused(sys.procs, Procs), i \in 1..Len(Queries)}
    \cup {[op |-> "free", h |-> h] : h \in Procs}
    \cup {[op |-> "serial", h |-> h, doc |-> Docs[d]] : h \in Procs, d \in D}
    \cup {[op |-> "parallel", h |-> h, n |-> n, doc |-> Docs[d]] : h \in Procs, n \in Cores, d \in D}
    \cup {[op |-> "learn", h |-> h, t |-> 0, doc |-> Docs[d]] : h \in Procs, d \in D}
    \cup {[op |-> "opt", h |-> h, t |-> 0, n |-> n, doc |-> Docs[d]] : h \in Procs, n \in Cores, d \in D}
    \cup {[op |-> "open", c |-> c] : c \in Unused(sys.ctxs, Ctxs)}
    \cup {[op |-> "close", c |-> c] : c \in Ctxs}

FeedCalls(kind) ==
    UNION {LET fed == IF sys.ctxs[c] = <<>> THEN 0 ELSE sys.ctxs[c][1].fed
               later == {e \in Range(Setup.ends[d]) : e > fed}
           IN  IF later = {} THEN {}
               ELSE {[op |-> kind, c |-> c, h |-> h, n |-> 2, t |-> 0, doc |-> Docs[d], from |-> fed, to |-> Min(later)]}
           : <<c, h, d>> \in Ctxs \X Procs \X D}

(* A processor that feeds an open context is not freed. *)
Feeding(h) == \E c \in Ctxs : sys.ctxs[c] # <<>> /\ sys.ctxs[c][1].kind # "" /\ \E i \in 1..Len(hist) :
                 IsFeed(hist[i]) /\ hist[i].c = c /\ hist[i].h = h

Next == /\ Len(hist) < MaxCalls
        /\ \E op \in {x \in Calls \cup FeedCalls("feed") \cup FeedCalls("pfeed") \cup FeedCalls("ofeed") : x.op \in Kinds} :
              /\ Can(sys, op)
              /\ op.op = "free" => ~Feeding(op.h)
              /\ Len(hist) + 1 = MaxCalls => op.op \in AtEnd
              /\ sys' = After(sys, op)
              /\ hist' = Append(hist, op)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Runs leave the system as it is; every other call changes only what it names. *)
Last_ == hist'[Len(hist')]
Separate == [][ /\ Last_.op \in {"serial", "parallel", "opt", "bound"} => sys' = sys
                /\ \A h \in Handles : sys'.procs[h] # sys.procs[h] => Last_.op \in {"create", "free"} /\ Last_.h = h
                /\ \A c \in Handles : sys'.ctxs[c] # sys.ctxs[c] => (Last_.op \in {"open", "close"} \/ IsFeed(Last_)) /\ Last_.c = c
              ]_vars

(* What a context has delivered is never withdrawn, and complete at the end of the document. *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Delivered ==
    \A c \in Ctxs : sys.ctxs[c] # <<>> /\ sys.ctxs[c][1].kind # "" =>
        LET x == sys.ctxs[c][1]
            all == Results(x.doc, x.q)
        IN  /\ Prefix(Known(x.doc, x.q, x.fed), all)
            /\ x.fed = Len(x.doc) => Known(x.doc, x.q, x.fed) = all

Printed == Len(hist) = MaxCalls => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
