------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks sessions recorded from the real code.  Every session is one      *)
(* initial state and is followed line by line; the session state (heap) is *)
(* computed by the operators of Objects, every query is judged.            *)
(***************************************************************************)
EXTENDS Judgement, Json, IOUtils

CONSTANTS Prop
Verbose == "VERBOSE" \in DOMAIN IOEnv
Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, line, heap, log, cnt, bad
vars == <<sid, line, heap, log, cnt, bad>>

Init == /\ sid \in DOMAIN Sessions
        /\ line = 1 /\ heap = << >> /\ log = << >> /\ cnt = 0 /\ bad = 0
Ev == Sessions[sid].ev
Entry(o, e) == [c |-> o.c, p |-> o.p, m |-> e.m, q |-> e.q, r |-> e.r]

\* verdicts of an event and the heap after it
Outcome(e) ==
    CASE e.a = "new" ->
           IF Accepts(e.c, e.p)
           THEN [heap |-> (e.h :> New(e.c, e.p)) @@ heap, v |-> JAccepted(e)]
           ELSE [heap |-> heap, v |-> JRefused(e)]
      [] e.a = "set" ->
           IF SetOK(heap[e.h], e.x, e.v)
           THEN [heap |-> [heap EXCEPT ![e.h] = Set(heap[e.h], e.x, e.v)], v |-> JAccepted(e)]
           ELSE [heap |-> heap, v |-> JRefused(e)]
      [] e.a = "copy" -> [heap |-> (e.g :> heap[e.h]) @@ heap, v |-> JAccepted(e)]
      [] e.a = "call" -> [heap |-> heap, v |-> JCall(Prop, Entry(heap[e.h], e), log)]
      [] e.a = "fn" -> [heap |-> heap, v |-> JFunction(Prop, IF "h" \in DOMAIN e THEN [c |-> heap[e.h].c, p |-> heap[e.h].p] @@ e ELSE e, log)]
      \* the caller overwrites an array of e.h: what e.h answers then is nobody's business
      [] e.a = "poke" -> [heap |-> [h \in DOMAIN heap \ {e.h} |-> heap[h]], v |-> << >>]
      [] e.a = "kept" -> [heap |-> heap, v |-> << Truth("arrays of the caller", \A i \in DOMAIN e.arrays : e.arrays[i].was = e.arrays[i].is, e.arrays) >>]
      [] e.a = "rel" -> [heap |-> heap, v |-> JRelation(Prop, e, log)]

NextEntry(e) == IF e.a = "call" THEN Entry(heap[e.h], e)
                ELSE IF e.a = "fn" THEN e ELSE [c |-> e.a]

Step ==
    /\ line <= Len(Ev)
    /\ LET e == Ev[line]
           o == IF "put" \in DOMAIN e /\ \E i \in DOMAIN e.put : ~Faithful(e.put[i])
                THEN [heap |-> heap, v |-> <<Truth("malformed", FALSE, e.put)>>]
                ELSE Attempt(Outcome(e), [heap |-> heap, v |-> <<Truth("cannot be judged", FALSE, e)>>])
           nb == FoldLeft(LAMBDA acc, v :
                    IF v.ok /\ ~Verbose THEN acc ELSE IF v.ok
                    THEN IF PrintT("@OK" \o ToJson([id |-> Sessions[sid].id, line |-> line, c |-> v.c, got |-> v.got, want |-> v.want, tol |-> v.tol])) THEN acc ELSE acc
                    ELSE IF PrintT("@BAD" \o ToJson([id |-> Sessions[sid].id, line |-> line, c |-> v.c, got |-> v.got, want |-> v.want, tol |-> v.tol])) THEN acc + 1 ELSE acc, 0, o.v)
       IN  /\ heap' = o.heap
           /\ log' = Append(log, Attempt(NextEntry(e), [c |-> "none"]))
           /\ cnt' = cnt + Len(o.v)
           /\ bad' = bad + nb
    /\ line' = line + 1
    /\ UNCHANGED sid
Finish ==
    /\ line = Len(Ev) + 1
    /\ PrintT("@DONE" \o ToJson([id |-> Sessions[sid].id, cnt |-> cnt, bad |-> bad]))
    /\ line' = line + 1
    /\ UNCHANGED <<sid, heap, log, cnt, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* progress is unique per session: no need to look at the rest
View == <<sid, line>>
=============================================================================
