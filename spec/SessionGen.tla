----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* Client histories.  The abstract session of Session.tla with two         *)
(* objects, of the same or of different classes, two parameters each, two  *)
(* values a parameter, and a note of what an object was asked since its    *)
(* last change (an implementation may keep something from then).  TLC      *)
(* visits every abstract state and prints, for every transition out of it, *)
(* one history that ends with it; the harness binds classes, parameters    *)
(* and values and replays the history on the real objects.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Long       \* Long: print only histories of full depth (for simulation)

VARIABLES obj, hist
vars == <<obj, hist>>
H == 1..2
Slots == 1..2
Vals == 0..1
Asked == {"price", "greek"}
Queries == Asked \cup {"vol", "report", "params"}

Nil == [k |-> 0]
Init == obj = [h \in H |-> Nil] /\ hist = << >>
Live(h) == obj[h].k # 0
Act(a, o) ==
    /\ hist' = Append(hist, a)
    /\ obj' = o
    /\ Long => (Len(hist') = Depth => PrintT("@H" \o ToJson(hist')))
    /\ ~Long => PrintT("@H" \o ToJson(hist'))
NewObj(h, k, v) ==
    /\ ~Live(h) /\ (h = 1 => k = 1) /\ (h = 2 => Live(1))
    /\ Act([a |-> "new", h |-> h, k |-> k, v |-> v], [obj EXCEPT ![h] = [k |-> k, v |-> v, f |-> {}]])
SetTo(h, x, y) ==
    /\ Live(h)
    /\ Act([a |-> "set", h |-> h, x |-> x, y |-> y], [obj EXCEPT ![h] = [@ EXCEPT !.v[x] = y, !.f = {}]])
Ask(h, q) ==
    /\ Live(h)
    /\ Act([a |-> "ask", h |-> h, q |-> q], [obj EXCEPT ![h].f = @ \cup ({q} \cap Asked)])
Refuse(h) == Live(h) /\ Act([a |-> "refuse", h |-> h], obj)
CopyTo(h, g) ==
    /\ Live(h) /\ ~Live(g)
    /\ Act([a |-> "copy", h |-> h, g |-> g], [obj EXCEPT ![g] = obj[h]])
\* the name of a dropped object is used again (an implementation might remember it)
Drop(h) == h = 2 /\ Live(h) /\ Long /\ Act([a |-> "drop", h |-> h], [obj EXCEPT ![h] = Nil])

Next ==
    /\ Len(hist) < Depth
    /\ \E h \in H :
          \/ \E k \in 1..2, v \in [Slots -> Vals] : NewObj(h, k, v)
          \/ \E x \in Slots, y \in Vals : SetTo(h, x, y)
          \/ \E q \in Queries : Ask(h, q)
          \/ Refuse(h)
          \/ \E g \in H : CopyTo(h, g)
          \/ Drop(h)
Spec == Init /\ [][Next]_vars

\* what an object may remember is about its present parameters only; objects keep apart
TypeOK == \A h \in H : Live(h) => obj[h].f \subseteq Asked
ChangeForgets == [][\A h \in H : Live(h) /\ obj'[h].k # 0 /\ obj'[h].v # obj[h].v => obj'[h].f = {}]_vars
OneAtATime == [][\E h \in H : \A g \in H \ {h} : obj'[g] = obj[g]]_vars
View == obj
=============================================================================
