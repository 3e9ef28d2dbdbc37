------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The life of option objects in a client session, modelled the way the    *)
(* implementation works: an object keeps its parameters AND values derived *)
(* from them when it was built (d1, d2, forward weights ...), a change     *)
(* re-runs the constructor, a copy is deep, and the finite-difference      *)
(* greeks work on a private copy of the object.                            *)
(*                                                                         *)
(* The properties: derived values always belong to the current parameters; *)
(* objects do not share state; queries do not change anything; a refused   *)
(* change changes nothing; an answer depends on nothing but class,         *)
(* parameters and query.  Trace.tla uses the abstract half (heap, Objects) *)
(* to judge recorded sessions; SessionGen prints histories to replay.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS H,        \* handles
          X,        \* parameter names
          V,        \* values
          Bad,      \* names set_param must refuse
          Depth,    \* bound on the number of steps
          Lazy      \* FALSE: the constructor re-derives; TRUE: a broken design that does not

VARIABLES obj,      \* handle -> Nil or [p |-> X -> V, d |-> X -> V]: parameters, and what the derived values were made from
          spec,     \* handle -> the abstract parameters (what the user asked for) or Nil
          table,    \* observed answers: set of <<parameters, query, answer>>
          step, last
vars == <<obj, spec, table, step, last>>

Nil == [nil |-> TRUE, p |-> << >>, d |-> << >>]
Live(h) == obj[h] # Nil
Ctor(p, d) == [nil |-> FALSE, p |-> p, d |-> IF Lazy /\ d # << >> THEN d ELSE p]
Answer(o, q) == <<q, o.p, o.d>>            \* an answer may use parameters and derived values
Init == /\ obj = [h \in H |-> Nil] /\ spec = [h \in H |-> << >>]
        /\ table = {} /\ step = 0 /\ last = <<"init">>

Create(h) == \E p \in [X -> V] :
    /\ ~Live(h)
    /\ obj' = [obj EXCEPT ![h] = Ctor(p, << >>)] /\ spec' = [spec EXCEPT ![h] = p]
    /\ last' = <<"new", h, p>> /\ UNCHANGED table
SetParam(h, x, v) ==
    /\ Live(h)
    /\ obj' = [obj EXCEPT ![h] = Ctor([obj[h].p EXCEPT ![x] = v], obj[h].d)]
    /\ spec' = [spec EXCEPT ![h] = [spec[h] EXCEPT ![x] = v]]
    /\ last' = <<"set", h, x, v>> /\ UNCHANGED table
Refuse(h, b) ==
    /\ Live(h)
    /\ last' = <<"refuse", h, b>> /\ UNCHANGED <<obj, spec, table>>
Copy(h, g) ==
    /\ Live(h) /\ ~Live(g)
    /\ obj' = [obj EXCEPT ![g] = obj[h]] /\ spec' = [spec EXCEPT ![g] = spec[h]]
    /\ last' = <<"copy", h, g>> /\ UNCHANGED table
Price(h) ==
    /\ Live(h)
    /\ table' = table \cup {<<spec[h], "price", Answer(obj[h], "price")>>}
    /\ last' = <<"read", h, "price">> /\ UNCHANGED <<obj, spec>>
\* a greek: for every bump, a copy is changed and priced
Greek(h, x) ==
    /\ Live(h)
    /\ LET bumped(v) == Ctor([obj[h].p EXCEPT ![x] = v], obj[h].d)
       IN  table' = table \cup {<<spec[h], "greek", {Answer(bumped(v), "price") : v \in V}>>}
    /\ last' = <<"greek", h, x>> /\ UNCHANGED <<obj, spec>>
Stop == step = Depth /\ UNCHANGED vars

Next == \/ /\ step < Depth /\ step' = step + 1
           /\ \E h \in H : \/ Create(h) \/ Price(h)
                           \/ \E x \in X : Greek(h, x) \/ \E v \in V : SetParam(h, x, v)
                           \/ \E b \in Bad : Refuse(h, b)
                           \/ \E g \in H : Copy(h, g)
        \/ Stop
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Coherent == \A h \in H : Live(h) => obj[h].d = obj[h].p /\ obj[h].p = spec[h]
Functional == \A a, b \in table : a[1] = b[1] /\ a[2] = b[2] => (a[2] = "greek" \/ a[3] = b[3])
\* only the object an action names changes, and only creation, change and copy change one
Isolated == [][\A h \in H : obj'[h] # obj[h] =>
                 \/ last'[1] \in {"new", "set"} /\ last'[2] = h
                 \/ last'[1] = "copy" /\ last'[3] = h]_vars
Pure == [][last'[1] \in {"read", "greek", "refuse"} => UNCHANGED <<obj, spec>>]_vars
View == <<obj, spec, table, step>>
=============================================================================
