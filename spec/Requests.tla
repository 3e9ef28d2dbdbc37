------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* Every request a class has to refuse, and its acceptable neighbours:     *)
(* construction and set_param with unknown names, missing arguments,       *)
(* arrays; queries without a volatility.  One state each.  The invariants  *)
(* say what Objects decides about them; the harness replays each one       *)
(* before and after other queries and looks at what is left behind.        *)
(***************************************************************************)
EXTENDS Objects, Json

VARIABLES rq, out
vars == <<rq, out>>

Arr == [k |-> "arr", a |-> <<Int_(1), Int_(2)>>]
One == [k |-> "arr", a |-> <<Int_(1)>>]
AllNames == UNION {ParamSet(c) : c \in Classes}
Full(c) == [x \in (ParamSet(c) \ (IF c = "Black76Option" THEN {"b"} ELSE {})) |-> Int_(1)]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Strange == {"zzz", "s", "_S", ""}
Numeric(c) == ParamSet(c) \ {"type", "otype", "n", "option"}

\* constructor requests: <<kind, name>>; arguments made of them
Args(c, kind, x) ==
    CASE kind = "missing" -> Without(Full(c), x)
      [] kind = "unknown" -> (x :> Int_(1)) @@ Full(c)
      [] kind = "array" -> [Full(c) EXCEPT ![x] = Arr]
      [] kind = "one" -> [Full(c) EXCEPT ![x] = One]
Requests(c) ==
    {[c |-> c, a |-> "new", kind |-> "missing", x |-> x] : x \in DOMAIN Full(c)}
    \cup {[c |-> c, a |-> a, kind |-> "unknown", x |-> x] : a \in {"new", "set"},
             x \in ((AllNames \cup Strange) \ ParamSet(c)) \ (IF c = "Black76Option" THEN {"S"} ELSE {})}
    \cup (IF c \in NoArrays THEN {[c |-> c, a |-> a, kind |-> k, x |-> x] : a \in {"new", "set"}, k \in {"array", "one"}, x \in Numeric(c)} ELSE {})
    \cup (IF c \in GBSFamily THEN {[c |-> c, a |-> "ask", kind |-> "no volatility", x |-> m] : m \in NeedSigma}
                                  \cup {[c |-> c, a |-> "ask", kind |-> "carry", x |-> "rho"]} ELSE {})
WithoutVector == "HestonNandiOption"           \* has no set_param
Init == /\ rq \in UNION {Requests(c) : c \in Classes} /\ ~(rq.c = WithoutVector /\ rq.a = "set") /\ out = FALSE
Emit == ~out /\ PrintT("@RQ" \o ToJson(rq)) /\ out' = TRUE /\ UNCHANGED rq
Next == Emit
Spec == Init /\ [][Next]_vars

Base == New(rq.c, Full(rq.c))
Verdict == CASE rq.a = "new" -> Accepts(rq.c, Args(rq.c, rq.kind, rq.x))
             [] rq.a = "set" -> SetOK(Base, rq.x, CASE rq.kind = "array" -> Arr [] rq.kind = "one" -> One [] OTHER -> Int_(1))
             [] OTHER -> FALSE
\* unknown names, required arguments and arrays are refused, nothing else is
Sound ==
    /\ rq.kind = "unknown" => ~Verdict
    /\ rq.kind = "array" => ~Verdict
    /\ rq.kind = "one" => Verdict
    /\ rq.kind = "missing" => (Verdict <=> rq.x \notin Required(rq.c))
    /\ rq.a = "set" /\ ~Verdict => Set(Base, rq.x, Arr) = Base \/ rq.kind = "unknown"
    /\ rq.kind = "unknown" => Set(Base, rq.x, Int_(1)) = Base
=============================================================================
