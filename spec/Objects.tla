------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* The option objects of finoptions: which parameters a class has, what    *)
(* constructing an object, changing a parameter and copying do to the      *)
(* abstract state, and which queries it answers.                           *)
(*                                                                         *)
(* An object's abstract state is [c |-> class, p |-> parameters]: a        *)
(* function from parameter names to tagged values.  Nothing else: an       *)
(* answer is a function of class, parameters, query and arguments.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* tagged values: [k |-> "num", v |-> fixed point], [k |-> "int", n], [k |-> "str", s], [k |-> "none", x |-> 0], ...
None == [k |-> "none", x |-> 0]
Str(s) == [k |-> "str", s |-> s]
Int_(n) == [k |-> "int", n |-> n]

GBSFamily == {"GBSOption", "BlackScholesOption", "Black76Option"}
Trees1 == {"CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption"}
Trees2 == {"BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption"}
NoArrays == {"RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"}
Classes == GBSFamily \cup Trees1 \cup Trees2 \cup NoArrays
           \cup {"MiltersenSchwartzOption", "SpreadApproxOption", "HestonNandiOption"}

Two == <<"S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2">>
\* parameters in the order of get_params()
Params(c) ==
    CASE c \in {"GBSOption", "BlackScholesOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"}
           -> <<"S", "K", "t", "r", "b", "sigma">>
      [] c = "Black76Option" -> <<"FT", "K", "t", "r", "b", "sigma">>
      [] c = "MiltersenSchwartzOption" -> <<"Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF",
                                            "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF">>
      [] c = "RollGeskeWhaleyOption" -> <<"S", "K", "t", "td", "r", "D", "sigma">>
      [] c \in Trees1 -> <<"S", "K", "t", "r", "b", "sigma", "type", "n">>
      [] c = "SpreadApproxOption" -> Two
      [] c = "BionomialSpreadAllTypes" -> <<"S1", "S2", "K", "K2", "t", "r", "b1", "b2", "sigma1", "sigma2",
                                            "rho", "Q1", "Q2", "option", "otype", "n">>
      [] c \in Trees2 -> Two \o <<"otype", "n">>
      [] OTHER -> <<"S", "K", "t", "r", "lamb", "omega", "alpha", "beta", "gamma">>
ParamSet(c) == ToSet(Params(c))

Default(c, x) ==
    CASE x = "sigma" -> None
      [] x \in {"Q1", "Q2"} -> Int_(1)
      [] x \in {"type", "otype"} -> Str("european")
      [] x = "n" -> Int_(5)
      [] x = "option" -> Int_(1)
      [] x \in {"K", "K2"} /\ c = "BionomialSpreadAllTypes" -> None
      [] x = "b" /\ c = "Black76Option" -> Int_(0)
      [] x \in {"lamb", "omega", "alpha", "beta", "gamma"} /\ c = "HestonNandiOption" -> None
      [] OTHER -> [k |-> "missing", x |-> 0]

Required(c) == {x \in ParamSet(c) : \/ Default(c, x).k = "missing"
                                    \/ x = "sigma" /\ c \in Trees1}
IsArr(v) == v.k = "arr" /\ Len(v.a) > 1

\* does the class accept these constructor arguments (a record name -> value)?
Accepts(c, args) ==
    /\ DOMAIN args \subseteq ParamSet(c) \ (IF c = "Black76Option" THEN {"b"} ELSE {})
    /\ Required(c) \subseteq DOMAIN args
    /\ c \in NoArrays => \A x \in DOMAIN args : ~IsArr(args[x])
New(c, args) == [c |-> c, p |-> [x \in ParamSet(c) |-> IF x \in DOMAIN args THEN args[x] ELSE Default(c, x)]]

\* set_param: a name the class does not know, or an array where none is allowed, is refused
\* and changes nothing.  The futures price of Black76 also answers to "S".
Slot(o, x) == IF o.c = "Black76Option" /\ x = "S" THEN "FT" ELSE x
SetOK(o, x, v) == Slot(o, x) \in ParamSet(o.c) /\ ~(o.c \in NoArrays /\ IsArr(v))
Set(o, x, v) == IF SetOK(o, x, v) THEN [o EXCEPT !.p[Slot(o, x)] = v] ELSE o

---------------------------------------------------------------------------
HasPut(c) == c # "RollGeskeWhaleyOption"
Greeks(c) ==
    CASE c = "MiltersenSchwartzOption" -> {"delta", "theta", "vega", "lambda", "gamma"}
      [] c \in GBSFamily -> {"delta", "theta", "vega", "rho", "lambda", "gamma", "CofC"}
      [] OTHER -> {"delta", "theta", "vega", "rho", "lambda", "gamma"}
MethodOf(key) == CASE key = "lambda" -> "lamb" [] key = "CofC" -> "c_of_c" [] OTHER -> key
\* queries that need a volatility
NeedSigma == {"call", "put", "delta", "theta", "vega", "rho", "lamb", "gamma", "c_of_c", "greeks"}
\* what reports call the class
Title(c) ==
    CASE c \in {"GBSOption", "BlackScholesOption"} -> "Black Scholes Option"
      [] c = "Black76Option" -> "Black 1977 Option"
      [] c = "MiltersenSchwartzOption" -> "Miltersen Schwartz Option"
      [] c = "RollGeskeWhaleyOption" -> "Roll-Geske-Whaley Calls on Dividend Paying Stocks"
      [] c = "BAWAmericanApproxOption" -> "Barone-Adesi and Whaley Approximation"
      [] c = "BSAmericanApproxOption" -> "The Bjerksund and Stensland (1993) American Approximation Option"
      [] c = "CRRBinomialTreeOption" -> "CRR Binomial Tree Model"
      [] c = "JRBinomialTreeOption" -> "JR Binomial Tree Model"
      [] c = "TIANBinomialTreeOption" -> "TIAN Binomial Tree Model"
      [] c = "TrinomialTreeOption" -> "Trinomial Tree Model"
      [] c = "SpreadApproxOption" -> "Spread-Option Approximation Model"
      [] c = "BionomialSpreadAllTypes" -> "Rubinstein Binomial Tree Spread Option Model"
      [] c = "BionomialMaxOption" -> "Binomial Tree Maximum Spread Option Model"
      [] c = "BionomialMinOption" -> "Binomial Tree Minimum Spread Option Model"
      [] c = "BionomialSpreadOption" -> "Binomial Tree Spread Option Model"
      [] OTHER -> "The Heston-Nandi Garch Option Model"
=============================================================================
