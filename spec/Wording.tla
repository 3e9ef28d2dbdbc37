------------------------------ MODULE Wording ------------------------------
(***************************************************************************)
(* How requests may be put.  Every constructor, method and function takes  *)
(* its arguments by place or by name, and what is left out has its         *)
(* documented default.  A session says what is meant; the recorder notes   *)
(* the wording it used, and Faithful says that it means the same.          *)
(***************************************************************************)
EXTENDS Objects, FixNum

Places(f) ==
    CASE f = "Black76Option" -> <<"FT", "K", "t", "r", "sigma">>
      [] f = "BionomialSpreadAllTypes" ->
           <<"S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "K2", "Q1", "Q2", "option", "otype", "n">>
      [] f \in Classes -> Params(f)
      [] f = "set_param" -> <<"x", "value">>
      [] f \in {"call", "put"} -> <<"tree">>
      [] f \in {"delta", "theta", "rho", "lamb"} -> <<"call", "method">>
      [] f \in {"vega", "gamma"} -> <<"method">>
      [] f \in {"greeks", "c_of_c"} -> <<"call">>
      [] f = "volatility of RGW" -> <<"price", "tol", "maxiter", "verbose">>
      [] f = "volatility" -> <<"price", "call", "tol", "maxiter", "verbose">>
      [] f = "summary" -> <<"printer">>
      [] f = "plot" -> <<"call", "dx", "dy", "size", "digits">>
      [] f = "MonteCarloOption" -> <<"mc_loops", "path_length", "mc_paths", "S", "K", "t", "r", "b", "sigma",
                                     "Innovation", "Path", "Payoff", "trace", "antithetic", "standardization", "eps">>
      [] f = "NormalSobolInnovations" -> <<"mc_paths", "path_length", "eps">>
      [] f = "sample_innovation" -> <<"scramble">>
      [] f = "WienerPath" -> <<"epsilon", "sigma", "dt", "b">>
      [] f = "payoff" -> <<"path", "S", "K", "t", "r", "b", "sigma">>
      [] f = "hngarch_sim" -> <<"lamb", "omega", "alpha", "beta", "gamma", "rf", "n", "n_start", "inno", "inno_start">>
      [] f = "hngarch_fit" -> <<"x", "lamb", "omega", "alpha", "beta", "gamma", "rf", "symmetric", "trace">>

True_ == [k |-> "bool", b |-> TRUE]
False_ == [k |-> "bool", b |-> FALSE]
Garch == {"hngarch_sim", "hngarch_fit"}
\* what an argument is when it is left out
Unsaid(f, x) ==
    CASE f \in Garch /\ x \in {"symmetric", "trace"} -> True_
      [] f \in Garch /\ x \in {"gamma", "rf", "n_start"} -> Int_(0)
      [] f \in Garch /\ x = "n" -> Int_(500)
      [] f \in Garch /\ x \in {"lamb", "beta"} -> [k |-> "num", v |-> IF x = "lamb" THEN FRat(-1, 2) ELSE FRat(1, 10)]
      [] f \in Classes -> Default(f, x)
      [] x \in {"call", "printer", "scramble"} -> True_
      [] x \in {"tree", "verbose", "trace", "antithetic", "standardization"} -> False_
      [] x = "method" -> Str("analytic")
      [] x = "digits" -> Int_(2)
      [] x = "size" -> Int_(12)
      [] x = "maxiter" -> Int_(10000)

Same(a, b) == IF a.k = "num" /\ b.k = "num" THEN FLe(FAbs(FSub(a.v, b.v)), FTiny(16)) ELSE a = b
Faithful(w) == /\ IsPrefix(w.pos, Places(w.f))
               /\ \A x \in DOMAIN w.left : Same(w.left[x], Unsaid(w.f, x)) /\ x \in ToSet(Places(w.f)) \ ToSet(w.pos)
=============================================================================
