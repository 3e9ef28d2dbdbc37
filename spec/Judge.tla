------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* What an answer of the implementation has to be.  An entry is one        *)
(* recorded query: [c, p, m, q, r] with class, parameters (tagged), method,*)
(* arguments and result; parameters come from the session state, not from  *)
(* the implementation.                                                     *)
(*                                                                         *)
(* A verdict is [c |-> clause, ok, got, want, tol].                        *)
(***************************************************************************)
EXTENDS Objects, Lattice

---------------------------------------------------------------------------
(* numbers *)
IsNum(v) == v.k \in {"num", "int"}
N(v) == IF v.k = "int" THEN FInt(v.n) ELSE v.v
IntPar == {"n", "option"}
Un(c, x, v) == IF x \in IntPar \/ (x = "t" /\ c = "HestonNandiOption") THEN (IF v.k = "int" THEN v.n ELSE FTrunc(v.v))
               ELSE IF IsNum(v) THEN N(v) ELSE IF v.k = "str" THEN v.s
               ELSE IF v.k = "arr" /\ Len(v.a) = 1 THEN N(v.a[1]) ELSE v
\* parameters as numbers
Pars(c, p) == [x \in DOMAIN p |-> Un(c, x, p[x])]
\* element i of array parameters
Size(p) == FoldFunction(LAMBDA v, acc : IF v.k = "arr" THEN Max2(acc, Len(v.a)) ELSE acc, 0, p)
Proj(p, i) == [x \in DOMAIN p |-> IF p[x].k = "arr" THEN p[x].a[IF Len(p[x].a) = 1 THEN 1 ELSE i] ELSE p[x]]

Eps(k) == FTiny(k)
Near(got, want, tol) == FLe(FAbs(FSub(got, want)), tol)
Ver(c, ok, got, want, tol) == [c |-> c, ok |-> ok, got |-> got, want |-> want, tol |-> tol]
Close(c, v, want, tol) == IF IsNum(v) THEN Ver(c, Near(N(v), want, tol), N(v), want, tol)
                          ELSE Ver(c, FALSE, v, want, tol)
Truth(c, ok, info) == Ver(c, ok, info, 0, 0)

---------------------------------------------------------------------------
(* prices *)
OptionNo(c, p) == CASE c = "BionomialMaxOption" -> 2 [] c = "BionomialMinOption" -> 3
                    [] c = "BionomialSpreadOption" -> 1 [] OTHER -> p.option
P2(c, p) == [option |-> OptionNo(c, p)] @@ p
Spot(c, p) == IF c \in {"Black76Option", "MiltersenSchwartzOption"} THEN p.FT ELSE p.S
Carry(c, p) == IF c = "Black76Option" THEN F0 ELSE p.b
Price(c, p, z) ==
    CASE c \in GBSFamily -> GBS(Spot(c, p), p.K, p.t, p.r, Carry(c, p), p.sigma, z)
      [] c = "MiltersenSchwartzOption" -> MS(p, z)
      [] c = "SpreadApproxOption" -> Kirk(p, z)
      [] c = "RollGeskeWhaleyOption" -> RGW(p)
      [] c = "BAWAmericanApproxOption" -> BAW(p, z)
      [] c = "BSAmericanApproxOption" -> BS93(p, z)[1]
      [] c \in Trees1 -> Root1(c, p, z)
      [] c \in Trees2 -> Root2(P2(c, p), z)
      [] OTHER -> HN(p, z)
\* money at stake: the size prices of this class have
Money(c, p) ==
    CASE c \in GBSFamily -> FAdd(FMul(Spot(c, p), Disc(FSub(p.r, Carry(c, p)), p.t)), FMul(p.K, Disc(p.r, p.t)))
      [] c = "MiltersenSchwartzOption" -> FMul(p.Pt, FAdd(p.FT, p.K))
      [] c = "SpreadApproxOption" -> FAdd(FMul(FMul(p.Q1, p.S1), Disc(FSub(p.r, p.b1), p.t)), KirkBase(p))
      [] c \in Trees2 -> LET x == FMul(p.Q1, p.S1) y == FMul(p.Q2, p.S2)
                           IN  IF OptionNo(c, p) = 9 THEN FSum(<<x, y, FMul(x, y)>>) ELSE FAdd(FAdd(x, y), FAbs(p.K))
      [] OTHER -> FAdd(p.S, p.K)
\* how far the implementation's arithmetic may be from the model (its normal
\* distribution has absolute error 7.5e-8, its solvers stop at 1e-6 K, quadrature at 1.5e-8)
Rel(c) ==
    CASE c \in GBSFamily \cup {"MiltersenSchwartzOption", "SpreadApproxOption"} -> FMulInt(Eps(7), 2)
      [] c = "RollGeskeWhaleyOption" -> FMulInt(Eps(6), 3)
      [] c = "BAWAmericanApproxOption" -> FMulInt(Eps(6), 3)
      [] c = "BSAmericanApproxOption" -> Eps(9)
      [] c \in Trees1 \cup Trees2 -> Eps(9)
      [] OTHER -> FMulInt(Eps(7), 2)
(* A lattice whose "probabilities" leave [0, 1] amplifies rounding: the worst
   case is the largest terminal value times the absolute weights. *)
Amplified(c, p) ==
    IF c \notin Trees1 THEN F0
    ELSE LET L == Params1(c, p)
         IN  IF \A i \in DOMAIN L.prob : L.prob[i][1] >= 0 THEN F0
             ELSE LET w == FMul(L.df, FoldLeft(LAMBDA acc, x : FAdd(acc, FAbs(x)), F0, L.prob))
                      top == FMul(FPowInt(L.low, p.n), FPowInt(L.ratio, (L.br - 1) * p.n))
                  IN  FMul(FMul(Eps(13), FPowInt(FMax(w, F1), p.n)), FAdd(FMul(p.S, FMax(top, F1)), p.K))
PriceTolZ(c, p, z) ==
    IF c = "BSAmericanApproxOption"
    THEN IF BSEuropean(p, z) THEN FMul(FMulInt(Eps(7), 2), Money("GBSOption", p))
         ELSE FAdd(FMul(Eps(9), Money(c, p)), BS93Noise(p, z))
    ELSE FAdd(FAdd(FMul(Rel(c), Money(c, p)), Eps(12)), Amplified(c, p))
PriceTol(c, p) == IF c = "BSAmericanApproxOption" THEN FMax(PriceTolZ(c, p, 1), PriceTolZ(c, p, -1)) ELSE PriceTolZ(c, p, 1)

\* the value a call()/put() answers with, as a number
PriceOf(v) == IF v.k = "dict" THEN v.d.OptionPrice ELSE v
Z(m) == IF m = "put" THEN -1 ELSE 1

\* one verdict, or one per element for array parameters
Elementwise(e, J(_, _)) ==        \* J(p, v): verdicts for parameters p (numbers) and result v
    LET n == Size(e.p)
    IN  IF n <= 1 THEN J(Pars(e.c, e.p), e.r)
        ELSE IF e.r.k # "arr" \/ Len(e.r.a) # n THEN <<Truth("shape", FALSE, e.r)>>
        ELSE FoldLeft(LAMBDA acc, i : acc \o J(Pars(e.c, Proj(e.p, i)), e.r.a[i]), <<>>, Idx(n))

JPrice(e) ==
    Elementwise(e, LAMBDA p, v :
        <<Close("price", PriceOf(v), Price(e.c, p, Z(e.m)), PriceTolZ(e.c, p, Z(e.m)))>>)

---------------------------------------------------------------------------
(* closed-form greeks of the GBS family *)
GArg(q) == IF "call" \in DOMAIN q /\ ~q.call.b THEN -1 ELSE 1
CNDErr == FMulInt(Eps(7), 2)
JGreek(e) ==
    Elementwise(e, LAMBDA p, v :
      LET S == Spot(e.c, p)  K == p.K  t == p.t  r == p.r  b == Carry(e.c, p)  s == p.sigma
          z == GArg(e.q)
          eb == Disc(FSub(r, b), t)  er == Disc(r, t)
          money == Money(e.c, p)
          tiny(w) == FAdd(FMul(FAbs(w), Eps(9)), Eps(12))
      IN  CASE e.m = "delta" -> <<Close("delta", v, GDelta(S, K, t, r, b, s, z), FMul(eb, CNDErr))>>
            [] e.m = "gamma" -> LET w == GGamma(S, K, t, r, b, s) IN <<Close("gamma", v, w, tiny(w))>>
            [] e.m = "vega" -> LET w == GVega(S, K, t, r, b, s) IN <<Close("vega", v, w, tiny(w))>>
            [] e.m = "theta" ->
                 LET w == GTheta(S, K, t, r, b, s, z)
                 IN  <<Close("theta", v, w, FAdd(FMul(CNDErr, FAdd(FMul(FMul(FAbs(FSub(b, r)), S), eb), FMul(FMul(FAbs(r), K), er))), tiny(w)))>>
            [] e.m = "rho" -> <<Close("rho", v, GRho(S, K, t, r, b, s, z), FAdd(FMul(FMul(CNDErr, money), t), Eps(12)))>>
            [] e.m = "c_of_c" -> <<Close("c_of_c", v, GCofC(S, K, t, r, b, s, z), FAdd(FMul(FMul(CNDErr, money), t), Eps(12)))>>
            [] e.m = "lamb" ->
                 LET pr == GBS(S, K, t, r, b, s, z)
                     tp == PriceTol(e.c, p)
                     w == FDiv(FMul(GDelta(S, K, t, r, b, s, z), S), pr)
                 IN  IF FLt(pr, FMul(money, Eps(5))) THEN <<>>       \* relative accuracy is lost below this
                     ELSE <<Close("lamb", v, w, FMulInt(FDiv(FAdd(FMul(FMul(S, eb), CNDErr), FMul(FAbs(w), tp)), pr), 2))>>
            [] OTHER -> <<>>)
GreekMethods == {"delta", "gamma", "vega", "theta", "rho", "c_of_c", "lamb"}
IsAnalytic(e) == e.c \in GBSFamily /\ e.m \in GreekMethods /\ ("method" \notin DOMAIN e.q \/ e.q.method.s = "analytic")
=============================================================================
