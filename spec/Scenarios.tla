----------------------------- MODULE Scenarios -----------------------------
(***************************************************************************)
(* The regimes each pricing model distinguishes, as a product of short     *)
(* lists of representative parameters.  TLC visits every combination, as   *)
(* one state each: it checks the model itself there (Sound) and prints the *)
(* combination; the harness prices it with the real code, and around it.   *)
(***************************************************************************)
EXTENDS Relations, Json

CONSTANT Family, Want, Seed         \* about Want combinations are kept, which ones depends on Seed

VARIABLES pt, out
vars == <<pt, out>>

R(p, q) == <<p, q>>
\* dimension: <<name, values>>; a value is an integer, a rational <<p, q>> or a string
Dims ==
    CASE Family = "gbs" -> <<
           <<"S", <<100>>>>,
           <<"K", <<R(50, 1), R(85, 1), R(99, 1), R(100, 1), R(115, 1), R(220, 1)>>>>,
           <<"t", <<R(1, 252), R(1, 12), R(1, 2), R(1, 1), R(5, 1)>>>>,
           <<"r", <<R(-1, 100), R(0, 1), R(5, 100), R(12, 100)>>>>,
           <<"b", <<R(-4, 100), R(0, 1), R(5, 100), R(9, 100)>>>>,
           <<"sigma", <<R(5, 100), R(20, 100), R(90, 100)>>>> >>
      [] Family = "ms" -> <<
           <<"Pt", <<R(99, 100), R(85, 100)>>>>, <<"FT", <<R(95, 1)>>>>, <<"K", <<R(60, 1), R(95, 1), R(120, 1)>>>>,
           <<"t", <<R(1, 12), R(1, 4), R(1, 1)>>>>, <<"T", <<R(1, 1), R(3, 2), R(4, 1)>>>>,
           <<"sigmaS", <<R(15, 100), R(45, 100)>>>>, <<"sigmaE", <<R(1, 100), R(30, 100)>>>>, <<"sigmaF", <<R(1, 100), R(20, 100)>>>>,
           <<"rhoSE", <<R(-3, 10), R(8, 10)>>>>, <<"rhoSF", <<R(-2, 10), R(3, 10)>>>>, <<"rhoEF", <<R(-4, 10), R(5, 10)>>>>,
           <<"KappaE", <<R(5, 10), R(2, 1)>>>>, <<"KappaF", <<R(2, 10), R(13, 10)>>>> >>
      [] Family = "two" -> <<
           <<"S1", <<R(100, 1), R(140, 1)>>>>, <<"S2", <<R(60, 1), R(105, 1)>>>>, <<"K", <<R(0, 1), R(5, 1), R(30, 1)>>>>,
           <<"t", <<R(1, 10), R(1, 1)>>>>, <<"r", <<R(0, 1), R(6, 100)>>>>, <<"b1", <<R(-3, 100), R(0, 1), R(8, 100)>>>>,
           <<"b2", <<R(-2, 100), R(4, 100)>>>>, <<"sigma1", <<R(20, 100), R(45, 100)>>>>, <<"sigma2", <<R(15, 100), R(35, 100)>>>>,
           <<"rho", <<R(-9, 10), R(0, 1), R(6, 10)>>>>, <<"Q1", <<R(1, 1), R(3, 2)>>>>, <<"Q2", <<R(1, 1), R(7, 10)>>>> >>
      [] Family = "rgw" -> <<
           <<"S", <<R(60, 1), R(80, 1), R(95, 1), R(130, 1)>>>>, <<"K", <<R(80, 1), R(100, 1)>>>>,
           <<"t", <<R(1, 4), R(1, 1)>>>>, <<"tdfrac", <<R(1, 10), R(1, 2), R(9, 10)>>>>, <<"r", <<R(1, 100), R(6, 100), R(15, 100)>>>>,
           <<"D", <<R(1, 2), R(4, 1), R(12, 1)>>>>, <<"sigma", <<R(10, 100), R(30, 100), R(60, 100)>>>> >>
      [] Family = "american" -> <<
           <<"S", <<100>>>>, <<"K", <<R(70, 1), R(95, 1), R(100, 1), R(110, 1), R(150, 1)>>>>,
           <<"t", <<R(1, 20), R(1, 2), R(2, 1)>>>>, <<"r", <<R(2, 100), R(8, 100), R(12, 100)>>>>,
           <<"b", <<R(-6, 100), R(-1, 100), R(0, 1), R(3, 100), R(8, 100), R(10, 100)>>>>, <<"sigma", <<R(12, 100), R(25, 100), R(60, 100)>>>> >>
      [] Family = "tree" -> <<
           <<"S", <<100>>>>, <<"K", <<R(80, 1), R(100, 1), R(125, 1)>>>>,
           <<"t", <<R(1, 4), R(2, 1)>>>>, <<"r", <<R(0, 1), R(5, 100), R(10, 100)>>>>,
           \* the last carry with the first volatility: probabilities outside [0, 1]
           <<"b", <<R(-4, 100), R(0, 1), R(5, 100), R(30, 100)>>>>, <<"sigma", <<R(6, 100), R(15, 100), R(50, 100)>>>>,
           <<"type", <<"european", "american">>>>, <<"n", <<1, 2, 3, 5, 8>>>>,
           <<"cls", <<"CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption">>>> >>
      [] Family = "tree2" -> <<
           <<"S1", <<R(122, 1)>>>>, <<"S2", <<R(120, 1)>>>>, <<"K", <<R(3, 1), R(110, 1)>>>>, <<"K2", <<R(105, 1)>>>>,
           <<"t", <<R(1, 10), R(1, 1)>>>>, <<"r", <<R(10, 100)>>>>, <<"b1", <<R(0, 1), R(7, 100)>>>>, <<"b2", <<R(-2, 100)>>>>,
           <<"sigma1", <<R(20, 100)>>>>, <<"sigma2", <<R(15, 100), R(40, 100)>>>>, <<"rho", <<R(-1, 2), R(6, 10)>>>>,
           <<"Q1", <<R(1, 1), R(13, 10)>>>>, <<"Q2", <<R(1, 1)>>>>, <<"option", <<1, 2, 3, 4, 5, 6, 7, 8, 9>>>>,
           <<"otype", <<"european", "american">>>>, <<"n", <<1, 2, 4>>>> >>
      [] Family = "hn" -> <<
           <<"S", <<100>>>>, <<"K", <<R(90, 1), R(100, 1), R(108, 1)>>>>, <<"t", <<1, 2, 7, 30>>>>,
           <<"r", <<R(0, 1), R(5, 36500)>>>>, <<"lamb", <<R(-1, 2), R(4, 1)>>>>, <<"omega", <<R(8, 100000), R(1, 1000000)>>>>,
           <<"alpha", <<R(6, 100000), R(1, 1000000)>>>>, <<"beta", <<R(1, 10), R(6, 10)>>>>, <<"gamma", <<R(0, 1), R(40, 1)>>>> >>
      [] OTHER -> << >>

Card == FoldLeft(LAMBDA acc, d : acc * Len(d[2]), 1, Dims)
\* mixed-radix digits of k
Digits(k) == FoldLeft(LAMBDA acc, d : <<Append(acc[1], d[2][(acc[2] % Len(d[2])) + 1]), acc[2] \div Len(d[2])>>, << <<>>, k>>, Dims)[1]
Point(k) == LET dg == Digits(k) IN [x \in {Dims[i][1] : i \in DOMAIN Dims} |->
                dg[CHOOSE i \in DOMAIN Dims : Dims[i][1] = x]]
Name(i) == Dims[i][1]
StrDims == {"type", "otype", "cls"}
IntDims == {"n", "option"}
Val(x, v) == IF x \in StrDims \/ x \in IntDims \/ (Family = "hn" /\ x = "t") THEN v
             ELSE IF x = "S" /\ Family \in {"gbs", "american", "tree", "hn"} THEN FInt(v) ELSE FRat(v[1], v[2])
\* the point as model parameters
P(k) == LET q == Point(k) IN [x \in DOMAIN q |-> Val(x, q[x])]

Every == Max2(1, Card \div Want)
\* a multiplicative shuffle spreads a thinned selection over the product
Stride == CHOOSE s \in {7919, 7907, 7901} : TRUE
Shuffle(i) == (i * Stride) % Card

Init == pt \in {i \in 0..(Card - 1) : i % Every = Seed % Every} /\ out = FALSE
Emit == /\ ~out /\ out' = TRUE /\ UNCHANGED pt
        /\ PrintT("@PT" \o ToJson(Point(Shuffle(pt))))
Next == Emit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The model itself: clauses <<name, violation>>, where a violation is a    *)
(* number that must not be positive.                                       *)
Ab(nm, x, tol) == <<nm, FSub(FAbs(x), tol)>>              \* |x| <= tol
Ge(nm, x, y, tol) == <<nm, FSub(FSub(y, x), tol)>>        \* x >= y - tol
SoundGBS(p) ==
    LET c == GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, 1)
        u == GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, -1)
        fs == FMul(p.S, Disc(FSub(p.r, p.b), p.t))  fk == FMul(p.K, Disc(p.r, p.t))
        pde(z) == FSub(FAdd(FAdd(GTheta(p.S, p.K, p.t, p.r, p.b, p.sigma, z),
                                 FDivInt(FMul(FSqr(FMul(p.sigma, p.S)), GGamma(p.S, p.K, p.t, p.r, p.b, p.sigma)), 2)),
                            FMul(FMul(p.b, p.S), GDelta(p.S, p.K, p.t, p.r, p.b, p.sigma, z))),
                       FMul(p.r, GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, z)))
        tol == Eps(14)
    IN  << Ab("parity", FSub(FSub(c, u), FSub(fs, fk)), tol),
           Ge("call>=0", c, F0, tol), Ge("put>=0", u, F0, tol), Ge("call<=forward", fs, c, tol), Ge("put<=strike", fk, u, tol),
           Ge("call>=intrinsic", c, FSub(fs, fk), tol), Ge("put>=intrinsic", u, FSub(fk, fs), tol),
           Ab("pde call", pde(1), Eps(12)), Ab("pde put", pde(-1), Eps(12)) >>
SoundMS(p) ==
    IF FGt(p.t, p.T) \/ FLe(MSVar(p), F0) THEN << >>
    ELSE << Ab("parity", FSub(FSub(MS(p, 1), MS(p, -1)), MSForward(p)), Eps(14)),
            Ge("call>=0", MS(p, 1), F0, Eps(14)), Ge("put>=0", MS(p, -1), F0, Eps(14)) >>
\* the spread of two assets: parity, bounds, and the exchange option when K = 0
SoundTwo(p) ==
    LET c == Kirk(p, 1)  u == Kirk(p, -1)
    IN  << Ab("parity", FSub(FSub(c, u), ForwardOf("SpreadApproxOption", p)), Eps(13)),
           Ge("call>=0", c, F0, Eps(14)), Ge("put>=0", u, F0, Eps(14)) >>
        \o (IF p.K[1] = 0 THEN << Ab("exchange call", FSub(c, Margrabe(p, 1)), Eps(13)), Ab("exchange put", FSub(u, Margrabe(p, -1)), Eps(13)) >>
            ELSE << >>)
SoundRGW(p0) ==
    LET p == [td |-> FMul(p0.tdfrac, p0.t)] @@ p0
        Sx == FSub(p.S, FMul(p.D, Disc(p.r, p.td)))
        e == GBS(Sx, p.K, p.t, p.r, p.r, p.sigma, 1)
        v == RGW(p)
    IN  << Ge("european", v, e, Eps(9)),
           IF RGWOptimal(p) THEN Ge("exercise", v, GBS(Sx, p.K, p.td, p.r, p.r, p.sigma, 1), FMul(p.D, F1))
           ELSE Ab("not optimal", FSub(v, e), Eps(20)),
           Ge("bound", p.S, v, F0) >>
SoundAmerican(p) ==
    LET one(z) == LET v == BAW(p, z)
                  IN  << Ge("european", v, GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, z), Eps(12)),
                         Ge("intrinsic", v, FZ(z, FSub(p.S, p.K)), Eps(12)),
                         Ge("bound", FMul(FAdd(p.S, p.K), Exp(FMul(FAbs(p.b), p.t))), v, F0) >>
        \* value matching and smooth pasting at the critical price
        paste(z) == LET q == BAWQ(p, z)  x == BAWCritical(p, z)
                        a == FZ(z, FDiv(FMul(x, BAWSlope(p, x, z)), q))
                    IN  << Ab("match", FSub(FAdd(GBS(x, p.K, p.t, p.r, p.b, p.sigma, z), a), FZ(z, FSub(x, p.K))), FMul(p.K, Eps(11))),
                           Ab("paste", FSub(FAdd(GDelta(x, p.K, p.t, p.r, p.b, p.sigma, z), FDiv(FMul(a, q), x)), FInt(z)), Eps(11)) >>
        trig(z) == LET a == BSArgs(p, z)
                   IN  IF ~BSEuropean(p, z) /\ FGt(FAdd(FMul(a.b, p.t), FMulInt(FMul(p.sigma, FSqrt(p.t)), 2)), F0)
                       THEN << Ge("trigger", BS93(p, z)[2], a.K, F0) >> ELSE << >>
    IN  one(1) \o one(-1) \o (IF FLt(p.b, p.r) THEN paste(1) ELSE << >>) \o paste(-1) \o trig(1) \o trig(-1)
SoundTree(p) ==
    LET L == Params1(p.cls, p)
        v(ty, z) == Root1(p.cls, [p EXCEPT !.type = ty], z)
        e1 == v("european", 1)  e2 == v("european", -1)  a1 == v("american", 1)  a2 == v("american", -1)
    IN  << Ab("probabilities", FSub(FSum(L.prob), F1), Eps(20)),
           Ab("parity", FSub(FSub(e1, e2), Forward1(p.cls, p)), Eps(13)) >>
        \* all but JR grow at the cost of carry exactly
        \o (IF p.cls # "JRBinomialTreeOption"
            THEN << Ab("martingale", FSub(Forward1(p.cls, p), FSub(FMul(p.S, Disc(FSub(p.r, p.b), p.t)), FMul(p.K, Disc(p.r, p.t)))), Eps(12)) >>
            ELSE << >>)
        \o (IF \E i \in DOMAIN L.prob : L.prob[i][1] < 0 THEN << >>
            ELSE << Ge("american call", a1, e1, Eps(15)), Ge("american put", a2, e2, Eps(15)),
                    Ge("intrinsic call", a1, FSub(p.S, p.K), F0), Ge("intrinsic put", a2, FSub(p.K, p.S), F0) >>
              \* without dividends a call is not exercised early
              \o (IF FGe(p.b, p.r) /\ p.cls # "JRBinomialTreeOption" THEN << Ab("no early exercise", FSub(a1, e1), Eps(13)) >> ELSE << >>))
SoundTree2(p) ==
    LET v(ty, z) == Root2([p EXCEPT !.otype = ty], z)
        e1 == v("european", 1)  e2 == v("european", -1)  a1 == v("american", 1)  a2 == v("american", -1)
    IN  << Ge("american call", a1, e1, F0), Ge("american put", a2, e2, F0), Ge("intrinsic", a1, Intrinsic2(p, 1), F0) >>
        \o (IF p.option \in {1, 6, 7, 8, 9} THEN << Ab("parity", FSub(FSub(e1, e2), Forward2(p)), Eps(11)) >> ELSE << >>)
SoundHN(p) ==
    IF FGe(FAdd(p.beta, FMul(p.alpha, FSqr(HNq(p).gamma))), F1) THEN << >>
    ELSE LET c == HN(p, 1)
         IN  << Ge("lower", c, FMax(F0, HNForward(p)), Eps(9)), Ge("upper", p.S, c, Eps(9)),
                Ge("gamma", HNGamma(p), F0, Eps(9)), Ge("delta", F1, HNDelta(p, 1), Eps(9)) >>
             \* one day ahead the variance is known: Black-Scholes
             \o (IF p.t = 1 THEN << Ab("one day", FSub(c, GBS(p.S, p.K, F1, p.r, p.r, FSqrt(HNVar(HNq(p))), 1)), Eps(9)) >> ELSE << >>)
Clauses ==
    LET p == P(Shuffle(pt))
    IN  CASE Family = "gbs" -> SoundGBS(p) [] Family = "ms" -> SoundMS(p) [] Family = "two" -> SoundTwo(p)
          [] Family = "rgw" -> SoundRGW(p) [] Family = "american" -> SoundAmerican(p)
          [] Family = "tree" -> SoundTree(p) [] Family = "tree2" -> SoundTree2(p) [] Family = "hn" -> SoundHN(p)
Sound == out \/ LET cl == Clauses
                IN  \A i \in DOMAIN cl : FLe(cl[i][2], F0) \/ (PrintT("@SOUND" \o ToJson([pt |-> Point(Shuffle(pt)), n |-> cl[i][1], v |-> cl[i][2]])) /\ FALSE)
=============================================================================
