------------------------------- MODULE Models -------------------------------
(* What each pricing model means, over RealMath.  z is 1 for a call and -1  *)
(* for a put.  Parameters are FixNum values unless said otherwise.          *)
EXTENDS RealMath

FZ(z, x) == IF z = 1 THEN x ELSE FNeg(x)
Pos(x) == FMax(x, F0)
Disc(r, t) == Exp(FNeg(FMul(r, t)))

---------------------------------------------------------------------------
(* Generalised Black-Scholes: cost of carry b *)
D1(S, K, t, b, s) ==
    FDiv(FAdd(Ln(FDiv(S, K)), FMul(FAdd(b, FDivInt(FSqr(s), 2)), t)), FMul(s, FSqrt(t)))
GBS(S, K, t, r, b, s, z) ==
    LET d1 == D1(S, K, t, b, s)
        d2 == FSub(d1, FMul(s, FSqrt(t)))
    IN  FZ(z, FSub(FMul(FMul(S, Disc(FSub(r, b), t)), Phi(FZ(z, d1))),
                   FMul(FMul(K, Disc(r, t)), Phi(FZ(z, d2)))))

GDelta(S, K, t, r, b, s, z) == FZ(z, FMul(Disc(FSub(r, b), t), Phi(FZ(z, D1(S, K, t, b, s)))))
GGamma(S, K, t, r, b, s) ==
    FDiv(FMul(Disc(FSub(r, b), t), Pdf(D1(S, K, t, b, s))), FMul(FMul(S, s), FSqrt(t)))
GVega(S, K, t, r, b, s) ==
    FMul(FMul(FMul(S, Disc(FSub(r, b), t)), Pdf(D1(S, K, t, b, s))), FSqrt(t))
\* minus the derivative in t
GTheta(S, K, t, r, b, s, z) ==
    LET d1 == D1(S, K, t, b, s)
        d2 == FSub(d1, FMul(s, FSqrt(t)))
        fs == FMul(S, Disc(FSub(r, b), t))
    IN  FSub(FSub(FNeg(FDiv(FMul(FMul(fs, Pdf(d1)), s), FMulInt(FSqrt(t), 2))),
                  FZ(z, FMul(FMul(FSub(b, r), fs), Phi(FZ(z, d1))))),
             FZ(z, FMul(FMul(FMul(r, K), Disc(r, t)), Phi(FZ(z, d2)))))
\* b # 0: the carry moves with the rate; b = 0: a future, only discounting
GRho(S, K, t, r, b, s, z) ==
    IF b[1] = 0 THEN FNeg(FMul(t, GBS(S, K, t, r, b, s, z)))
    ELSE FZ(z, FMul(FMul(FMul(t, K), Disc(r, t)),
                    Phi(FZ(z, FSub(D1(S, K, t, b, s), FMul(s, FSqrt(t)))))))
\* derivative in the cost of carry
GCofC(S, K, t, r, b, s, z) == FMul(FMul(t, S), GDelta(S, K, t, r, b, s, z))

---------------------------------------------------------------------------
(* Miltersen-Schwartz commodity futures option *)
MSVar(p) ==
    LET t == p.t  T == p.T
        g1(k) == FDiv(FMul(Disc(k, T), FSub(Exp(FMul(k, t)), F1)), k)     \* int e^{-k(T-u)}
        h(k) == FSub(t, g1(k))
        cross(k, l) == FAdd(FSub(FSub(t, g1(k)), g1(l)), g1(FAdd(k, l)))
        aE == FDiv(p.sigmaE, p.KappaE)  aF == FDiv(p.sigmaF, p.KappaF)
    IN  FSum(<< FMul(FSqr(p.sigmaS), t),
                FMulInt(FMul(p.sigmaS, FSub(FMul(FMul(aF, p.rhoSF), h(p.KappaF)),
                                            FMul(FMul(aE, p.rhoSE), h(p.KappaE)))), 2),
                FMul(FSqr(aE), cross(p.KappaE, p.KappaE)),
                FMul(FSqr(aF), cross(p.KappaF, p.KappaF)),
                FNeg(FMulInt(FMul(FMul(FMul(aE, aF), p.rhoEF), cross(p.KappaE, p.KappaF)), 2)) >>)
MSCov(p) ==
    LET t == p.t  T == p.T
        kE == p.KappaE  kF == p.KappaF
        j1 == FSub(t, FDiv(FSub(F1, Disc(kF, t)), kF))
        g(k) == FDiv(FMul(Disc(k, T), FSub(Exp(FMul(k, t)), F1)), k)
        m(k) == FDiv(FMul(Disc(k, T), FSub(Exp(FMul(k, t)), Disc(kF, t))), FAdd(k, kF))
        \* int_0^t (1 - e^{-kF (t-u)}) (1 - e^{-k (T-u)}) du
        c(k) == FAdd(FSub(j1, g(k)), m(k))
    IN  FMul(FDiv(p.sigmaF, kF),
             FSub(FAdd(FMul(FMul(p.sigmaS, p.rhoSF), j1), FMul(FDiv(p.sigmaF, kF), c(kF))),
                  FMul(FMul(FDiv(p.sigmaE, kE), p.rhoEF), c(kE))))
MS(p, z) ==
    LET v2 == MSVar(p)  v == FSqrt(v2)  c == MSCov(p)
        m == FSub(Ln(FDiv(p.FT, p.K)), c)
        d1 == FDiv(FAdd(m, FDivInt(v2, 2)), v)
        d2 == FSub(d1, v)
    IN  FMul(p.Pt, FZ(z, FSub(FMul(FMul(p.FT, Exp(FNeg(c))), Phi(FZ(z, d1))), FMul(p.K, Phi(FZ(z, d2))))))
MSForward(p) == FMul(p.Pt, FSub(FMul(p.FT, Exp(FNeg(MSCov(p)))), p.K))

---------------------------------------------------------------------------
(* Kirk's spread approximation: the option exchanges Q1 S1 for Q2 S2 + K *)
KirkBase(p) == FAdd(FMul(FMul(p.Q2, p.S2), Disc(FSub(p.r, p.b2), p.t)), FMul(p.K, Disc(p.r, p.t)))
KirkVol(p) ==
    LET f == FDiv(FMul(FMul(p.Q2, p.S2), Disc(FSub(p.r, p.b2), p.t)), KirkBase(p))
        s2 == FMul(p.sigma2, f)
    IN  FSqrt(FSub(FAdd(FSqr(p.sigma1), FSqr(s2)), FMulInt(FMul(FMul(p.rho, p.sigma1), s2), 2)))
Kirk(p, z) ==
    LET base == KirkBase(p)
        x == FDiv(FMul(FMul(p.Q1, p.S1), Disc(FSub(p.r, p.b1), p.t)), base)
    IN  FMul(base, GBS(x, F1, p.t, F0, F0, KirkVol(p), z))
\* Exchange option (Margrabe): Q1 S1 for Q2 S2
Margrabe(p, z) ==
    LET var == FSub(FAdd(FSqr(p.sigma1), FSqr(p.sigma2)), FMulInt(FMul(FMul(p.rho, p.sigma1), p.sigma2), 2))
        x == FMul(FMul(p.Q1, p.S1), Disc(FSub(p.r, p.b1), p.t))
        k == FMul(FMul(p.Q2, p.S2), Disc(FSub(p.r, p.b2), p.t))
    IN  IF FLt(var, FTiny(10)) THEN FMax(F0, FMulInt(FSub(x, k), z))      \* the same asset twice: only the difference remains
        ELSE GBS(x, k, p.t, F0, F0, FSqrt(var), z)

---------------------------------------------------------------------------
(* Root of a monotone F on [lo, hi] (F(lo), F(hi) of opposite sign): bisection with secant steps *)
RECURSIVE Bisect(_, _, _, _, _, _)
Bisect(F(_), lo, hi, flo, fhi, n) ==
    IF n = 0 \/ flo[1] = 0 THEN lo
    ELSE IF fhi[1] = 0 THEN hi
    ELSE LET w == FSub(hi, lo)
             sec == FSub(lo, FDiv(FMul(flo, w), FSub(fhi, flo)))
             \* two of three steps: secant, nudged inside; otherwise the middle
             mid == IF n % 3 = 0 THEN FDivInt(FAdd(lo, hi), 2)
                    ELSE FMax(FAdd(lo, FDivInt(w, 1000)), FMin(FSub(hi, FDivInt(w, 1000)), sec))
             fm == F(mid)
         IN  IF FLt(w, FMul(hi, FTiny(16))) THEN mid
             ELSE IF fm[1] = flo[1] THEN Bisect(F, mid, hi, fm, fhi, n - 1)
             ELSE Bisect(F, lo, mid, flo, fm, n - 1)
Root(F(_), lo, hi) == Bisect(F, lo, hi, F(lo), F(hi), 90)

(* Roll-Geske-Whaley: American call, one cash dividend D at td *)
RGWOptimal(p) == FGt(p.D, FMul(p.K, FSub(F1, Disc(p.r, FSub(p.t, p.td)))))
RGWBig == FInt(100000000)
RECURSIVE RGWHigh(_, _)
RGWHigh(p, h) ==       \* first doubling of S at which exercise beats holding
    IF FGe(h, RGWBig) THEN h
    ELSE IF FGt(FSub(FAdd(GBS(h, p.K, FSub(p.t, p.td), p.r, p.r, p.sigma, 1), p.K), FAdd(h, p.D)), F0)
         THEN RGWHigh(p, FMulInt(h, 2)) ELSE h
RGW(p) ==
    LET Sx == FSub(p.S, FMul(p.D, Disc(p.r, p.td)))
        eur == GBS(Sx, p.K, p.t, p.r, p.r, p.sigma, 1)
        h == RGWHigh(p, p.S)
    IN  IF FGe(p.D, p.K) THEN FSub(Sx, FMul(FSub(p.K, p.D), Disc(p.r, p.td)))     \* exercise is certain
        ELSE IF ~RGWOptimal(p) \/ FGt(h, RGWBig) THEN eur
        ELSE LET f(x) == FSub(FAdd(GBS(x, p.K, FSub(p.t, p.td), p.r, p.r, p.sigma, 1), p.K), FAdd(x, p.D))
                 I == Root(f, FSub(p.K, p.D), h)     \* f > 0 at K - D
                 a1 == D1(Sx, p.K, p.t, p.r, p.sigma)
                 a2 == FSub(a1, FMul(p.sigma, FSqrt(p.t)))
                 b1 == D1(Sx, I, p.td, p.r, p.sigma)
                 b2 == FSub(b1, FMul(p.sigma, FSqrt(p.td)))
                 rho == FNeg(FSqrt(FDiv(p.td, p.t)))
             IN  FSum(<< FMul(Sx, Phi(b1)),
                         FMul(Sx, Phi2(a1, FNeg(b1), rho)),
                         FNeg(FMul(FMul(p.K, Disc(p.r, p.t)), Phi2(a2, FNeg(b2), rho))),
                         FNeg(FMul(FMul(FSub(p.K, p.D), Disc(p.r, p.td)), Phi(b2))) >>)

(* Barone-Adesi and Whaley; r > 0 *)
BAWQ(p, z) ==
    LET s2 == FSqr(p.sigma)
        n1 == FSub(FDiv(FMulInt(p.b, 2), s2), F1)
        X == FDiv(FMulInt(p.r, 2), FMul(s2, FSub(F1, Disc(p.r, p.t))))
        sq == FSqrt(FAdd(FSqr(n1), FMulInt(X, 4)))
    IN  FDivInt(FSub(FZ(z, sq), n1), 2)
BAWSlope(p, x, z) == FSub(F1, FMul(Disc(FSub(p.r, p.b), p.t), Phi(FZ(z, D1(x, p.K, p.t, p.b, p.sigma)))))
BAWEq(p, q, x, z) ==
    FSub(FZ(z, FSub(x, p.K)),
         FAdd(GBS(x, p.K, p.t, p.r, p.b, p.sigma, z), FZ(z, FDiv(FMul(BAWSlope(p, x, z), x), q))))
RECURSIVE BAWHigh(_, _, _)
BAWHigh(p, q, x) == IF FGe(BAWEq(p, q, x, 1), F0) \/ FGt(x, FMul(p.K, FInt(1000000))) THEN x
                    ELSE BAWHigh(p, q, FMulInt(x, 2))
BAWCritical(p, z) ==
    LET q == BAWQ(p, z)
        f(x) == BAWEq(p, q, x, z)
    IN  IF z = 1 THEN Root(f, p.K, BAWHigh(p, q, FMulInt(p.K, 2)))
        ELSE Root(f, FMul(p.K, FTiny(4)), p.K)
BAW(p, z) ==
    IF z = 1 /\ FGe(p.b, p.r) THEN GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, 1)
    ELSE LET q == BAWQ(p, z)
             x == BAWCritical(p, z)
             a == FZ(z, FDiv(FMul(x, BAWSlope(p, x, z)), q))
         IN  IF FGe(FZ(z, p.S), FZ(z, x)) THEN FZ(z, FSub(p.S, p.K))
             ELSE FAdd(GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, z), FMul(a, Pow(FDiv(p.S, x), q)))

(* Bjerksund and Stensland (1993): flat exercise boundary; <<value, trigger>> *)
BSPhi(S, t, gm, H, I, r, b, s) ==
    LET s2 == FSqr(s)
        lam == FMul(FAdd(FSub(FMul(gm, b), r), FDivInt(FMul(FMul(gm, FSub(gm, F1)), s2), 2)), t)
        sd == FMul(s, FSqrt(t))
        d == FNeg(FDiv(FAdd(Ln(FDiv(S, H)), FMul(FAdd(b, FMul(FSub(gm, FHalf), s2)), t)), sd))
        kap == FAdd(FDiv(FMulInt(b, 2), s2), FSub(FMulInt(gm, 2), F1))
        lIS == Ln(FDiv(I, S))
    IN  FMul(FMul(Exp(lam), Pow(S, gm)),
             FSub(Phi(d), FMul(Exp(FMul(kap, lIS)), Phi(FSub(d, FDiv(FMulInt(lIS, 2), sd))))))
BSBoundary(X, t, r, b, s) ==
    LET s2 == FSqr(s)
        bs == FDiv(b, s2)
        beta == FAdd(FSub(FHalf, bs), FSqrt(FAdd(FSqr(FSub(bs, FHalf)), FDiv(FMulInt(r, 2), s2))))
        Binf == FMul(FDiv(beta, FSub(beta, F1)), X)
        B0 == FMax(X, FMul(FDiv(r, FSub(r, b)), X))
        ht == FNeg(FDiv(FMul(FAdd(FMul(b, t), FMulInt(FMul(s, FSqrt(t)), 2)), B0), FSub(Binf, B0)))
    IN  <<beta, FAdd(B0, FMul(FSub(Binf, B0), FSub(F1, Exp(ht))))>>
BS93Call(S, X, t, r, b, s) ==      \* b < r
    LET bd == BSBoundary(X, t, r, b, s)
        beta == bd[1]  I == bd[2]
        \* (I - X) I^-beta S^beta and the same with phi: scaled by I to stay near one
        y == FDiv(S, I)
        ph(gm, H) == BSPhi(y, t, gm, FDiv(H, I), F1, r, b, s)
        aI == FSub(I, X)
        v == FSum(<< FMul(aI, Pow(y, beta)), FNeg(FMul(aI, ph(beta, I))),
                     FMul(I, ph(F1, I)), FNeg(FMul(I, ph(F1, X))),
                     FNeg(FMul(X, ph(F0, I))), FMul(X, ph(F0, X)) >>)
    IN  IF FGe(S, I) THEN <<FSub(S, X), I>> ELSE <<v, I>>
\* What a normal distribution known to 1e-7 (relative 1e-2 in the tail, 2e-16 at least) leaves uncertain in that
\* value: the power (I/S)^kappa, which multiplies it, can be very large
BSNoiseCall(S, X, t, r, b, s) ==
    LET bd == BSBoundary(X, t, r, b, s)
        I == bd[2]
        y == FDiv(S, I)
        s2 == FSqr(s)
        sd == FMul(s, FSqrt(t))
        lIS == FNeg(Ln(y))
        err(d) == FMin(FTiny(7), FAdd(FMul(FTiny(2), Phi(d)), FTiny(15)))
        n(gm, H) ==
            LET d == FNeg(FDiv(FAdd(Ln(FDiv(y, H)), FMul(FAdd(b, FMul(FSub(gm, FHalf), s2)), t)), sd))
                lam == FMul(FAdd(FSub(FMul(gm, b), r), FDivInt(FMul(FMul(gm, FSub(gm, F1)), s2), 2)), t)
                kap == FAdd(FDiv(FMulInt(b, 2), s2), FSub(FMulInt(gm, 2), F1))
            IN  FMul(FMul(Exp(lam), Pow(y, gm)),
                     FAdd(err(d), FMul(Exp(FMul(kap, lIS)), err(FSub(d, FDiv(FMulInt(lIS, 2), sd))))))
    IN  IF FGe(S, I) THEN F0
        ELSE FSum(<< FMul(FSub(I, X), n(bd[1], F1)), FMul(I, FAdd(n(F1, F1), n(F1, FDiv(X, I)))),
                     FMul(X, FAdd(n(F0, F1), n(F0, FDiv(X, I)))) >>)
\* the put is the call with S and K exchanged, rate r - b and carry -b
BSArgs(p, z) == IF z = 1 THEN [S |-> p.S, K |-> p.K, r |-> p.r, b |-> p.b]
                ELSE [S |-> p.K, K |-> p.S, r |-> FSub(p.r, p.b), b |-> FNeg(p.b)]
BSEuropean(p, z) == LET a == BSArgs(p, z) IN FGe(a.b, a.r)
BS93(p, z) ==
    LET a == BSArgs(p, z)
    IN  IF BSEuropean(p, z) THEN <<GBS(a.S, a.K, p.t, a.r, a.b, p.sigma, 1), F0>>
        ELSE BS93Call(a.S, a.K, p.t, a.r, a.b, p.sigma)
BS93Noise(p, z) ==
    LET a == BSArgs(p, z)
    IN  IF BSEuropean(p, z) THEN F0 ELSE BSNoiseCall(a.S, a.K, p.t, a.r, a.b, p.sigma)

---------------------------------------------------------------------------
(* Heston-Nandi: generating function E[exp(c (log S_T - log S))], c complex; t is a number of days *)
HNVar(p) == FDiv(FAdd(p.omega, p.alpha), FSub(FSub(F1, p.beta), FMul(p.alpha, FSqr(p.gamma))))
\* risk-neutral asymmetry and the variance it implies
HNq(p) == [p EXCEPT !.gamma = FAdd(FAdd(p.gamma, p.lamb), FHalf), !.lamb = FNeg(FHalf)]
\* c: complex; steps: TLC integer; q: risk-neutral parameters; result: E as complex number
HNGen(q, c, steps, r) ==
    LET b1 == CSub(CDivInt2(CMul(c, c)), CDivInt2(c))
        g == q.gamma
        step(acc, i) ==
            LET b == acc[1]
                den == CSub(CReal(F1), CScale(b, FMulInt(q.alpha, 2)))
                cg == CSub(c, CReal(g))
                nb == CAdd(CAdd(CSub(CScale(c, FAdd(q.lamb, g)), CReal(FDivInt(FSqr(g), 2))), CScale(b, q.beta)),
                           CDivInt2(CMul(CMul(cg, cg), CInv(den))))
            IN  <<nb, CAdd(acc[2], CScale(b, q.omega)), CMul(acc[3], CSqrt(den))>>
        f == FoldLeft(step, <<b1, CReal(F0), CReal(F1)>>, Idx(steps - 1))
        expo == CAdd(CAdd(CScale(c, FMulInt(r, steps)), f[2]), CScale(f[1], HNVar(q)))
    IN  CMul(CExp(expo), CInv(f[3]))
(* Gil-Pelaez integrals by the midpoint rule; the integrands are analytic, so the
   rule converges geometrically once U and the period 2 Pi / h cover the density. *)
HNGrid(q, p) ==
    LET v == FSqrt(FMulInt(HNVar(q), p.t))
        m == FAbs(Ln(FDiv(p.S, p.K)))
        \* where the variance of the last days can be far below its mean the integrand dies out late
        size(u) == LET g == HNGen(q, <<F0, u>>, p.t, p.r) IN FAdd(FAbs(g[1]), FAbs(g[2]))
        U == FoldLeft(LAMBDA u, k : IF FGt(size(u), FTiny(10)) THEN FDivInt(FMulInt(u, 3), 2) ELSE u, FDiv(FInt(8), v), Idx(14))
        L == FMulInt(FAdd(FAdd(m, FMulInt(v, 12)), FMulInt(FAbs(p.r), p.t)), 2)
        h == FDiv(TwoPi, L)
        n == FTrunc(FDiv(U, h)) + 1
    IN  <<h, n>>
HNInt(q, p, F(_)) ==
    LET gr == HNGrid(q, p)
    IN  FDiv(FMul(gr[1], FoldLeft(LAMBDA acc, i : FAdd(acc, F(FMul(gr[1], FRat(2*i - 1, 2)))), F0, Idx(gr[2]))), Pi)
HNTerm(q, p, phi, one) ==       \* exp(-i phi log K) E[S_T^{i phi + one}] / S^one
    LET c == <<one, phi>>
        th == FMul(phi, Ln(FDiv(p.S, p.K)))
    IN  CMul(CExp(<<F0, th>>), HNGen(q, c, p.t, p.r))
HNP(p, one) == LET q == HNq(p)
                   F(phi) == FDiv(HNTerm(q, p, phi, one)[2], phi)       \* Re(x / (i phi)) = Im(x) / phi
               IN  HNInt(q, p, F)
HNDisc(p) == Exp(FNeg(FMulInt(p.r, p.t)))
HNDelta(p, z) == LET d == FAdd(FHalf, FMul(HNDisc(p), HNP(p, F1))) IN IF z = 1 THEN d ELSE FSub(d, F1)
HNForward(p) == FSub(p.S, FMul(p.K, HNDisc(p)))
HN(p, z) ==
    LET c == FSub(FMul(p.S, HNDelta(p, 1)), FMul(FMul(p.K, HNDisc(p)), FAdd(FHalf, HNP(p, F0))))
    IN  IF z = 1 THEN c ELSE FSub(c, HNForward(p))
\* by homogeneity gamma is the discounted density of log S_T at log K, times K / S^2
HNGamma(p) == LET q == HNq(p)
                  F(phi) == HNTerm(q, p, phi, F0)[1]
              IN  FDiv(FMul(FMul(p.K, HNDisc(p)), HNInt(q, p, F)), FSqr(p.S))
=============================================================================
