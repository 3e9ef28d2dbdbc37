------------------------------ MODULE Lattice ------------------------------
(* Recombining lattices: one factor (binomial, trinomial) and two factors.  *)
(* A layer is the sequence of values at one time step, lowest asset first.  *)
(* "Backward induction" is one action per layer in LatticeTrace and         *)
(* LatticeDesign; the root operators here fold the same layer step.         *)
EXTENDS Models

\* sequence x^0, x^1, .., x^n
Powers(x, n) == FoldLeft(LAMBDA acc, i : Append(acc, FMul(acc[i], x)), <<F1>>, Idx(n))
Dt(p) == FDivInt(p.t, p.n)

\* [br |-> branches (2 or 3), ratio, low, prob |-> probabilities lowest first, df]
\* The asset at step j, position i (0-based, lowest first) is S low^j ratio^i.
Params1(c, p) ==
    LET dt == Dt(p)
        sd == FMul(p.sigma, FSqrt(dt))
        df == Disc(p.r, dt)
        bin(u, d, pu) == [br |-> 2, ratio |-> FDiv(u, d), low |-> d, prob |-> <<FSub(F1, pu), pu>>, df |-> df]
    IN  CASE c = "CRRBinomialTreeOption" ->
               LET u == Exp(sd) d == Exp(FNeg(sd))
               IN  bin(u, d, FDiv(FSub(Exp(FMul(p.b, dt)), d), FSub(u, d)))
          [] c = "JRBinomialTreeOption" ->
               LET m == FMul(FSub(p.b, FDivInt(FSqr(p.sigma), 2)), dt)
               IN  bin(Exp(FAdd(m, sd)), Exp(FSub(m, sd)), FHalf)
          [] c = "TIANBinomialTreeOption" ->
               LET M == Exp(FMul(p.b, dt))
                   V == Exp(FMul(FSqr(p.sigma), dt))
                   q == FSqrt(FSub(FAdd(FSqr(V), FMulInt(V, 2)), FInt(3)))
                   h == FDivInt(FMul(M, V), 2)
                   u == FMul(h, FAdd(FAdd(V, F1), q))
                   d == FMul(h, FSub(FAdd(V, F1), q))
               IN  bin(u, d, FDiv(FSub(M, d), FSub(u, d)))
          [] c = "TrinomialTreeOption" ->
               \* two half steps of a CRR tree
               LET s2 == FMul(p.sigma, FSqrt(FDivInt(dt, 2)))
                   u == Exp(s2) d == Exp(FNeg(s2))
                   a == FDiv(FSub(Exp(FDivInt(FMul(p.b, dt), 2)), d), FSub(u, d))
                   pu == FSqr(a) pd == FSqr(FSub(F1, a))
               IN  [br |-> 3, ratio |-> FSqr(u), low |-> FSqr(d),
                    prob |-> <<pd, FSub(FSub(F1, pu), pd), pu>>, df |-> df]

Width(L, j) == (L.br - 1) * j + 1
\* Powers of the ratio, up and down, as many as a layer of step n needs.  A layer is laid out from its
\* middle, S low^j ratio^c with ratio^c low^j near 1, so that the fixed point loses no digits to low^j.
Pw(L, n) == [up |-> Powers(L.ratio, (L.br - 1) * n), down |-> Powers(FDiv(F1, L.ratio), (L.br - 1) * n)]
\* asset prices of layer j, given those powers
Assets(L, S, pw, j) ==
    LET c == IF L.br = 3 THEN j ELSE j \div 2
        step == IF L.br = 3 THEN FMul(L.low, L.ratio) ELSE FMul(FSqr(L.low), L.ratio)
        odd == IF L.br = 2 /\ j % 2 = 1 THEN L.low ELSE F1
        base == FMul(S, FMul(odd, FPowInt(step, c)))
    IN  [i \in 1..Width(L, j) |-> FMul(base, IF i > c THEN pw.up[i - c] ELSE pw.down[c - i + 2])]
Exercise(K, z, a) == FZ(z, FSub(a, K))
Terminal(L, p, z, pw) == LET a == Assets(L, p.S, pw, p.n)
                         IN  [i \in 1..Len(a) |-> Pos(Exercise(p.K, z, a[i]))]
Continue(L, v, i) ==
    FMul(L.df, IF L.br = 2 THEN FAdd(FMul(L.prob[1], v[i]), FMul(L.prob[2], v[i+1]))
               ELSE FAdd(FMul(L.prob[1], v[i]), FAdd(FMul(L.prob[2], v[i+1]), FMul(L.prob[3], v[i+2]))))
\* layer j from layer j + 1
Back(L, p, z, pw, v, j) ==
    IF p.type = "american"
    THEN LET a == Assets(L, p.S, pw, j)
         IN  [i \in 1..Width(L, j) |-> FMax(Exercise(p.K, z, a[i]), Continue(L, v, i))]
    ELSE [i \in 1..Width(L, j) |-> Continue(L, v, i)]
Root1(c, p, z) ==
    LET L == Params1(c, p)
        pw == Pw(L, p.n)
    IN  FoldLeft(LAMBDA v, k : Back(L, p, z, pw, v, p.n - k), Terminal(L, p, z, pw), Idx(p.n))[1]
\* discounted forward of the lattice itself: what call - put must be
Forward1(c, p) ==
    LET L == Params1(c, p)
        g == FMul(L.low, FoldLeft(LAMBDA acc, i : FAdd(acc, FMul(L.prob[i], FPowInt(L.ratio, i - 1))), F0, Idx(L.br)))
    IN  FSub(FMul(p.S, FPowInt(FMul(g, L.df), p.n)), FMul(p.K, FPowInt(L.df, p.n)))

---------------------------------------------------------------------------
(* Two assets (Rubinstein): every move has probability 1/4.                 *)
(* p.option is 1..9; K and K2 are present where the payoff uses them.       *)
Payoff2(o, z, x, y, p) ==     \* x = Q1 S1, y = Q2 S2
    CASE o = 1 -> Pos(FZ(z, FSub(FSub(x, y), p.K)))
      [] o = 2 -> Pos(FZ(z, FSub(FMax(x, y), p.K)))
      [] o = 3 -> Pos(FZ(z, FSub(FMin(x, y), p.K)))
      [] o = 4 -> FMax(Pos(FZ(z, FSub(x, p.K))), Pos(FZ(z, FSub(y, p.K2))))
      [] o = 5 -> FMax(Pos(FZ(z, FSub(x, p.K))), Pos(FZ(z, FSub(p.K2, y))))
      [] o = 6 -> Pos(FZ(z, FSub(FAdd(x, y), p.K)))
      [] o = 7 -> Pos(FZ(z, FSub(y, x)))
      [] o = 8 -> Pos(FZ(z, FSub(FDiv(x, y), p.K)))
      [] o = 9 -> Pos(FZ(z, FSub(FMul(x, y), p.K)))
(* Node (j, i) of layer m: S1 = S1 u^j d^(m-j); the log of S2 moves by
   sigma2 (rho Y1 + sqrt(1 - rho^2) Y2) with Y1 = (2j-m) sqrt dt, Y2 = (2i-m) sqrt dt *)
Params2(p) ==
    LET dt == Dt(p)
        sq == FSqrt(dt)
        m1 == FMul(FSub(p.b1, FDivInt(FSqr(p.sigma1), 2)), dt)
        m2 == FMul(FSub(p.b2, FDivInt(FSqr(p.sigma2), 2)), dt)
        e == FMul(FMul(p.sigma2, p.rho), sq)
        f == FMul(FMul(p.sigma2, FSqrt(FSub(F1, FSqr(p.rho)))), sq)
        s1 == FMul(p.sigma1, sq)
    IN  [low1 |-> Exp(FSub(m1, s1)), r1 |-> Powers(Exp(FMulInt(s1, 2)), p.n),
         low2 |-> Exp(FSub(FSub(m2, e), f)), rj |-> Powers(Exp(FMulInt(e, 2)), p.n),
         ri |-> Powers(Exp(FMulInt(f, 2)), p.n), df |-> Disc(p.r, dt)]
Pay2Layer(L, p, z, m) ==
    LET b1 == FMul(FMul(p.Q1, p.S1), FPowInt(L.low1, m))
        b2 == FMul(FMul(p.Q2, p.S2), FPowInt(L.low2, m))
    IN  [j \in 1..(m+1) |->
            LET x == FMul(b1, L.r1[j])  y0 == FMul(b2, L.rj[j])
            IN  [i \in 1..(m+1) |-> Payoff2(p.option, z, x, FMul(y0, L.ri[i]), p)]]
Back2(L, p, z, v, m) ==
    LET q == FDivInt(L.df, 4)
        cont(j, i) == FMul(q, FAdd(FAdd(v[j][i], v[j+1][i]), FAdd(v[j][i+1], v[j+1][i+1])))
        pay == Pay2Layer(L, p, z, m)
    IN  IF p.otype = "american"
        THEN [j \in 1..(m+1) |-> [i \in 1..(m+1) |-> FMax(cont(j, i), pay[j][i])]]
        ELSE [j \in 1..(m+1) |-> [i \in 1..(m+1) |-> cont(j, i)]]
Root2(p, z) ==
    LET L == Params2(p)
    IN  FoldLeft(LAMBDA v, k : Back2(L, p, z, v, p.n - k), Pay2Layer(L, p, z, p.n), Idx(p.n))[1][1]
Intrinsic2(p, z) == Payoff2(p.option, z, FMul(p.Q1, p.S1), FMul(p.Q2, p.S2), p)
\* one-step lattice mean of X1^a X2^c, and the discounted parity value for the linear payoffs
Mean2(p, a, c) ==
    LET L == Params2(p)
        pa(x) == IF a = 1 THEN x ELSE F1
        pc(x) == IF c = 1 THEN x ELSE IF c = -1 THEN FDiv(F1, x) ELSE F1
        mv(j, i) == FMul(pa(FMul(L.low1, L.r1[j])), pc(FMul(FMul(L.low2, L.rj[j]), L.ri[i])))
        g == FDivInt(FAdd(FAdd(mv(1,1), mv(1,2)), FAdd(mv(2,1), mv(2,2))), 4)
        x0 == FMul(p.Q1, p.S1)  y0 == FMul(p.Q2, p.S2)
    IN  FMul(FMul(pa(x0), pc(y0)), FPowInt(g, p.n))
Forward2(p) ==
    LET e == CASE p.option = 1 -> FSub(FSub(Mean2(p, 1, 0), Mean2(p, 0, 1)), p.K)
               [] p.option = 6 -> FSub(FAdd(Mean2(p, 1, 0), Mean2(p, 0, 1)), p.K)
               [] p.option = 7 -> FSub(Mean2(p, 0, 1), Mean2(p, 1, 0))
               [] p.option = 8 -> FSub(Mean2(p, 1, -1), p.K)
               [] p.option = 9 -> FSub(Mean2(p, 1, 1), p.K)
    IN  FMul(Disc(p.r, p.t), e)
=============================================================================
