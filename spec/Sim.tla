-------------------------------- MODULE Sim --------------------------------
(* Monte Carlo engine, paths, payoffs, innovations (C17-C19); GARCH simulation and fit (C20, C21). *)
EXTENDS Relations, Sobol

Row(mat, i) == mat.m[i].a
Rows_(mat) == Len(mat.m)
Vec(a) == [i \in DOMAIN a |-> N(a[i])]
AllNum(a) == \A i \in DOMAIN a : IsNum(a[i])
IsMat(r, rows, cols) == r.k = "mat" /\ Len(r.m) = rows /\ \A i \in DOMAIN r.m : Len(r.m[i].a) = cols
\* a recorder cannot tell a vector from a matrix of one row, a number from a vector of one element
AsVec(v) == IF v.k = "arr" THEN v.a ELSE IF IsNum(v) THEN <<v>> ELSE IF v.k = "mat" THEN Row(v, 1) ELSE <<v>>
Mat(v) == [i \in DOMAIN v.m |-> Vec(v.m[i].a)]
FoldN(op(_, _), s, n) == FoldLeft(op, s, Idx(n))
MeanOf(s) == FDivInt(FSum(s), Len(s))
Flat(m) == FoldLeft(LAMBDA acc, i : acc \o m[i], << >>, Idx(Len(m)))

---------------------------------------------------------------------------
(* innovations after the optional steps *)
Mirror(m) == m \o [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> FNeg(m[i][j])]]
Standard(m) ==
    LET f == Flat(m)
        mu == MeanOf(f)
        sd == FSqrt(MeanOf([i \in DOMAIN f |-> FSqr(FSub(f[i], mu))]))
    IN  [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> FDiv(FSub(m[i][j], mu), sd)]]
Prepared(m, anti, std) == LET a == IF anti THEN Mirror(m) ELSE m IN IF std THEN Standard(a) ELSE a
SameMat(v, m, tol) == /\ IsMat(v, Len(m), Len(m[1]))
                      /\ \A i \in DOMAIN m : \A j \in DOMAIN m[i] : IsNum(v.m[i].a[j]) /\ Near(N(v.m[i].a[j]), m[i][j], tol)

(* the engine's protocol: e.q is the configuration, e.rep what the plug-ins saw in one call()/put() *)
HasInf(a, s) == \E i \in DOMAIN a : a[i].k = "inf" /\ a[i].n = s
HasNan(a) == \E i \in DOMAIN a : a[i].k = "nan"
MeanV(a) == IF HasNan(a) \/ (HasInf(a, 1) /\ HasInf(a, -1)) THEN [k |-> "nan", x |-> 0]
            ELSE IF HasInf(a, 1) THEN [k |-> "inf", n |-> 1] ELSE IF HasInf(a, -1) THEN [k |-> "inf", n |-> -1]
            ELSE [k |-> "num", v |-> MeanOf(Vec(a))]
SameV(v, w, rel) == IF IsNum(v) /\ IsNum(w) THEN Near(N(v), N(w), FAdd(FMul(FAbs(N(w)), rel), Eps(13))) ELSE v = w
JEngine(e) ==
    LET q == e.q
        r == e.rep
        L == q.mc_loops.n
        means == [i \in DOMAIN r.evals |-> MeanV(AsVec(r.evals[i].v))]
        infs == {i \in DOMAIN means : means[i].k = "inf" /\ means[i].n = 1}
        first == IF infs = {} THEN 0 ELSE CHOOSE i \in infs : \A j \in infs : i <= j
        done == IF first = 0 THEN L ELSE first            \* loops that are run
        one(k) ==
            LET want == Prepared(Mat(r.samples[k]), q.antithetic.b, q.standardization.b)
                pth == r.paths[k]
                pay == r.payoffs[k]
                evl == r.evals[k]
                par(x) == pay.par[x] = q[x]
            IN  << Ver("supplied innovations", q.eps = None \/ r.samples[k] = q.eps, r.samples[k], q.eps, k),
                   Ver("innovations", SameMat(pth.eps, want, Eps(11)), pth.eps, want, k),
                   Ver("path", pth.sigma = q.sigma /\ pth.b = q.b /\ Near(N(pth.dt), FDivInt(N(q.t), q.path_length.n), Eps(14)), pth, q, k),
                   Ver("payoff", pay.path = pth.id /\ \A x \in {"S", "K", "t", "r", "b", "sigma"} : par(x), pay, pth, k),
                   Ver("evaluated", evl.payoff = pay.id /\ evl.m = q.m.s, evl, pay, k) >>
    IN  IF e.r.k = "exc" THEN << Truth("engine failed", FALSE, e.r) >>
        ELSE << Ver("innovation object", \A i \in DOMAIN r.inits : r.inits[i].paths = q.mc_paths /\ r.inits[i].len = q.path_length /\ r.inits[i].eps = q.eps, r.inits, q, 0),
                Ver("loops", Len(r.samples) >= done /\ Len(r.paths) = done /\ Len(r.payoffs) = done /\ Len(r.evals) = done, r, done, 0),
                Ver("draws", Len(r.samples) = done, Len(r.samples), done, 0),
                Ver("warning", r.warned = (first # 0), r.warned, first, 0),
                IF first = 0
                THEN Ver("means", LET a == AsVec(e.r) IN Len(a) = L /\ Len(means) = L /\ \A i \in 1..L : SameV(a[i], means[i], Eps(12)), e.r, means, 0)
                ELSE Ver("infinite loop returned", /\ e.r.k = "inf loop" /\ Len(r.paths) >= first /\ Len(r.payoffs) >= first
                                                   /\ e.r.eps = r.paths[first].eps /\ e.r.path = r.paths[first].id
                                                   /\ AsVec(e.r.payoff) = AsVec(r.evals[first].v), e.r, first, 0) >>
             \o (IF Len(r.samples) >= done /\ Len(r.paths) = done /\ Len(r.payoffs) = done /\ Len(r.evals) = done
                 THEN FoldN(LAMBDA acc, k : acc \o one(k), << >>, done) ELSE << >>)
             \o (IF q.trace.b /\ first = 0
                 THEN << Ver("trace", /\ Len(r.trace) = L
                                      /\ \A i \in 1..L : /\ r.trace[i].no.n = i - 1
                                                         /\ SameV(r.trace[i].v, means[i], Eps(8))
                                                         /\ SameV(r.trace[i].run, MeanV(SubSeq(means, 1, i)), Eps(8)), r.trace, means, 0) >>
                 ELSE << Ver("no trace", Len(r.trace) = 0, r.trace, 0, 0) >>)

---------------------------------------------------------------------------
(* paths and payoffs *)
Increment(p, x) == FAdd(FMul(FSub(p.b, FDivInt(FSqr(p.sigma), 2)), p.dt), FMul(FMul(p.sigma, FSqrt(p.dt)), x))
Increments(p, eps) == [i \in DOMAIN eps |-> [j \in DOMAIN eps[i] |-> Increment(p, eps[i][j])]]
CumSum(s) == FoldLeft(LAMBDA acc, x : Append(acc, IF acc = << >> THEN x ELSE FAdd(acc[Len(acc)], x)), << >>, s)
Underlying(kind, S, inc) ==
    IF kind = "PlainVanillaPayoff" THEN FMul(S, Exp(FSum(inc)))
    ELSE LET c == CumSum(inc) IN MeanOf([j \in DOMAIN c |-> FMul(S, Exp(c[j]))])
PayoffOf(kind, p, z, inc) == FMul(Disc(p.r, p.t), Pos(FZ(z, FSub(Underlying(kind, p.S, inc), p.K))))
Nums(q) == [x \in {x \in DOMAIN q : IsNum(q[x])} |-> N(q[x])]
\* b - sigma^2/2, sigma^2: rounding relative to the terms
PathTol(p, eps) == FMul(Eps(13), FoldLeft(LAMBDA acc, x : FMax(acc, FAbs(x)), F1, Flat(eps)))
JWiener(e) ==
    LET p == Nums(e.q)
        eps == Mat(e.q.eps)
    IN  << Ver("path increments", SameMat(e.r, Increments(p, eps), PathTol(p, eps)), e.r, e.q, 0) >>
MoneyTol(p, u) == FMul(Eps(11), FAdd(FAdd(u, p.K), p.S))
JPayoff(e) ==
    LET p == Nums(e.q)
        inc == Mat(e.q.inc)
        n == Len(inc)
        side(m, z) ==
            LET a == AsVec(e.rep[m])
            IN  Ver(m, Len(a) = n /\ \A i \in 1..n : IsNum(a[i]) /\ Near(N(a[i]), PayoffOf(e.q.kind.s, p, z, inc[i]), MoneyTol(p, Underlying(e.q.kind.s, p.S, inc[i]))),
                    a, [i \in 1..n |-> PayoffOf(e.q.kind.s, p, z, inc[i])], 0)
        dif == LET c == AsVec(e.rep.call)  u == AsVec(e.rep.put)
               IN  Ver("call - put", \A i \in 1..n : LET s == Underlying(e.q.kind.s, p.S, inc[i])
                                                     IN  Near(FSub(N(c[i]), N(u[i])), FMul(Disc(p.r, p.t), FSub(s, p.K)), MoneyTol(p, s)), c, u, 0)
        pv == << side("call", 1), side("put", -1) >>
    IN  IF e.r.k = "exc" THEN << Truth("payoff failed", FALSE, e.r) >>
        ELSE IF pv[1].ok /\ pv[2].ok THEN Append(pv, dif) ELSE pv
\* the engine with its own path and payoff classes, for given innovations
JEndToEnd(e) ==
    LET p == [x \in {"dt"} |-> FDivInt(N(e.q.t), e.q.path_length.n)] @@ Nums(e.q)
        eps == Prepared(Mat(e.q.eps), e.q.antithetic.b, e.q.standardization.b)
        inc == Increments(p, eps)
        z == IF e.q.m.s = "put" THEN -1 ELSE 1
        val == [i \in DOMAIN inc |-> PayoffOf(e.q.kind.s, p, z, inc[i])]
        big == FoldLeft(LAMBDA acc, i : FMax(acc, Underlying(e.q.kind.s, p.S, inc[i])), p.S, Idx(Len(inc)))
        w == MeanOf(val)
        a == AsVec(e.r)
    IN  << Ver("simulated value", Len(a) = e.q.mc_loops.n /\ \A i \in DOMAIN a : IsNum(a[i]) /\ Near(N(a[i]), w, MoneyTol(p, big)), e.r, w, MoneyTol(p, big)) >>

---------------------------------------------------------------------------
(* Sobol normal innovations *)
Scale30 == FInt(1073741824)
\* the pairs of coordinates j, k of 2^m points are a (t, m, 2)-net: a box of 2^(t-m) is never empty
Quality(pr) == FoldLeft(LAMBDA acc, j : IF j = 1 THEN acc ELSE acc + Poly[j - 1][1] - 1, 0, pr)
NetPair(m, pr, x, y) ==
    LET w == m - Quality(pr)
    IN  \A a \in 0..w : Cardinality({<<x[i] \div TwoTo(m - a), y[i] \div TwoTo(m - w + a)>> : i \in DOMAIN x}) = TwoTo(w)
JInnovations(e, log) ==
    LET n == e.q.mc_paths.n
        d == e.q.path_length.n
        good == IsMat(e.r, n, d) /\ \A i \in 1..n : AllNum(Row(e.r, i))
        m == Mat(e.r)
        prob == [i \in 1..n |-> [j \in 1..d |-> Phi(m[i][j])]]
        k2 == CHOOSE k \in 0..14 : TwoTo(k) <= n /\ n < TwoTo(k + 1)
        cells == TwoTo(k2)
        \* coordinates are multiples of 2^-30: a hair puts those on a border into the cell they begin
        cell(x) == FTrunc(FMulInt(FAdd(x, Eps(11)), cells))
        strata(j) == {cell(prob[i][j]) : i \in 1..cells}
        \* scrambled samples drawn before from the same object: each is a new randomisation
        before == {i \in DOMAIN log : /\ "f" \in DOMAIN log[i] /\ log[i].f = "innovations" /\ log[i].q.key = e.q.key
                                      /\ log[i].q.scramble.b /\ log[i].q.eps = None}
        \* of the first coordinates: scrambling keeps the equidistribution of every pair
        first == IF d < 6 THEN d ELSE 6
        cells2 == [j \in 1..first |-> [i \in 1..cells |-> cell(prob[i][j])]]
        pairs == IF k2 > 6 THEN {pr \in {<<1, 2>>, <<1, 3>>, <<2, 3>>} : pr[2] <= d} ELSE {pr \in (1..first) \X (1..first) : pr[1] < pr[2] /\ Quality(pr) < k2}
        strat(j) == strata(j) = 0..(cells - 1)
        seqok(j) == LET pts == Points(j, n)
                    IN  \A i \in 1..n : Near(prob[i][j], FDiv(FInt(pts[i]), Scale30), FAdd(Eps(13), FMul(FDiv(FInt(pts[i]), Scale30), Eps(11))))
    IN  IF e.q.eps # None THEN << Ver("supplied", e.r = e.q.eps, e.r, e.q.eps, 0) >>
        ELSE IF ~good THEN << Truth("finite normal scores", FALSE, e.r) >>
        ELSE IF e.q.scramble.b
        THEN << Truth("stratified", \A j \in 1..d : strat(j), [j \in {x \in 1..d : ~strat(x)} |-> (0..(cells - 1)) \ strata(j)]) >>
             \o (IF n >= 8 THEN << Truth("coordinates differ", Cardinality({[i \in 1..n |-> Row(e.r, i)[j]] : j \in 1..d}) = d, d) >> ELSE << >>)
             \o (IF pairs = {} THEN << >> ELSE << Truth("pairs of coordinates", \A pr \in pairs : NetPair(k2, pr, cells2[pr[1]], cells2[pr[2]]), {pr \in pairs : ~NetPair(k2, pr, cells2[pr[1]], cells2[pr[2]])}) >>)
             \o << Truth("randomised anew", \A i \in before : log[i].r # e.r, before) >>
             \o (IF e.q.faults.n > 0 THEN << Ver("redrawn", e.rep.draws > e.q.faults.n, e.rep.draws, e.q.faults.n, 0) >> ELSE << >>)
        ELSE << Truth("sequence", \A j \in 1..d : j > MaxDim \/ seqok(j), {j \in 1..d : j <= MaxDim /\ ~seqok(j)}) >>

---------------------------------------------------------------------------
(* Heston-Nandi GARCH *)
Stationary(p) == FDiv(FAdd(p.omega, p.alpha), FSub(FSub(F1, FMul(p.alpha, FSqr(p.gamma))), p.beta))
NextVar(p, h, z) == FAdd(FAdd(p.omega, FMul(p.alpha, FSqr(FSub(z, FMul(p.gamma, FSqrt(h)))))), FMul(p.beta, h))
Return(p, h, z) == FAdd(FAdd(p.rf, FMul(p.lamb, h)), FMul(FSqrt(h), z))
\* the whole series from all innovations
Simulated(p, z) ==
    FoldLeft(LAMBDA acc, i : <<NextVar(p, acc[1], z[i]), Append(acc[2], Return(p, acc[1], z[i]))>>,
             <<Stationary(p), << >>>>, Idx(Len(z)))[2]
JHNSim(e) ==
    LET p == Nums(e.q)
        n == e.q.n.n
        a == AsVec(e.r)
        given == e.q.inno # None
        start == IF e.q.inno_start = None THEN << >> ELSE Vec(AsVec(e.q.inno_start))
        z == start \o Vec(AsVec(e.q.inno))
        w == Simulated(p, z)
        want == SubSeq(w, Len(start) + 1, Len(w))
        ok(i) == IsNum(a[i]) /\ Near(N(a[i]), want[i], FAdd(Eps(14), FMul(FAbs(want[i]), Eps(9))))
        bad == {i \in 1..n : ~ok(i)}
        \* the innovations a series came from, when it starts at the stationary variance
        back == FoldLeft(LAMBDA acc, i : LET zi == FDiv(FSub(FSub(N(a[i]), p.rf), FMul(p.lamb, acc[1])), FSqrt(acc[1]))
                                         IN  <<NextVar(p, acc[1], zi), Append(acc[2], zi)>>, <<Stationary(p), << >>>>, Idx(n))[2]
        mu == MeanOf(back)
        var == MeanOf([i \in DOMAIN back |-> FSqr(back[i])])
        kurt == MeanOf([i \in DOMAIN back |-> FSqr(FSqr(back[i]))])
        lim(c) == FDiv(FInt(c), FSqrt(FInt(n)))
    IN  IF e.r.k = "exc" THEN << Truth("simulation failed", FALSE, e.r) >>
        ELSE IF Len(a) # n THEN << Ver("length", FALSE, Len(a), n, 0) >>
        \* warm-up innovations of its own: with lambda = 0 the returns tell the variances, which recur
        ELSE IF given /\ e.q.n_start.n > 0 /\ e.q.inno_start = None
        THEN IF ~AllNum(a) \/ p.lamb[1] # 0 THEN << Truth("numbers", AllNum(a), a) >>
             ELSE LET h == [i \in 1..n |-> FSqr(FDiv(FSub(N(a[i]), p.rf), z[i]))]
                      off == {i \in 2..n : ~Near(h[i], NextVar(p, h[i - 1], z[i - 1]), FMul(h[i], Eps(8)))}
                  IN  << Ver("variances recur", off = {}, a, h, off),
                         Ver("warm-up happened", p.alpha[1] = 0 \/ ~Near(h[1], Stationary(p), FMul(h[1], Eps(12))), h[1], Stationary(p), 0),
                         Ver("innovations unchanged", e.rep.inno = e.q.inno, e.rep, 0, 0) >>
        ELSE IF given
        THEN << Ver("series", bad = {}, a, want, bad),
                Ver("innovations unchanged", e.rep.inno = e.q.inno /\ e.rep.inno_start = e.q.inno_start, e.rep, 0, 0) >>
        ELSE IF e.q.n_start.n > 0 THEN << Truth("numbers", AllNum(a), a) >>
        ELSE << Ver("standard normal innovations", /\ FLe(FAbs(mu), lim(6)) /\ FLe(FAbs(FSub(var, F1)), lim(10))
                                                   /\ FLe(FAbs(FSub(kurt, FInt(3))), lim(70)), <<mu, var, kurt>>, 0, 0) >>

\* the filter: variances and residuals of a series
Filter(p, x) ==
    LET f == FoldLeft(LAMBDA acc, i :
                 LET h == IF i = 1 THEN Stationary(p) ELSE NextVar(p, acc[1][i - 1], acc[2][i - 1])
                 IN  <<Append(acc[1], h), Append(acc[2], FDiv(FSub(FSub(x[i], p.rf), FMul(p.lamb, h)), FSqrt(h)))>>,
                 << << >>, << >> >>, Idx(Len(x)))
    IN  [h |-> f[1], z |-> f[2]]
NegLogLik(f) == FSum([i \in DOMAIN f.h |-> FAdd(FDivInt(FAdd(Ln(TwoPi), FSqr(f.z[i])), 2), FDivInt(Ln(f.h[i]), 2))])
Sym(p, symmetric) == IF symmetric THEN [p EXCEPT !.gamma = F0] ELSE p
NearSeq(a, w, rel) == Len(a) = Len(w) /\ \A i \in DOMAIN w : IsNum(a[i]) /\ Near(N(a[i]), w[i], FAdd(FMul(FAbs(w[i]), rel), Eps(11)))
JHNFit(e, log) ==
    LET q == e.q
        x == Vec(AsVec(q.x))
        n == Len(x)
        sym == q.symmetric.b
        mean == MeanOf(x)
        om == IF q.omega = None THEN MeanOf([i \in DOMAIN x |-> FSqr(FSub(x[i], mean))]) ELSE N(q.omega)
        al == IF q.alpha = None THEN FDivInt(om, 10) ELSE N(q.alpha)
        p0 == Sym([lamb |-> N(q.lamb), omega |-> om, alpha |-> al, beta |-> N(q.beta), gamma |-> N(q.gamma), rf |-> N(q.rf)], sym)
        start == NegLogLik(Filter(p0, x))
        o == e.rep
        est == Vec(AsVec(o.estimate))
        p1 == [lamb |-> est[1], omega |-> est[2], alpha |-> est[3], beta |-> est[4], gamma |-> est[5], rf |-> N(q.rf)]
        f1 == Filter(p1, x)
        end == NegLogLik(f1)
        tol == FMul(Eps(8), FAdd(FAbs(start), FInt(n)))
        \* omega and alpha near 0 or 1 lose relative accuracy in the logistic transform
        pers == FAdd(p1.beta, FMul(p1.alpha, FSqr(p1.gamma)))
        num(v) == IsNum(v)
        \* the same fit again, told or not told to trace
        earlier == {i \in DOMAIN log : "f" \in DOMAIN log[i] /\ log[i].f = "hnfit" /\ [log[i].q EXCEPT !.trace = 0] = [q EXCEPT !.trace = 0]}
        reports(v) == [w \in DOMAIN v \ {"said"} |-> v[w]]
        row == <<p0.lamb, p0.omega, p0.alpha, p0.beta, p0.gamma>>
    IN  IF e.r.k = "exc" THEN << Truth("fit failed", FALSE, e.r) >>
        ELSE IF ~num(o.value) \/ ~num(o.minimum) \/ ~num(o.persistence) \/ ~num(o.sigma2) \/ ~AllNum(AsVec(o.estimate)) \/ Len(est) # 5 THEN << Truth("numbers", FALSE, o) >>
        ELSE << Ver("starting likelihood", Near(N(o.value), start, tol), o.value, start, tol),
                Ver("variances", NearSeq(AsVec(o.h), f1.h, Eps(6)), o.h, f1.h, 0),
                Ver("residuals", NearSeq(AsVec(o.z), f1.z, Eps(6)), o.z, f1.z, 0),
                Ver("model", \A v \in {"lamb", "omega", "alpha", "beta", "gamma", "rf"} : num(o.model[v]) /\ Near(N(o.model[v]), p1[v], FMul(Eps(12), FAdd(F1, FAbs(p1[v])))), o.model, p1, 0),
                Ver("symmetric", sym => p1.gamma[1] = 0, p1.gamma, sym, 0),
                Ver("ranges", \A v \in {"omega", "alpha", "beta"} : FGe(p1[v], F0) /\ FLe(p1[v], F1), p1, 0, 0),
                Ver("persistence", Near(N(o.persistence), pers, Eps(11)), o.persistence, pers, 0),
                Ver("stationary variance", Near(FMul(N(o.sigma2), FSub(F1, pers)), FAdd(p1.omega, p1.alpha), FMul(Eps(9), FAdd(Eps(6), FAbs(FAdd(p1.omega, p1.alpha))))), o.sigma2, 0, 0),
                Ver("no worse than the start", FLe(end, FAdd(start, tol)), end, start, tol),
                Ver("reported optimum", Near(N(o.minimum), FSub(FMulInt(Sqrt2Pi, n), end), FMulInt(tol, 10)), o.minimum, FSub(FMulInt(Sqrt2Pi, n), end), tol),
                Ver("data unchanged", o.x = q.x, o.x, q.x, 0),
                Ver("same fit again", \A i \in earlier : reports(log[i].rep) = reports(o), o, earlier, 0),
                IF q.trace.b
                THEN Ver("traced", o.said.n > 0 /\ Len(o.said.rows[1]) = 5 /\ \A i \in 1..5 : num(o.said.rows[1][i])
                                   /\ Near(N(o.said.rows[1][i]), row[i], FMul(Eps(9), FAdd(Eps(3), FAbs(row[i])))), o.said, row, 0)
                ELSE Ver("silent", o.said.silent, o.said, 0, 0) >>

---------------------------------------------------------------------------
=============================================================================
