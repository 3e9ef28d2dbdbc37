----------------------------- MODULE Relations -----------------------------
(* Verdicts that look at several answers of a session, and the choice of   *)
(* verdicts per property.  log[i] is the entry recorded at line i.         *)
EXTENDS Judge

---------------------------------------------------------------------------
(* equality of answers up to rounding *)
RECURSIVE Same(_, _)
Same(a, b) ==
    IF IsNum(a) /\ IsNum(b)
    THEN FLe(FAbs(FSub(N(a), N(b))), FAdd(FMul(FAbs(N(a)), Eps(10)), Eps(13)))
    ELSE IF a.k # b.k THEN FALSE
    ELSE CASE a.k = "arr" -> Len(a.a) = Len(b.a) /\ \A i \in DOMAIN a.a : Same(a.a[i], b.a[i])
           [] a.k = "dict" -> DOMAIN a.d = DOMAIN b.d /\ \A x \in DOMAIN a.d : Same(a.d[x], b.d[x])
           [] a.k = "mat" -> Len(a.m) = Len(b.m) /\ \A i \in DOMAIN a.m : Same(a.m[i], b.m[i])
           [] a.k = "exc" -> a.t = b.t
           [] OTHER -> a = b

IsCall(en) == "m" \in DOMAIN en
SameObject(a, b) == IsCall(a) /\ IsCall(b) /\ a.c = b.c /\ a.p = b.p
\* an answer depends on nothing but class, parameters and query
JFunctional(en, log) ==
    LET prior == {i \in DOMAIN log : SameObject(log[i], en) /\ log[i].m = en.m /\ log[i].q = en.q}
    IN  IF prior = {} THEN <<>>
        ELSE LET i == CHOOSE i \in prior : TRUE
             IN  <<Ver("functional", Same(log[i].r, en.r), en.r, log[i].r, i)>>
JParams(en) == <<Ver("get_params", en.r.k = "dict" /\ en.r.d = en.p, en.r, en.p, 0)>>

---------------------------------------------------------------------------
(* refusals *)
JAccepted(e) == <<Truth("accepted", e.r.k = "ok", e.r)>>
JRefused(e) == <<Truth("refused", e.r.k = "exc" /\ e.r.t = "TypeError", e.r)>>
MustRaise(en) ==
    IF en.c \in GBSFamily /\ en.m \in NeedSigma /\ en.p.sigma = None THEN "ValueError"
    ELSE IF en.c \in GBSFamily /\ en.m = "rho" /\ "method" \in DOMAIN en.q /\ en.q.method.s = "fdm"
            /\ en.c # "Black76Option" /\ (IF en.p.b.k = "arr" THEN \E i \in DOMAIN en.p.b.a : N(en.p.b.a[i])[1] # 0 ELSE IsNum(en.p.b) /\ N(en.p.b)[1] # 0) THEN "ValueError"
    ELSE ""

---------------------------------------------------------------------------
(* parity: entries i (call) and j (put) *)
ForwardOf(c, p) ==
    CASE c \in GBSFamily -> FSub(FMul(Spot(c, p), Disc(FSub(p.r, Carry(c, p)), p.t)), FMul(p.K, Disc(p.r, p.t)))
      [] c = "MiltersenSchwartzOption" -> MSForward(p)
      [] c = "SpreadApproxOption" -> FSub(FMul(FMul(p.Q1, p.S1), Disc(FSub(p.r, p.b1), p.t)), KirkBase(p))
      [] c \in Trees1 -> Forward1(c, p)
      [] c \in Trees2 -> Forward2(P2(c, p))
      [] OTHER -> HNForward(p)
\* HN: the call is computed by quadrature, the put from the call
ParityTol(c, p) == FAdd(FMul(Eps(10), Money(c, p)), Amplified(c, p))
JParity(a, b) ==
    IF ~(SameObject(a, b) /\ a.m = "call" /\ b.m = "put" /\ a.q = b.q) THEN <<Truth("malformed", FALSE, a)>>
    ELSE LET one(p, x, y) ==
               IF ~IsNum(x) \/ ~IsNum(y) THEN <<Truth("parity", FALSE, <<x, y>>)>>
               ELSE LET g == FSub(N(x), N(y)) w == ForwardOf(a.c, p) tol == ParityTol(a.c, p)
                    IN  <<Ver("parity", Near(g, w, tol), g, w, tol)>>
             n == Size(a.p)
         IN  IF n <= 1 THEN one(Pars(a.c, a.p), a.r, b.r)
             ELSE IF a.r.k # "arr" \/ b.r.k # "arr" \/ Len(a.r.a) # n \/ Len(b.r.a) # n THEN <<Truth("shape", FALSE, a.r)>>
             ELSE FoldLeft(LAMBDA acc, i : acc \o one(Pars(a.c, Proj(a.p, i)), a.r.a[i], b.r.a[i]), <<>>, Idx(n))

---------------------------------------------------------------------------
(* one-factor trees: layout and node values (C03, C04) *)
BinCell(m, n, j, i) == m[j + 1 - i].a[j + 1]                 \* i = 0..j, lowest first
TriCell(m, n, j, i) == m[n + j + 1 - i].a[j + 1]             \* i = 0..2j, lowest first
CellAt(L, m, n, j, i) == IF L.br = 2 THEN BinCell(m, n, j, i) ELSE TriCell(m, n, j, i)
Rows(L, n) == IF L.br = 2 THEN n + 1 ELSE 2*n + 1
IsTree(L, r, n) == /\ r.k = "mat" /\ Len(r.m) = Rows(L, n)
                   /\ \A i \in DOMAIN r.m : r.m[i].k = "arr" /\ Len(r.m[i].a) = n + 1
Layers(L, p, z, pw) ==      \* sequence of layers, root first
    FoldLeft(LAMBDA acc, k : <<Back(L, p, z, pw, acc[1], p.n - k)>> \o acc, <<Terminal(L, p, z, pw)>>, Idx(p.n))
\* rows used in column j (1-based)
UsedRow(L, n, j, row) == IF L.br = 2 THEN row <= j + 1 ELSE row >= n + 1 - j /\ row <= n + 1 + j
Worst(S0, F(_)) == FoldLeft(LAMBDA acc, x : FMax(acc, F(x)), F0, S0)
JTree(en) ==
    LET p == Pars(en.c, en.p)  z == Z(en.m)
        L == Params1(en.c, p)
        pw == Pw(L, p.n)
        ly == Layers(L, p, z, pw)
        m == en.r.m
        amp == Amplified(en.c, p)
        bad == {<<i, j>> \in (DOMAIN m) \X (1..(p.n + 1)) : ~IsNum(m[i].a[j])}
        col(j) ==       \* verdict of column j
            LET a == Assets(L, p.S, pw, j)
                off == {i \in 1..Width(L, j) :
                          ~Near(N(CellAt(L, m, p.n, j, i - 1)), ly[j + 1][i], FAdd(amp, FMul(FAdd(FAdd(a[i], p.S), p.K), Eps(10))))}
                junk == {row \in 1..Rows(L, p.n) : ~UsedRow(L, p.n, j, row) /\ N(m[row].a[j + 1])[1] # 0}
            IN  IF off # {} THEN LET i == CHOOSE i \in off : TRUE
                                 IN  Ver("node", FALSE, N(CellAt(L, m, p.n, j, i - 1)), ly[j + 1][i], <<j, i>>)
                ELSE Truth("unused cells", junk = {}, junk)
    IN  IF ~IsTree(L, en.r, p.n) THEN <<Truth("layout", FALSE, en.r)>>
        ELSE IF bad # {} THEN <<Truth("node not a number", FALSE, bad)>>
        ELSE [j \in 1..(p.n + 1) |-> col(j - 1)]
GoodProb(c, p) == LET L == Params1(c, p) IN \A i \in DOMAIN L.prob : L.prob[i][1] >= 0

---------------------------------------------------------------------------
(* American dominates European and exercise (C03) *)
TypeOf(p) == IF "type" \in DOMAIN p THEN p.type ELSE p.otype
Untyped(p) == [x \in DOMAIN p \ {"type", "otype"} |-> p[x]]
JDominates(a, b) ==       \* a american, b european
    LET p == Pars(a.c, a.p)
        tol == FMul(Eps(10), Money(a.c, p))
        ge(x, y) == IsNum(x) /\ IsNum(y) /\ FGe(N(x), FSub(N(y), tol))
        same == a.m = "call" /\ a.c # "JRBinomialTreeOption" /\ a.c \in Trees1 /\ FGe(p.r, F0) /\ FGe(p.b, p.r)
    IN  IF ~(IsCall(a) /\ IsCall(b) /\ a.c = b.c /\ a.m = b.m /\ a.q = b.q /\ Untyped(a.p) = Untyped(b.p)
             /\ TypeOf(a.p) = Str("american") /\ TypeOf(b.p) = Str("european")) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF a.c \in Trees1 /\ ~GoodProb(a.c, p) THEN << >>
        ELSE IF a.r.k = "mat"
        THEN LET L == Params1(a.c, p)
                 pw == Pw(L, p.n)
                 z == Z(a.m)
                 col(j) == LET as == Assets(L, p.S, pw, j)
                               off == {i \in 1..Width(L, j) :
                                         LET x == CellAt(L, a.r.m, p.n, j, i - 1)  y == CellAt(L, b.r.m, p.n, j, i - 1)
                                             t2 == FMul(Eps(10), FAdd(FAdd(as[i], p.S), p.K))
                                         IN  ~(IsNum(x) /\ IsNum(y) /\ FGe(N(x), FSub(N(y), t2))
                                               /\ FGe(N(x), FSub(Exercise(p.K, z, as[i]), t2)))}
                           IN  Truth("american node", off = {}, <<j, off>>)
             IN  IF ~IsTree(L, a.r, p.n) \/ ~IsTree(L, b.r, p.n) THEN <<Truth("layout", FALSE, a.r)>>
                 ELSE [j \in 1..(p.n + 1) |-> col(j - 1)]
        ELSE LET x == IF a.c \in Trees1 THEN Exercise(p.K, Z(a.m), p.S) ELSE Intrinsic2(P2(a.c, p), Z(a.m))
             IN  << Ver("american>=european", ge(a.r, b.r), a.r, b.r, tol),
                    Ver("american>=exercise", IsNum(a.r) /\ FGe(N(a.r), FSub(x, tol)), a.r, x, tol) >>
                 \o (IF same THEN << Ver("no early exercise", ge(b.r, a.r), a.r, b.r, tol) >> ELSE << >>)
\* American approximations against the European value and exercise
JPremium(en) ==
    LET p == Pars(en.c, en.p)  z == Z(en.m)
        tol == FMul(FMulInt(Eps(6), 3), Money(en.c, p))
        Sx == FSub(p.S, FMul(p.D, Disc(p.r, p.td)))
    IN  CASE en.c = "BAWAmericanApproxOption" ->
               LET e == FMax(GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, z), FZ(z, FSub(p.S, p.K)))
               IN  << Ver("BAW>=max(european,exercise)", IsNum(en.r) /\ FGe(N(en.r), FSub(e, tol)), en.r, e, tol) >>
          [] en.c = "RollGeskeWhaleyOption" ->
               LET e == GBS(Sx, p.K, p.t, p.r, p.r, p.sigma, 1)
               IN  << Ver("RGW>=european", IsNum(en.r) /\ FGe(N(en.r), FSub(e, tol)), en.r, e, tol) >>
          [] OTHER -> << >>

---------------------------------------------------------------------------
(* arrays (C09): entry a has array parameters, b the scalars of element j *)
FdmPriced == {"MiltersenSchwartzOption", "SpreadApproxOption"}
ElemTol(a, x) ==
    IF a.m = "volatility" THEN FMul(FAdd(FAbs(x), F1), Eps(5))
    ELSE IF (a.m \in GreekMethods \cup {"greeks"} /\ a.c \in FdmPriced) \/ ("method" \in DOMAIN a.q /\ a.q.method.s = "fdm")
    THEN FAdd(FMul(FAbs(x), FMulInt(Eps(5), 2)), Eps(6))
    ELSE FAdd(FMul(FAbs(x), Eps(9)), FMul(Eps(13), Money(a.c, Pars(a.c, Proj(a.p, 1)))))
ElemArg(q, j) == [x \in DOMAIN q |-> IF q[x].k = "arr" THEN q[x].a[IF Len(q[x].a) = 1 THEN 1 ELSE j] ELSE q[x]]
\* element j of a result: number j of an array, row j of a matrix, element j of every dictionary entry
RECURSIVE Elem(_, _, _)
Elem(r, j, n) == CASE r.k = "arr" /\ Len(r.a) = n -> r.a[j]
                   [] r.k = "mat" /\ Len(r.m) = n -> r.m[j]
                   [] r.k = "dict" -> [k |-> "dict", d |-> [x \in DOMAIN r.d |-> Elem(r.d[x], j, n)]]
                   [] OTHER -> [k |-> "shape", r |-> r]
RECURSIVE ElemSame(_, _, _)
ElemSame(a, x, y) ==
    IF IsNum(x) /\ IsNum(y) THEN Near(N(x), N(y), ElemTol(a, N(y)))
    ELSE IF x.k # y.k THEN FALSE
    ELSE CASE x.k = "arr" -> Len(x.a) = Len(y.a) /\ \A i \in DOMAIN x.a : ElemSame(a, x.a[i], y.a[i])
           [] x.k = "dict" -> DOMAIN x.d = DOMAIN y.d /\ \A i \in DOMAIN x.d : ElemSame(a, x.d[i], y.d[i])
           [] OTHER -> x = y
JIndex(a, b, j) ==
    LET n == Max2(Size(a.p), Size(a.q))
    IN  IF ~(IsCall(a) /\ IsCall(b) /\ a.c = b.c /\ a.m = b.m /\ n > 1 /\ b.p = Proj(a.p, j) /\ b.q = ElemArg(a.q, j))
        THEN <<Truth("malformed", FALSE, <<a, b>>)>>
        ELSE LET x == Elem(a.r, j, n)
             IN  << Ver("element", ElemSame(a, x, b.r), x, b.r, 0) >>

---------------------------------------------------------------------------
(* greeks() collects the separate answers (C06, C07): entry a is greeks(), the others the answers *)
JDict(a, es) ==
    LET keyed(b) == {g \in Greeks(a.c) : MethodOf(g) = b.m}
    IN  IF ~(a.m = "greeks" /\ \A b \in ToSet(es) : SameObject(a, b) /\ keyed(b) # {}) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF a.r.k # "dict" \/ DOMAIN a.r.d # Greeks(a.c) THEN <<Truth("greeks keys", FALSE, a.r)>>
        ELSE [i \in DOMAIN es |-> LET g == CHOOSE g \in keyed(es[i]) : TRUE
                                  IN  Ver("greeks()", Same(a.r.d[g], es[i].r), a.r.d[g], es[i].r, 0)]

---------------------------------------------------------------------------
(* finite differences (C06, C07) *)
\* the parameter a greek differentiates in
Keyed(c) == c = "SpreadApproxOption" \/ c \in Trees2
WrtOf(c, m, key) ==
    CASE m = "theta" -> "t" [] m = "rho" -> "r"
      [] Keyed(c) -> key
      [] m \in {"delta", "gamma"} -> IF c \in {"MiltersenSchwartzOption", "Black76Option"} THEN "FT" ELSE "S"
      [] m = "vega" -> IF c = "MiltersenSchwartzOption" THEN key ELSE "sigma"
MSVega == <<"sigmaS", "sigmaE", "sigmaF">>
Component(en, key) ==
    IF en.c = "MiltersenSchwartzOption" /\ en.m = "vega"
    THEN LET i == CHOOSE i \in 1..3 : MSVega[i] = key
         IN  IF en.r.k = "arr" /\ Len(en.r.a) = 3 THEN en.r.a[i] ELSE [k |-> "shape", r |-> en.r]
    ELSE IF Keyed(en.c) /\ en.m \in {"delta", "vega", "gamma"}
    THEN IF en.r.k = "dict" /\ DOMAIN en.r.d = (IF en.m = "vega" THEN {"sigma1", "sigma2"} ELSE {"S1", "S2"})
         THEN en.r.d[key] ELSE [k |-> "shape", r |-> en.r]
    ELSE en.r
\* gamma and vega are those of the call
SideOf(en) == IF en.m \in {"gamma", "vega"} \/ ~HasPut(en.c) THEN "call" ELSE IF GArg(en.q) = 1 THEN "call" ELSE "put"
Shifted(a, b, x) == /\ IsCall(b) /\ a.c = b.c /\ b.m = SideOf(a) /\ DOMAIN a.p = DOMAIN b.p
                    /\ \A y \in DOMAIN a.p \ {x} : a.p[y] = b.p[y]
PV(b) == PriceOf(b.r)
(* scale of a greek: what a unit of it is worth comparing with *)
GScale(c, m, p, x) ==
    LET money == Money(c, p)
        x0 == FMax(FAbs(p[x]), Eps(2))
    IN  CASE m = "gamma" -> FDiv(money, FSqr(x0))
          [] m = "delta" -> FDiv(money, x0)
          [] OTHER -> money
\* relative tolerance for smooth prices
GRel(c, m) ==
    CASE m = "theta" -> Eps(8)
      [] m = "gamma" -> IF c = "RollGeskeWhaleyOption" THEN FMulInt(Eps(3), 5) ELSE FMulInt(Eps(4), 5)
      [] m = "rho" /\ c = "BAWAmericanApproxOption" -> FMulInt(Eps(2), 2)      \* its solver stops at 1e-6 K
      [] c = "RollGeskeWhaleyOption" -> FMulInt(Eps(3), 1)
      [] c \in NoArrays -> FMulInt(Eps(4), 1)
      [] OTHER -> FMulInt(Eps(5), 2)
Coarse(m) == IF m = "gamma" THEN F1 ELSE FRat(8, 100)
(* e.w: entries at x+h, x-h, x+h/2, x-h/2 and, for gamma, x; then (optionally) x+H, x-H, x: when the
   price is linear over +-H, or continuation holds there, the tight tolerance applies *)
JDeriv(e, log) ==
    LET a == log[e.i[1]]
        x == WrtOf(a.c, a.m, e.key)
        w == [i \in DOMAIN e.w |-> log[e.w[i]]]
        second == a.m = "gamma"
        p == Pars(a.c, a.p)
        at(b) == N(b.p[x])
        x0 == N(a.p[x])
        sym(u, d) == Near(FAdd(at(u), at(d)), FMulInt(x0, 2), FMul(FAdd(FAbs(x0), F1), Eps(12)))
        h1 == FDivInt(FSub(at(w[1]), at(w[2])), 2)
        h2 == FDivInt(FSub(at(w[3]), at(w[4])), 2)
        v(b) == N(PV(b))
        d(u, dn, h) == IF second THEN FDiv(FSub(FAdd(v(u), v(dn)), FMulInt(v(w[5]), 2)), FSqr(h))
                       ELSE FDiv(FSub(v(u), v(dn)), FMulInt(h, 2))
        D1_ == d(w[1], w[2], h1)   D2_ == d(w[3], w[4], h2)
        single == a.m = "theta" \/ (a.m = "vega" /\ a.c \in {"BAWAmericanApproxOption", "BSAmericanApproxOption"})
        want0 == IF single THEN D1_ ELSE FDivInt(FSub(FMulInt(D2_, 4), D1_), 3)
        want == IF a.m = "theta" THEN FNeg(want0) ELSE want0
        sc == GScale(a.c, a.m, p, x)
        wide == [i \in DOMAIN e.wide |-> log[e.wide[i]]]
        mid(u, dn, m) == FLe(FAbs(FSub(FAdd(v(u), v(dn)), FMulInt(v(m), 2))), FMul(Money(a.c, p), Eps(11)))
        linear == /\ Len(wide) = 3 /\ a.m # "rho"
                  /\ mid(wide[1], wide[2], wide[3]) /\ mid(w[1], w[2], wide[3]) /\ mid(w[3], w[4], wide[3])
        \* exercised at some of the points and held at others: not differentiable in between
        exercised(b) == LET q == Pars(b.c, b.p)
                        IN  Near(v(b), FZ(Z(b.m), FSub(q.S, q.K)), FMul(FAdd(q.S, q.K), Eps(10)))
        kinked == /\ a.c \in {"BAWAmericanApproxOption", "BSAmericanApproxOption"} /\ ~single
                  /\ Cardinality({exercised(b) : b \in ToSet(w) \cup ToSet(wide)}) = 2
        rel == IF single THEN (IF a.m = "theta" THEN Eps(8) ELSE Eps(7))
               ELSE IF a.c \in Trees1 \cup Trees2
               THEN (IF linear \/ e.smooth THEN FMulInt(Eps(5), 1) ELSE Coarse(a.m))
               ELSE GRel(a.c, a.m)
        \* lattice prices have kinks: the derivative is only as sharp as the differences at all scales agree (extrapolated, as theirs are)
        fan == [i \in DOMAIN e.fan |-> log[e.fan[i]]]
        fanned == fan # <<>> /\ ~linear /\ \A i \in DOMAIN fan : IsNum(PV(fan[i]))
        fd(k) == FDiv(FSub(v(fan[2*k - 1]), v(fan[2*k])), FSub(at(fan[2*k - 1]), at(fan[2*k])))
        spread == FoldLeft(LAMBDA acc, k : FMax(acc, FAbs(FSub(FDivInt(FSub(FMulInt(fd(k + 1), 4), fd(k)), 3), want))), F0, Idx(Len(fan) \div 2 - 1))
        tol0 == FAdd(FAdd(FMul(rel, sc), IF single THEN F0 ELSE FMulInt(FAbs(FSub(D1_, D2_)), IF linear \/ e.smooth THEN 1 ELSE 2)),
                    \* the approximations are rough functions of the rate: b = r and the trigger move with it
                    IF a.m = "rho" /\ a.c = "BAWAmericanApproxOption" THEN FMul(FAbs(want), FRat(30, 100))
                    ELSE IF a.m = "rho" /\ a.c = "BSAmericanApproxOption" THEN FMul(FAbs(want), FRat(8, 100))
                    \* early exercise begins and ends within the rates sampled
                    ELSE IF a.m = "rho" /\ Len(wide) = 2
                    THEN FMulInt(FAbs(FSub(D1_, d(wide[1], wide[2], FDivInt(FSub(at(wide[1]), at(wide[2])), 2)))), 2) ELSE F0)
        tol == IF fanned THEN FMin(tol0, FAdd(FMul(Eps(5), sc), FMulInt(spread, 6))) ELSE tol0
        got == Component(a, e.key)
    IN  IF ~((\A i \in DOMAIN w : Shifted(a, w[i], x)) /\ sym(w[1], w[2]) /\ sym(w[3], w[4])
             /\ (second => w[5].p = a.p) /\ FGt(h1, h2) /\ FGt(h2, F0)
             /\ (\A i \in DOMAIN wide : Shifted(a, wide[i], x)) /\ (\A i \in DOMAIN fan : Shifted(a, fan[i], x))) THEN <<Truth("malformed", FALSE, <<a, e>>)>>
        ELSE IF \E i \in DOMAIN w : ~IsNum(PV(w[i])) THEN <<Truth("price", FALSE, w)>>
        \* between the kinks of a lattice price gamma is nothing in particular
        ELSE IF (second /\ a.c \in Trees1 \cup Trees2 /\ ~linear) \/ kinked THEN << >>
        ELSE << Close(a.m, got, want, tol) >>
\* lambda = delta * S / price: entries lamb, delta, price
JLambda(a, b, c) ==
    LET one(key, sx) ==
           LET g == Component([a EXCEPT !.m = "delta"], key)  dl == Component(b, key)
               w == FDiv(FMul(N(dl), N(a.p[sx])), N(PV(c)))
           IN  IF ~IsNum(g) THEN << Truth("lamb", FALSE, g) >>
               ELSE << Ver("lamb", Near(N(g), w, FAdd(FMul(FAbs(w), FAdd(Eps(9), FDiv(Eps(20), FMax(FAbs(N(PV(c))), Eps(24))))), Eps(12))), N(g), w, 0) >>
    IN  IF ~(a.m = "lamb" /\ b.m = "delta" /\ SameObject(a, b) /\ SameObject(a, c) /\ a.q = b.q /\ c.m = SideOf(a)) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF ~IsNum(PV(c)) THEN << >>
        ELSE IF N(PV(c))[1] = 0 THEN << >>
        ELSE IF Keyed(a.c) THEN one("S1", "S1") \o one("S2", "S2")
        ELSE one("", IF a.c \in {"MiltersenSchwartzOption", "Black76Option"} THEN "FT" ELSE "S")
\* finite differences against the closed form: entries fdm, analytic
JFdm(a, b) ==
    LET p == Pars(a.c, a.p)
        sc == GScale(a.c, IF a.m = "lamb" THEN "theta" ELSE a.m, p,
                     IF a.m \in {"delta", "gamma"} THEN WrtOf(a.c, "delta", "") ELSE "t")
        rel == CASE a.m = "gamma" -> FRat(1, 100) [] a.m = "theta" -> FRat(1, 100) [] OTHER -> FMulInt(Eps(4), 5)
        price == GBS(Spot(a.c, p), p.K, p.t, p.r, Carry(a.c, p), p.sigma, GArg(a.q))
        tol == IF a.m = "lamb"
               THEN FAdd(FMul(FAbs(N(b.r)), FAdd(FRat(5, 1000), FDiv(FMul(Spot(a.c, p), Eps(10)), FMax(price, Eps(12))))), FRat(1, 1000))
               \* the normal approximation is not smooth at the money: second differences carry a little of that
               ELSE FMul(rel, (IF a.m = "gamma" THEN FAdd(sc, FAbs(N(b.r))) ELSE sc))
    IN  IF ~(SameObject(a, b) /\ a.m = b.m /\ a.q.method.s = "fdm" /\ IsAnalytic(b)) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF ~IsNum(b.r) THEN <<Truth("fdm", FALSE, b.r)>>
        ELSE << Close("fdm " \o a.m, a.r, N(b.r), tol) >>

---------------------------------------------------------------------------
(* implied volatility (C08): a is the answer, b the price of the same option with that volatility *)
RootOf(v) == IF v.k = "root" THEN v.v ELSE v
IVSide(q) == IF GArg(q) = 1 THEN "call" ELSE "put"
JReprice(a, b) ==
    LET n == Max2(Size(a.p), Size(a.q))
        pr == a.q.price
        sg == RootOf(a.r)
        el(v, i) == IF v.k = "arr" THEN (IF Len(v.a) = 1 THEN v.a[1] ELSE IF Len(v.a) = n THEN v.a[i] ELSE None) ELSE v
        one(i) == LET p == Pars(b.c, Proj(b.p, i))
                      tol == FMul(FMulInt(Eps(6), 1), Money(b.c, p))
                      x == el(b.r, i)
                  IN  Ver("reprice", IsNum(x) /\ Near(N(x), N(el(pr, i)), tol), x, el(pr, i), tol)
    IN  IF ~(a.c = b.c /\ a.m = "volatility" /\ b.m = IVSide(a.q) /\ [a.p EXCEPT !.sigma = 0] = [b.p EXCEPT !.sigma = 0]) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF ~(IF n > 1 THEN sg.k = "arr" /\ Len(sg.a) = n ELSE IsNum(sg)) \/ b.p.sigma # sg THEN <<Truth("volatility", FALSE, a.r)>>
        ELSE [i \in 1..Max2(n, 1) |-> one(i)]
             \o (IF a.r.k = "root" THEN << Truth("converged", a.r.conv, a.r) >> ELSE << >>)
\* the price b came from volatility s: a finds it again (when the price says anything about it)
JRecover(a, b) ==
    LET p == Pars(b.c, b.p)
        vega == GVega(Spot(b.c, p), p.K, p.t, p.r, Carry(b.c, p), p.sigma)
        tol == FAdd(FDiv(FMul(FMulInt(Eps(9), 2), Money(b.c, p)), vega), Eps(6))
    IN  IF ~(b.c \in GBSFamily /\ a.c = b.c /\ a.q.price = b.r /\ b.m = IVSide(a.q) /\ IsNum(b.r)
             /\ [a.p EXCEPT !.sigma = 0] = [b.p EXCEPT !.sigma = 0]) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF FLt(vega, FMul(Money(b.c, p), FRat(1, 1000))) THEN << >>
        ELSE << Close("recovered", RootOf(a.r), p.sigma, tol) >>

---------------------------------------------------------------------------
(* spread option with K = 0: the call is the put of the swapped assets (C12) *)
Swapped(p) == [x \in DOMAIN p |->
    CASE x = "S1" -> p.S2 [] x = "S2" -> p.S1 [] x = "b1" -> p.b2 [] x = "b2" -> p.b1
      [] x = "sigma1" -> p.sigma2 [] x = "sigma2" -> p.sigma1 [] x = "Q1" -> p.Q2 [] x = "Q2" -> p.Q1 [] OTHER -> p[x]]
JSwap(a, b) ==
    IF ~(a.c = "SpreadApproxOption" /\ b.c = a.c /\ a.m = "call" /\ b.m = "put" /\ b.p = Swapped(a.p) /\ N(a.p.K)[1] = 0) THEN <<Truth("malformed", FALSE, a)>>
    ELSE IF ~IsNum(a.r) \/ ~IsNum(b.r) THEN <<Truth("swap", FALSE, a.r)>>
    ELSE << Close("swap", a.r, N(b.r), PriceTol(a.c, Pars(a.c, a.p))) >>

---------------------------------------------------------------------------
(* two classes for the same contract give the same price (C05) *)
JEquivalent(a, b) ==
    LET pa == Pars(a.c, a.p) pb == Pars(b.c, b.p)
        common == (DOMAIN a.p \cap DOMAIN b.p) \ {"K2"}
    IN  IF ~(a.c \in Trees2 /\ b.c \in Trees2 /\ a.m = b.m /\ OptionNo(a.c, pa) = OptionNo(b.c, pb)
             /\ \A x \in common : a.p[x] = b.p[x]) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF ~IsNum(a.r) \/ ~IsNum(b.r) THEN <<Truth("equivalent", FALSE, a.r)>>
        ELSE << Close("equivalent", a.r, N(b.r), PriceTol(a.c, pa)) >>

---------------------------------------------------------------------------
(* convergence (C13) *)
\* one contract's cash at time 0, the larger of the spot and the discounted forward value
Leg(s, b, p) == FMul(s, FMax(F1, Exp(FMul(FSub(b, p.r), p.t))))
\* equal-probability steps (Jarrow-Rudd, the two-asset pyramid) miss the forward by about sigma^4 t^2 / (12 n)
DriftMiss(v, p) == FDivInt(FSqr(FMul(FSqr(v), p.t)), 8)
\* n times the admitted distance to the limit: the payoff's kink lies between two nodes (sigma sqrt(t) / n), the forward is missed
RateTol(c, p) ==
    LET leg == Leg(p.S, p.b, p)
        kink == FMul(FMul(FAdd(leg, p.K), FMul(p.sigma, FSqrt(p.t))), (IF c = "TrinomialTreeOption" THEN FRat(2, 10) ELSE FRat(3, 10)))
        \* steps that are multiples of +-sigma carry a drift in the probabilities and lose b^2 dt^2 of the variance
        lost == IF c \in {"CRRBinomialTreeOption", "TrinomialTreeOption"}
                THEN FDiv(FMul(FMul(FSqr(p.b), p.t), FSqrt(p.t)), FMulInt(p.sigma, 4)) ELSE F0
    IN  FDivInt(FAdd(kink, FMul(leg, FAdd(lost, (IF c = "CRRBinomialTreeOption" THEN F0 ELSE DriftMiss(p.sigma, p))))), p.n)
JConverge(en) ==
    LET p == Pars(en.c, en.p)  z == Z(en.m)
    IN  IF en.c \in Trees1 /\ p.type = "european"
        THEN << Close("converges", en.r, GBS(p.S, p.K, p.t, p.r, p.b, p.sigma, z), RateTol(en.c, p)) >>
        ELSE << >>
JMargrabe(en) ==
    LET p == P2(en.c, Pars(en.c, en.p))
    IN  IF ~(p.option = 7 /\ p.otype = "european") THEN << >>
        ELSE LET kink == FMul(FMul(FAdd(p.sigma1, p.sigma2), FSqrt(p.t)), FRat(15, 100))
                 leg(q, s, b, v) == FMul(Leg(FMul(q, s), b, p), FAdd(kink, DriftMiss(v, p)))
                 tol == FDivInt(FAdd(leg(p.Q1, p.S1, p.b1, p.sigma1), leg(p.Q2, p.S2, p.b2, p.sigma2)), p.n)
                 sw == [p EXCEPT !.S1 = p.S2, !.S2 = p.S1, !.Q1 = p.Q2, !.Q2 = p.Q1, !.b1 = p.b2, !.b2 = p.b1,
                                 !.sigma1 = p.sigma2, !.sigma2 = p.sigma1]
             IN  << Close("converges to Margrabe", en.r, Margrabe(sw, Z(en.m)), tol) >>
\* American prices of two lattice types
JAgree(a, b) ==
    LET p == Pars(a.c, a.p)
    IN  IF ~(a.c \in Trees1 /\ b.c \in Trees1 /\ a.m = b.m /\ a.p = b.p) THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF ~IsNum(b.r) THEN <<Truth("agree", FALSE, b.r)>>
        ELSE << Close("agree", a.r, N(b.r), FAdd(RateTol(a.c, p), RateTol(b.c, p))) >>

---------------------------------------------------------------------------
(* static arbitrage (C26) *)
CashPars(c) == CASE c \in {"BAWAmericanApproxOption", "BSAmericanApproxOption", "GBSOption", "BlackScholesOption", "HestonNandiOption"} \cup Trees1 -> {"S", "K"}
                 [] c \in {"Black76Option", "MiltersenSchwartzOption"} -> {"FT", "K"}
                 [] c = "RollGeskeWhaleyOption" -> {"S", "K", "D"}
                 [] OTHER -> {"S1", "S2", "K", "K2"}
JScale(a, b) ==
    LET sx == CASE a.c \in {"Black76Option", "MiltersenSchwartzOption"} -> "FT" [] Keyed(a.c) -> "S1" [] OTHER -> "S"
        lam == FDiv(N(b.p[sx]), N(a.p[sx]))
        ok == /\ IsCall(a) /\ IsCall(b) /\ a.c = b.c /\ a.m = b.m
              /\ \A x \in DOMAIN a.p : IF x \in CashPars(a.c) /\ IsNum(a.p[x])
                                       THEN Near(N(b.p[x]), FMul(lam, N(a.p[x])), FMul(FAdd(FAbs(N(b.p[x])), Eps(9)), Eps(13)))
                                       ELSE a.p[x] = b.p[x]
        p == Pars(b.c, b.p)
        tol == FMul(IF a.c \in GBSFamily \cup {"MiltersenSchwartzOption", "SpreadApproxOption"} \cup Trees1 \cup Trees2 THEN Eps(9)
                    ELSE FMulInt(Eps(6), 3), Money(b.c, p))
        amp == Amplified(b.c, p)
    IN  IF ~ok THEN <<Truth("malformed", FALSE, <<a, b>>)>>
        ELSE IF ~IsNum(PV(a)) \/ ~IsNum(PV(b)) THEN <<Truth("price", FALSE, <<a.r, b.r>>)>>
        ELSE << Close("homogeneous", PV(b), FMul(lam, N(PV(a))), FAdd(amp, FMulInt(tol, 2))) >>
\* same option at strikes K1 < K2 < K3
JStrikes(es) ==
    LET a == es[1]
        ok == \A i \in DOMAIN es : IsCall(es[i]) /\ es[i].c = a.c /\ es[i].m = a.m /\ [es[i].p EXCEPT !.K = 0] = [a.p EXCEPT !.K = 0]
        k(i) == N(es[i].p.K)
        v(i) == N(PV(es[i]))
        inc == \A i \in 1..(Len(es) - 1) : FLt(k(i), k(i + 1))
        tol == FMul(FMulInt(Rel(a.c), 2), Money(a.c, Pars(a.c, es[Len(es)].p)))
        z == Z(a.m)
        mono(i) == Ver("monotone in K", FGe(FZ(z, FSub(v(i), v(i + 1))), FNeg(tol)), v(i), v(i + 1), tol)
        \* the price at the middle strike lies below the chord
        conv(i) == LET wt == FDiv(FSub(k(i + 2), k(i + 1)), FSub(k(i + 2), k(i)))
                       chord == FAdd(FMul(wt, v(i)), FMul(FSub(F1, wt), v(i + 2)))
                   IN  Ver("convex in K", FLe(v(i + 1), FAdd(chord, tol)), v(i + 1), chord, tol)
    IN  IF ~ok \/ ~inc THEN <<Truth("malformed", FALSE, a)>>
        ELSE IF \E i \in DOMAIN es : ~IsNum(PV(es[i])) THEN <<Truth("price", FALSE, es)>>
        ELSE IF a.c \in Trees1 /\ ~GoodProb(a.c, Pars(a.c, a.p)) THEN << >>
        ELSE [i \in 1..(Len(es) - 1) |-> mono(i)]
             \o (IF a.c \in GBSFamily \cup {"MiltersenSchwartzOption", "HestonNandiOption"} \cup Trees1
                 THEN [i \in 1..(Len(es) - 2) |-> conv(i)] ELSE << >>)
\* 0 and discounted intrinsic value <= price <= discounted forward (strike for puts)
JBounds(en) ==
    Elementwise(en, LAMBDA p, v0 :
      LET v == PriceOf(v0)
          z == Z(en.m)
          tol == FMulInt(PriceTol(en.c, p), 2)
          fs == CASE en.c \in GBSFamily -> FMul(Spot(en.c, p), Disc(FSub(p.r, Carry(en.c, p)), p.t))
                  [] en.c = "MiltersenSchwartzOption" -> FMul(p.Pt, FMul(p.FT, Exp(FNeg(MSCov(p)))))
                  [] en.c = "SpreadApproxOption" -> FMul(FMul(p.Q1, p.S1), Disc(FSub(p.r, p.b1), p.t))
                  [] OTHER -> p.S
          fk == CASE en.c \in GBSFamily -> FMul(p.K, Disc(p.r, p.t))
                  [] en.c = "MiltersenSchwartzOption" -> FMul(p.Pt, p.K)
                  [] en.c = "SpreadApproxOption" -> KirkBase(p)
                  [] OTHER -> FMul(p.K, HNDisc(p))
          x == N(v)
          up == IF z = 1 THEN fs ELSE fk
          lo == FMax(F0, FZ(z, FSub(fs, fk)))
      IN  IF ~IsNum(v) THEN << Truth("bounds", FALSE, v) >>
          ELSE << Ver("upper bound", FLe(x, FAdd(up, tol)), x, up, tol), Ver("lower bound", FGe(x, FSub(lo, tol)), x, lo, tol) >>)

---------------------------------------------------------------------------
JRelation(P, e, log) ==
    LET en(i) == log[e.i[i]]
        all == [i \in DOMAIN e.i |-> log[e.i[i]]]
    IN  CASE e.t = "parity" -> JParity(en(1), en(2))
          [] e.t = "dominates" -> JDominates(en(1), en(2))
          [] e.t = "index" -> JIndex(en(1), en(2), e.j)
          [] e.t = "dict" -> JDict(en(1), Tail(all))
          [] e.t = "deriv" -> JDeriv(e, log)
          [] e.t = "lambda" -> JLambda(en(1), en(2), en(3))
          [] e.t = "fdm" -> JFdm(en(1), en(2))
          [] e.t = "reprice" -> JReprice(en(1), en(2))
          [] e.t = "recover" -> JRecover(en(1), en(2))
          [] e.t = "swap" -> JSwap(en(1), en(2))
          [] e.t = "equivalent" -> JEquivalent(en(1), en(2))
          [] e.t = "agree" -> JAgree(en(1), en(2))
          [] e.t = "scale" -> JScale(en(1), en(2))
          [] e.t = "strikes" -> JStrikes(all)
          [] OTHER -> <<Truth("malformed", FALSE, e)>>

---------------------------------------------------------------------------
(* further single answers *)
JOptimal(en) == LET p == Pars(en.c, en.p) IN << Truth("is_call_optimal", en.r.k = "bool" /\ en.r.b = RGWOptimal(p), en.r) >>
JTrigger(en) ==
    LET p == Pars(en.c, en.p)  z == Z(en.m)
        w == BS93(p, z)
        a == BSArgs(p, z)
        t == en.r.d.TriggerPrice
    IN  IF en.r.k # "dict" \/ DOMAIN en.r.d # {"OptionPrice", "TriggerPrice"} THEN << Truth("answer", FALSE, en.r) >>
        ELSE << Close("price", en.r.d.OptionPrice, w[1], PriceTolZ(en.c, p, z)),
                IF BSEuropean(p, z) THEN Truth("no trigger", t.k = "nan", t)
                ELSE Close("trigger", t, w[2], FMul(FAdd(w[2], a.K), Eps(9))) >>
HNTol(p) == FMul(FAdd(p.S, p.K), FMulInt(Eps(7), 2))
JHN(en) ==
    LET p == Pars(en.c, en.p)
    IN  CASE en.m = "delta" -> << Close("delta", en.r, HNDelta(p, GArg(en.q)), FMulInt(Eps(6), 1)) >>
          [] en.m = "gamma" -> LET w == HNGamma(p) IN << Close("gamma", en.r, w, FAdd(FMul(w, Eps(5)), FDiv(Eps(5), p.S))) >>
          [] OTHER -> << >>

PriceProps == {"C02", "C10", "C11", "C12", "C14", "C15", "C05", "C22"}
JCall(P, en, log) ==
    IF MustRaise(en) # "" THEN <<Truth("must_raise", en.r.k = "exc" /\ en.r.t = MustRaise(en), en.r)>>
    ELSE IF en.r.k = "exc" THEN <<Truth("raised", FALSE, en.r)>>
    ELSE IF en.m = "get_params" THEN JParams(en)
    ELSE IF en.m = "is_call_optimal" THEN JOptimal(en)
    ELSE IF en.m \in {"call", "put"}
    THEN CASE P = "C02" -> JFunctional(en, log) \o (IF en.c \in Trees2 \/ "tree" \in DOMAIN en.q THEN << >> ELSE JPrice(en))
           [] P = "C27" -> JFunctional(en, log) \o (IF "tree" \in DOMAIN en.q /\ en.q.tree.b THEN (IF en.c \in Trees1 THEN JTree(en) ELSE << >>)
                                                 ELSE IF en.c = "BSAmericanApproxOption" THEN JTrigger(en) ELSE JPrice(en))
           [] P = "C16" \/ (P \in PriceProps /\ en.c = "BSAmericanApproxOption") -> JTrigger(en)
           [] P = "C04" -> IF "tree" \in DOMAIN en.q /\ en.q.tree.b THEN JTree(en) ELSE JPrice(en)
           [] P = "C03" -> JPremium(en)
           [] P = "C13" -> IF en.c \in Trees1 THEN JConverge(en) ELSE JMargrabe(en)
           [] P = "C26" -> IF en.c \in GBSFamily \cup {"MiltersenSchwartzOption", "SpreadApproxOption", "HestonNandiOption"} THEN JBounds(en) ELSE << >>
           [] P \in PriceProps -> JPrice(en)
           [] OTHER -> << >>
    ELSE (IF P \in {"C02", "C23", "C27"} THEN JFunctional(en, log) ELSE << >>)
      \o (IF P \in {"C06", "C27"} /\ IsAnalytic(en) THEN JGreek(en) ELSE << >>)
      \o (IF P \in {"C22", "C27"} /\ en.c = "HestonNandiOption" THEN JHN(en) ELSE << >>)
=============================================================================
