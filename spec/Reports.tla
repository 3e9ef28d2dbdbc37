------------------------------ MODULE Reports ------------------------------
(* What an object shows of itself: summary, print, str, repr (C24), tree plots (C25). *)
EXTENDS Relations

(* a report is parsed (by its layout only) into rep: title, names, vals, price lines, flag; a shown
   array is [k |-> "shown", l |-> leading elements, t |-> trailing ones, ell |-> shortened?] *)
ShownNum(s, x) == IsNum(s) /\ Near(N(s), N(x), FMul(FAbs(N(x)), Eps(14)))
ArrMax(a) == FoldLeft(LAMBDA acc, v : IF IsNum(v) THEN FMax(acc, FAbs(N(v))) ELSE acc, F1, a)
\* a long array is shown with two decimals, possibly without its middle; a short one as numpy prints it
ShownArr(s, a, tol) ==
    LET n == Len(a)
        el(x, y) == IsNum(x) /\ IsNum(y) /\ Near(N(x), N(y), tol)
    IN  /\ s.k = "shown"
        /\ s.ell => n > 6
        /\ IF s.ell THEN Len(s.l) + Len(s.t) <= n ELSE Len(s.l) = n /\ Len(s.t) = 0
        /\ \A i \in DOMAIN s.l : el(s.l[i], a[i])
        /\ \A i \in DOMAIN s.t : el(s.t[i], a[n - Len(s.t) + i])
\* no more than k decimals are shown (large numbers aside: a float has no decimals to spare there)
Decimals(v, k) == LET x == FMul(N(v), FInt(10^k))
                  IN  FGe(FAbs(x), FInt(2000000000)) \/ Near(x, FInt(FRound(x)), FAdd(Eps(9), FMul(FAbs(x), Eps(15))))
Half(k) == FAdd(FDivInt(Eps(k), 2), Eps(9))
Shown(s, v) ==
    CASE IsNum(v) -> ShownNum(s, v)
      [] v.k = "arr" -> ShownArr(s, v.a, IF Len(v.a) > 6 THEN Half(2) ELSE FMul(ArrMax(v.a), Eps(8)))
      [] OTHER -> s = v
Rounded(s, v) ==
    CASE IsNum(v) -> IsNum(s) /\ Near(N(s), N(v), FAdd(FAdd(FDivInt(Eps(6), 2), Eps(13)), FMul(FAbs(N(v)), Eps(14)))) /\ Decimals(s, 6)
      [] v.k = "arr" -> ShownArr(s, v.a, Half(2)) /\ \A i \in DOMAIN s.l : Decimals(s.l[i], 2)
      [] OTHER -> s = v

PriceLabels(en) ==
    LET ty == IF en.c \in Trees1 THEN "-" \o en.p.type.s ELSE IF en.c \in Trees2 THEN "-" \o en.p.otype.s ELSE ""
    IN  IF HasPut(en.c) THEN << "call" \o ty, "put" \o ty >> ELSE << "call" >>
Answers(en, log, m) == {i \in DOMAIN log : IsCall(log[i]) /\ log[i].c = en.c /\ log[i].p = en.p /\ log[i].m = m /\ DOMAIN log[i].q = {}}
JReport(en, log) ==
    LET ns == Params(en.c)
        r == en.rep
        ms == IF HasPut(en.c) THEN <<"call", "put">> ELSE <<"call">>
        ans == [i \in DOMAIN ms |-> log[CHOOSE k \in Answers(en, log, ms[i]) : TRUE].r]
        priced == \A i \in DOMAIN ans : ans[i].k # "exc"
        lbl == PriceLabels(en)
        vals == Ver("values", Len(r.vals) = Len(ns) /\ \A i \in DOMAIN ns : Shown(r.vals[i], en.p[ns[i]]), r.vals, en.p, 0)
        line(i) ==
            LET l == r.prices[i]
                bs == en.c = "BSAmericanApproxOption"
                w == IF bs THEN ans[i].d.OptionPrice ELSE ans[i]
            IN  << Ver("price label", l.label = lbl[i], l.label, lbl[i], 0),
                   Ver("price shown", Rounded(l.v, w), l.v, w, 0),
                   Ver("trigger shown", IF bs THEN Rounded(l.trigger, ans[i].d.TriggerPrice) ELSE l.trigger = None, l.trigger, 0, 0) >>
    IN  IF en.r.k = "exc" THEN << Truth("report failed", FALSE, en.r) >>
        ELSE IF r.kind = "repr" THEN << Ver("name", r.name = en.c, r.name, en.c, 0), vals >>
        ELSE IF \E i \in DOMAIN ms : Answers(en, log, ms[i]) = {} THEN << Truth("malformed", FALSE, en) >>
        ELSE << Ver("title", r.title = Title(en.c) \o " Valuation", r.title, Title(en.c), 0),
                Ver("names", r.names = ns, r.names, ns, 0), vals,
                Truth("nothing else", Len(r.junk) = 0, r.junk),
                Ver("price lines", Len(r.prices) = (IF priced THEN Len(lbl) ELSE 0), r.prices, IF priced THEN lbl ELSE << >>, 0),
                Ver("exercise flag", IF en.c = "RollGeskeWhaleyOption"
                                     THEN r.flag = [k |-> "bool", b |-> RGWOptimal(Pars(en.c, en.p))] ELSE r.flag = None, r.flag, 0, 0),
                Ver("returned", r.ret = (IF r.how = "printed" THEN "None" ELSE "text"), r.ret, r.how, 0) >>
             \o (IF priced /\ Len(r.prices) = Len(lbl) THEN FoldLeft(LAMBDA acc, i : acc \o line(i), << >>, Idx(Len(lbl))) ELSE << >>)

---------------------------------------------------------------------------
(* plots: nodes at (j, y), y counting up-moves against down-moves *)
Nodes(L, n) == {<<j, i>> \in (0..n) \X (0..(2*n)) : i < Width(L, j)}
NodeY(L, nd) == IF L.br = 2 THEN 2 * nd[2] - nd[1] ELSE nd[2] - nd[1]
Edges(L, n) == {<<nd[1], NodeY(L, nd), nd[1] + 1, NodeY(L, <<nd[1] + 1, nd[2] + k>>)>> :
                  nd \in {x \in Nodes(L, n) : x[1] < n}, k \in 0..(L.br - 1)}
JPlot(en) ==
    LET p == Pars(en.c, en.p)
        z == IF en.q.call.b THEN 1 ELSE -1
        L == Params1(en.c, p)
        ly == Layers(L, p, z, Pw(L, p.n))
        tol == FAdd(FDivInt(Eps(en.q.digits.n), 2), FMul(FAdd(p.S, p.K), Eps(9)))
        lab == en.rep.labels        \* <<x, y, shown value>>, x and y without the requested offsets, in units of 1
        at == [i \in DOMAIN lab |-> {nd \in Nodes(L, p.n) : nd[1] = lab[i].x /\ NodeY(L, nd) = lab[i].y}]
        right(i) == at[i] # {} /\ LET nd == CHOOSE nd \in at[i] : TRUE
                                  IN  IsNum(lab[i].v) /\ Near(N(lab[i].v), ly[nd[1] + 1][nd[2] + 1], tol) /\ Decimals(lab[i].v, en.q.digits.n)
        wrong == {i \in DOMAIN lab : ~right(i)}
        seen == UNION {at[i] : i \in DOMAIN lab}
        edges == {en.rep.edges[i] : i \in DOMAIN en.rep.edges}
    IN  IF en.r.k = "exc" THEN << Truth("plot failed", FALSE, en.r) >>
        ELSE << Truth("labels", wrong = {}, [i \in wrong |-> lab[i]]),
                Truth("every node labelled", seen = Nodes(L, p.n), Nodes(L, p.n) \ seen),
                Truth("edges", edges = Edges(L, p.n), <<edges \ Edges(L, p.n), Edges(L, p.n) \ edges>>) >>
=============================================================================
