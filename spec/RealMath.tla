------------------------------ MODULE RealMath ------------------------------
(* Elementary functions, the normal distribution and complex numbers over   *)
(* FixNum.  Truncation errors are below 10^-18 for the arguments used here. *)
EXTENDS FixNum

Down(n) == [i \in 1..n |-> n + 1 - i]
F2 == FInt(2)
FHalf == FRat(1, 2)

\* atanh(y) = y (1 + y^2/3 + y^4/5 + ...), n terms
Atanh(y, n) ==
    LET y2 == FSqr(y)
    IN  FMul(y, FoldLeft(LAMBDA acc, j : FAdd(FDivInt(F1, 2*j - 1), FMul(y2, acc)), F0, Down(n)))
\* arctan(1/q)
AtanInv(q, n) ==
    FoldLeft(LAMBDA acc, j : FSub(FDivInt(F1, 2*j - 1), FDivInt(FDivInt(acc, q), q)), F0, Down(n))

Ln2 == FMulInt(Atanh(FRat(1, 3), 30), 2)
Pi == FSub(FMulInt(FDivInt(AtanInv(5, 22), 5), 16), FMulInt(FDivInt(AtanInv(239, 8), 239), 4))
TwoPi == FMulInt(Pi, 2)
HalfPi == FDivInt(Pi, 2)
Sqrt2Pi == FSqrt(TwoPi)

RECURSIVE TimesPow2(_, _)
TimesPow2(x, k) == IF k > 20 THEN TimesPow2(FMulInt(x, 1048576), k - 20)
                   ELSE IF k > 0 THEN FMulInt(x, 2^k)
                   ELSE IF k = 0 THEN x
                   ELSE IF k < -20 THEN TimesPow2(FDivInt(x, 1048576), k + 20)
                   ELSE FDivInt(x, 2^(-k))

Exp(x) ==
    IF FLt(x, FInt(-60)) THEN F0
    ELSE LET k == FRound(FDiv(x, Ln2))
             r == FDivInt(FSub(x, FMulInt(Ln2, k)), 16)
             t == FoldLeft(LAMBDA acc, i : FAdd(F1, FDivInt(FMul(r, acc), i)), F1, Down(13))
         IN  TimesPow2(FSqr(FSqr(FSqr(FSqr(t)))), k)

F1024 == FInt(1024)
Sqrt2Up == FRat(142, 100)
Sqrt2Lo == FRat(71, 100)
RECURSIVE LnRed(_, _)
LnRed(x, k) == IF FGe(x, F1024) THEN LnRed(FDivInt(x, 1024), k + 10)
               ELSE IF FGe(x, Sqrt2Up) THEN LnRed(FDivInt(x, 2), k + 1)
               ELSE IF FLt(FMulInt(x, 1024), F1) THEN LnRed(FMulInt(x, 1024), k - 10)
               ELSE IF FLt(x, Sqrt2Lo) THEN LnRed(FMulInt(x, 2), k - 1)
               ELSE <<x, k>>
Ln(x) == LET m == LnRed(x, 0)
         IN  FAdd(FMulInt(Atanh(FDiv(FSub(m[1], F1), FAdd(m[1], F1)), 17), 2), FMulInt(Ln2, m[2]))
Pow(x, y) == Exp(FMul(y, Ln(x)))

\* <<sin, cos>>
SinCos(x) ==
    LET k == FRound(FDiv(x, HalfPi))
        r == FSub(x, FMulInt(HalfPi, k))
        r2 == FSqr(r)
        s == FMul(r, FoldLeft(LAMBDA acc, i : FSub(F1, FDivInt(FMul(r2, acc), 2*i*(2*i + 1))), F1, Down(11)))
        c == FoldLeft(LAMBDA acc, i : FSub(F1, FDivInt(FMul(r2, acc), (2*i - 1)*2*i)), F1, Down(11))
        q == k % 4
    IN  CASE q = 0 -> <<s, c>>
          [] q = 1 -> <<c, FNeg(s)>>
          [] q = 2 -> <<FNeg(s), FNeg(c)>>
          [] OTHER -> <<FNeg(c), s>>

---------------------------------------------------------------------------
(* Normal distribution *)
Pdf(x) == IF FGe(FAbs(x), FInt(10)) THEN F0
          ELSE FDiv(Exp(FNeg(FDivInt(FSqr(x), 2))), Sqrt2Pi)

PhiMax == FRat(19, 2)
PhiTail == FInt(4)
Phi(x) ==
    LET y == FAbs(x)
    IN  IF FGe(y, PhiMax) THEN (IF x[1] > 0 THEN F1 ELSE F0)
        ELSE IF FGe(y, PhiTail)     \* Laplace's continued fraction for the tail
        THEN LET f == FoldLeft(LAMBDA acc, k : FAdd(y, FDiv(FInt(k), acc)), y, Down(40))
                 q == FDiv(Pdf(x), f)
             IN  IF x[1] > 0 THEN FSub(F1, q) ELSE q
        ELSE LET x2 == FSqr(x)
                 n == 12 + FTrunc(FMulInt(y, 10)) + FTrunc(FMul(x2, FRat(6, 5)))
                 f == FoldLeft(LAMBDA acc, k :
                          LET t == FDivInt(FMul(acc[1], x2), 2*k + 1) IN <<t, FAdd(acc[2], t)>>,
                          <<x, x>>, Idx(n))
             IN  FAdd(FHalf, FMul(Pdf(x), f[2]))

\* Composite Simpson rule for F on [a, b] with 2n intervals
Simpson(F(_), a, b, n) ==
    LET h == FDivInt(FSub(b, a), 2*n)
        s == FoldLeft(LAMBDA acc, i : FAdd(acc, FMulInt(F(FAdd(a, FMulInt(h, i))), IF i % 2 = 1 THEN 4 ELSE 2)),
                      F0, Idx(2*n - 1))
    IN  FDivInt(FMul(h, FAdd(s, FAdd(F(a), F(b)))), 3)

RECURSIVE AsinIter(_, _, _)
AsinIter(r, th, n) == IF n = 0 THEN th
                      ELSE LET sc == SinCos(th) IN AsinIter(r, FAdd(th, FDiv(FSub(r, sc[1]), sc[2])), n - 1)
Asin(r) == LET r2 == FSqr(r)
           IN  IF FGt(r2, FHalf)
               THEN LET a == AsinIter(FSqrt(FSub(F1, r2)), FSqrt(FSub(F1, r2)), 7)
                    IN  IF r[1] > 0 THEN FSub(HalfPi, a) ELSE FSub(a, HalfPi)
               ELSE AsinIter(r, r, 7)

\* Bivariate normal distribution: Plackett's integral over the angle
Phi2(h, k, rho) ==
    LET hk == FMul(h, k)
        ss == FAdd(FSqr(h), FSqr(k))
        G(th) == LET sc == SinCos(th)
                 IN  Exp(FNeg(FDiv(FSub(ss, FMulInt(FMul(hk, sc[1]), 2)), FMulInt(FSqr(sc[2]), 2))))
    IN  FAdd(FMul(Phi(h), Phi(k)), FDiv(Simpson(G, F0, Asin(rho), 32), TwoPi))

---------------------------------------------------------------------------
(* Complex numbers <<re, im>> *)
CAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
CSub(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
CMul(a, b) == <<FSub(FMul(a[1], b[1]), FMul(a[2], b[2])), FAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
CScale(a, x) == <<FMul(a[1], x), FMul(a[2], x)>>
CInv(a) == LET n == FAdd(FSqr(a[1]), FSqr(a[2])) IN <<FDiv(a[1], n), FNeg(FDiv(a[2], n))>>
CDivInt2(a) == <<FDivInt(a[1], 2), FDivInt(a[2], 2)>>
CDiv(a, b) == CMul(a, CInv(b))
CReal(x) == <<x, F0>>
CExp(a) == LET e == Exp(a[1]) sc == SinCos(a[2]) IN <<FMul(e, sc[2]), FMul(e, sc[1])>>
\* principal square root (re >= 0)
CSqrt(a) == LET r == FSqrt(FAdd(FSqr(a[1]), FSqr(a[2])))
                u == FSqrt(FDivInt(FMax(FAdd(r, a[1]), F0), 2))
                v == FSqrt(FDivInt(FMax(FSub(r, a[1]), F0), 2))
            IN  <<u, IF a[2][1] < 0 THEN FNeg(v) ELSE v>>
=============================================================================
