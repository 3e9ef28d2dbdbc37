------------------------------ MODULE SelfTest ------------------------------
(* Prints the results of every overridden operator on pseudo-random and      *)
(* awkward operands.  harness/selftest.py runs it with and without the Java  *)
(* overrides and compares; the laws below must hold in both.                 *)
EXTENDS RealMath, TLC

CONSTANT NS

\* Lehmer generator; 32-bit safe: 16807 * 65535 < 2^31
RECURSIVE Rnd(_, _)
Rnd(s, n) == IF n = 0 THEN <<>> ELSE LET x == ((s * 16807) + 12345) % 65521 IN <<x>> \o Rnd(x, n - 1)

\* operand k: magnitude from 1 to 12 limbs, sign from the stream
Operand(k) ==
    LET r == Rnd(k * 37 + 5, 16)
        n == 1 + (r[1] % 12)
        m == LTrim([i \in 1..n |-> IF r[i + 2] % 7 = 0 THEN 0 ELSE IF r[i + 2] % 11 = 0 THEN 9999 ELSE r[i + 2] % 10000])
    IN  FMk(IF r[2] % 2 = 0 THEN 1 ELSE -1, m)
Edge == << F0, F1, FNeg(F1), FTiny(24), FNeg(FTiny(24)), FTiny(12), FInt(10000), FInt(9999), FInt(2147483647), FRat(1, 3), FNeg(FRat(2, 7)) >>
Op(k) == IF k <= Len(Edge) THEN Edge[k] ELSE Operand(k)
\* arguments of moderate size for the transcendental functions
Mod(k) == LET r == Rnd(k * 53 + 1, 4) IN FAdd(FInt((r[1] % 19) - 9), FDivInt(FInt(r[2]), 65521))

Arith(k) ==
    LET a == Op(k) b == Op(((k * 7) % (NS + 1)) + 1)
        n == IF k % 3 = 0 THEN -(k * 9973 + 1) ELSE k * 65537 + 1
    IN  << FAdd(a, b), FSub(a, b), FMul(a, b), IF b = F0 THEN F0 ELSE FDiv(a, b), FMulInt(a, n), FDivInt(a, n),
           FSqrt(FAbs(a)), FCmp(a, b) >>
Laws(k) ==
    LET a == Op(k) b == Op(((k * 7) % (NS + 1)) + 1)
    IN  /\ IsFix(a) /\ \A x \in 1..7 : IsFix(Arith(k)[x])
        /\ FSub(FAdd(a, b), b) = a
        /\ FMul(a, b) = FMul(b, a)
        /\ FCmp(a, b) = -FCmp(b, a)
        /\ FCmp(FAdd(a, FTiny(24)), a) = 1
        /\ LET q == FSqrt(FAbs(a)) IN FLe(FSqr(q), FAbs(a))
Trans(k) ==
    LET x == Mod(k) y == Mod(k + 1000) c == <<x, y>> d == <<y, FAdd(x, F1)>>
    IN  << Exp(x), Ln(FAdd(FSqr(x), FTiny(6))), SinCos(FMulInt(x, 5)), Pdf(x), Phi(x), Phi(FDivInt(x, 3)),
           CMul(c, d), CInv(<<x, FAdd(FAbs(y), F1)>>), CSqrt(c) >>
Close18(a, b) == FLt(FAbs(FSub(a, b)), FTiny(18))
TransLaws(k) ==
    LET x == Mod(k) y == Mod(k + 1000)
        sc == SinCos(x)
    IN  /\ Close18(FMul(Exp(x), Exp(FNeg(x))), F1)
        /\ FLt(FAbs(FSub(Ln(Exp(FDivInt(x, 2))), FDivInt(x, 2))), FTiny(17))
        /\ Close18(FAdd(FSqr(sc[1]), FSqr(sc[2])), F1)
        /\ Close18(FAdd(Phi(x), Phi(FNeg(x))), F1)
        /\ LET r == CSqrt(<<x, y>>) q == CMul(r, r) IN FLt(FAbs(FSub(q[1], x)), FTiny(10)) /\ FLt(FAbs(FSub(q[2], y)), FTiny(10))
\* the tail fraction and the series meet; the density is the derivative of the distribution
Joins == /\ FLt(FAbs(FSub(Phi(FAdd(PhiTail, FTiny(20))), Phi(FSub(PhiTail, FTiny(20))))), FTiny(17))
         /\ \A k \in 1..6 : LET x == FDivInt(Mod(k), 3) h == FTiny(5)
                            IN  FLt(FAbs(FSub(FDiv(FSub(Phi(FAdd(x, h)), Phi(FSub(x, h))), FMulInt(h, 2)), Pdf(x))), FTiny(9))

VARIABLE k
Init == k = 0
Next == /\ k < NS /\ k' = k + 1
        /\ PrintT(<<"A", k', Arith(k')>>)
        /\ (k' % 8 = 0) => PrintT(<<"T", k', Trans(k')>>)
Inv == k > 0 => Laws(k) /\ (k % 8 = 0 => TransLaws(k)) /\ (k = 1 => Joins)
Done == k = NS
Spec == Init /\ [][Next]_k
=============================================================================
