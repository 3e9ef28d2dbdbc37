------------------------------- MODULE FixNum -------------------------------
(***************************************************************************)
(* Fixed-point numbers with 24 decimal places.                             *)
(*                                                                         *)
(* A number is <<s, m>>: s is -1, 0 or 1, m is the magnitude scaled by     *)
(* 10^24, as a little-endian sequence of base-10^4 limbs without leading   *)
(* (i.e. trailing) zero limb.  <<0, <<>>>> is zero.  TLC integers have 32  *)
(* bits, so every limb product fits.                                       *)
(*                                                                         *)
(* Everything here is defined in plain TLA+.  The Java class               *)
(* finover.FixNum overrides FAdd, FSub, FMul, FDiv, FMulInt, FDivInt,      *)
(* FSqrt and FCmp with the same functions on BigInteger, for speed only:   *)
(* SelfTest.tla compares the two (see harness/selftest.py).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 10000
SC == 6                        \* limbs after the point: 10^24 = Base^6

---------------------------------------------------------------------------
(* Magnitudes: little-endian limb sequences. *)

RECURSIVE LTrim(_)
LTrim(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN LTrim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Max2(a, b) == IF a >= b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
Idx(n) == [i \in 1..n |-> i]

LCmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN 1 ELSE -1)
    ELSE FoldLeft(LAMBDA acc, i : IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE acc,
                  0, Idx(Len(a)))

LAdd(a, b) ==
    LET n == Max2(Len(a), Len(b))
        f == FoldLeft(LAMBDA acc, i :
                 LET s == Limb(a, i) + Limb(b, i) + acc[2]
                 IN  <<Append(acc[1], s % Base), s \div Base>>, << <<>>, 0>>, Idx(n))
    IN  LTrim(Append(f[1], f[2]))

\* a >= b
LSub(a, b) ==
    LET f == FoldLeft(LAMBDA acc, i :
                 LET s == a[i] - Limb(b, i) - acc[2]
                 IN  IF s < 0 THEN <<Append(acc[1], s + Base), 1>>
                     ELSE <<Append(acc[1], s), 0>>, << <<>>, 0>>, Idx(Len(a)))
    IN  LTrim(f[1])

\* 0 <= k < Base
LMulSmall(a, k) ==
    LET f == FoldLeft(LAMBDA acc, i :
                 LET s == a[i] * k + acc[2]
                 IN  <<Append(acc[1], s % Base), s \div Base>>, << <<>>, 0>>, Idx(Len(a)))
    IN  LTrim(Append(f[1], f[2]))

LShift(a, n) == IF a = <<>> THEN a ELSE Zeros(n) \o a
LDrop(a, n) == IF Len(a) <= n THEN <<>> ELSE SubSeq(a, n + 1, Len(a))

LMul(a, b) ==
    FoldLeft(LAMBDA acc, i : LAdd(acc, LShift(LMulSmall(a, b[i]), i - 1)), <<>>, Idx(Len(b)))

\* The largest q in lo..hi with q * b <= a
RECURSIVE QDigit(_, _, _, _)
QDigit(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF LCmp(LMulSmall(b, mid), a) <= 0 THEN QDigit(a, b, mid, hi)
             ELSE QDigit(a, b, lo, mid - 1)

\* Long division, truncated; b # <<>>
LDiv(a, b) ==
    LET n == Len(a)
        f == FoldLeft(LAMBDA acc, i :
                 LET r == LTrim(<<a[n + 1 - i]>> \o acc[2])
                     q == QDigit(r, b, 0, Base - 1)
                 IN  <<<<q>> \o acc[1], LSub(r, LMulSmall(b, q))>>, << <<>>, <<>>>>, Idx(n))
    IN  LTrim(f[1])

\* Integer square root by Newton iteration from above
RECURSIVE LSqrtIter(_, _)
LSqrtIter(a, x) ==
    LET y == LDiv(LAdd(x, LDiv(a, x)), <<2>>)
    IN  IF LCmp(y, x) >= 0 THEN x ELSE LSqrtIter(a, y)
LSqrt(a) == IF a = <<>> THEN a
            ELSE LSqrtIter(a, Append(Zeros((Len(a) + 1) \div 2), 1))

---------------------------------------------------------------------------
(* Signed fixed point. *)

FMk(s, m) == IF m = <<>> THEN <<0, <<>>>> ELSE <<s, m>>
F0 == <<0, <<>>>>
F1 == <<1, <<0, 0, 0, 0, 0, 0, 1>>>>

FNeg(a) == <<-a[1], a[2]>>
FAbs(a) == <<IF a[1] = 0 THEN 0 ELSE 1, a[2]>>
FSign(a) == a[1]

FAdd(a, b) ==
    IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN <<a[1], LAdd(a[2], b[2])>>
    ELSE LET c == LCmp(a[2], b[2])
         IN  IF c = 0 THEN F0
             ELSE IF c > 0 THEN <<a[1], LSub(a[2], b[2])>>
             ELSE <<b[1], LSub(b[2], a[2])>>
FSub(a, b) == FAdd(a, FNeg(b))

\* Products and quotients are truncated towards zero at 10^-24.
FMul(a, b) == FMk(a[1] * b[1], LDrop(LMul(a[2], b[2]), SC))
FDiv(a, b) == FMk(a[1] * b[1], LDiv(LShift(a[2], SC), b[2]))

AbsInt(n) == IF n < 0 THEN -n ELSE n
SgnInt(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
LInt(n) == LTrim(<<n % Base, (n \div Base) % Base, n \div (Base * Base)>>)
FInt(n) == IF n = 0 THEN F0 ELSE <<SgnInt(n), LShift(LInt(AbsInt(n)), SC)>>

FMulInt(a, n) == FMk(a[1] * SgnInt(n), LMul(a[2], LInt(AbsInt(n))))
FDivInt(a, n) == FMk(a[1] * SgnInt(n), LDiv(a[2], LInt(AbsInt(n))))
FSqrt(a) == FMk(1, LSqrt(LShift(a[2], SC)))      \* a >= 0

FCmp(a, b) ==
    IF a[1] # b[1] THEN (IF a[1] > b[1] THEN 1 ELSE -1)
    ELSE IF a[1] = 0 THEN 0
    ELSE a[1] * LCmp(a[2], b[2])

---------------------------------------------------------------------------
(* Derived. *)
FLt(a, b) == FCmp(a, b) < 0
FLe(a, b) == FCmp(a, b) <= 0
FGt(a, b) == FCmp(a, b) > 0
FGe(a, b) == FCmp(a, b) >= 0
FMax(a, b) == IF FGe(a, b) THEN a ELSE b
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FSqr(a) == FMul(a, a)
FRat(p, q) == FDivInt(FInt(p), q)
\* 10^-k, 0 <= k <= 24
FTiny(k) == LET z == 24 - k
            IN  <<1, Append(Zeros(z \div 4), <<1, 10, 100, 1000>>[(z % 4) + 1])>>
FSum(seq) == FoldLeft(FAdd, F0, seq)

RECURSIVE LToInt(_)
LToInt(m) == IF m = <<>> THEN 0 ELSE m[1] + Base * LToInt(Tail(m))
\* Truncation to a TLC integer (|a| < 2^31)
FTrunc(a) == a[1] * LToInt(LDrop(a[2], SC))
FFloor(a) == IF a[1] >= 0 THEN FTrunc(a)
             ELSE IF FCmp(FInt(FTrunc(a)), a) = 0 THEN FTrunc(a) ELSE FTrunc(a) - 1
FRound(a) == FFloor(FAdd(a, FRat(1, 2)))
RECURSIVE FPowInt(_, _)
FPowInt(a, n) == IF n = 0 THEN F1
                 ELSE IF n % 2 = 1 THEN FMul(a, FPowInt(a, n - 1))
                 ELSE FSqr(FPowInt(a, n \div 2))

\* e, where the override makes it d when e cannot be evaluated at all (a verdict must be total)
Attempt(e, d) == e

IsFix(v) == /\ Len(v) = 2 /\ v[1] \in {-1, 0, 1}
            /\ \A i \in 1..Len(v[2]) : v[2][i] \in 0..(Base - 1)
            /\ (v[1] = 0) <=> (v[2] = <<>>)
            /\ v[2] # <<>> => v[2][Len(v[2])] # 0
=============================================================================
