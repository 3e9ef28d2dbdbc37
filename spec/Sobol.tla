------------------------------- MODULE Sobol -------------------------------
(***************************************************************************)
(* The Sobol sequence (Joe and Kuo's direction numbers, first dimensions), *)
(* in Gray-code order: point k differs from point k-1 in the direction of  *)
(* the lowest zero bit of k-1.  Coordinates are integers of Bits bits.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Bits == 30
TwoTo(k) == 2^k
\* degree, coefficients, initial numbers; dimension 1 is van der Corput
Poly == << <<1, 0, <<1>>>>, <<2, 1, <<1, 3>>>>, <<3, 1, <<1, 3, 1>>>>, <<3, 2, <<1, 1, 1>>>>,
           <<4, 1, <<1, 1, 3, 3>>>>, <<4, 4, <<1, 3, 5, 13>>>>, <<5, 2, <<1, 1, 5, 5, 17>>>>,
           <<5, 4, <<1, 1, 5, 5, 5>>>>, <<5, 7, <<1, 1, 7, 11, 19>>>>, <<5, 11, <<1, 1, 5, 1, 1>>>>,
           <<5, 13, <<1, 1, 1, 3, 11>>>>, <<5, 14, <<1, 3, 5, 5, 31>>>>,
           <<6, 1, <<1, 3, 3, 9, 7, 49>>>>, <<6, 13, <<1, 1, 1, 15, 21, 21>>>>,
           <<6, 16, <<1, 3, 1, 13, 27, 49>>>> >>
MaxDim == 1 + Len(Poly)
Bit(a, k) == (a \div TwoTo(k)) % 2
\* m_1 .. m_n of the recurrence; n is small enough for 32 bits because only n <= 12 points bits are used
Numbers(d, n) ==
    IF d = 1 THEN [j \in 1..n |-> 1]
    ELSE LET s == Poly[d-1][1]  a == Poly[d-1][2]  m0 == Poly[d-1][3]
         IN  FoldLeft(LAMBDA m, j :
                 IF j <= s THEN Append(m, m0[j])
                 ELSE LET x == FoldLeft(LAMBDA acc, k : acc ^^ (IF Bit(a, s - 1 - k) = 1 THEN m[j-k] * TwoTo(k) ELSE 0),
                                        (m[j-s] * TwoTo(s)) ^^ m[j-s], [k \in 1..(s-1) |-> k])
                      IN  Append(m, x), << >>, [j \in 1..n |-> j])
Dirs(d, n) == LET m == Numbers(d, n) IN [j \in 1..n |-> m[j] * TwoTo(Bits - j)]
LowZero(k) == CHOOSE c \in 0..Bits : Bit(k, c) = 0 /\ \A e \in 0..(c-1) : Bit(k, e) = 1
\* points 1..n of dimension d
Points(d, n) ==
    LET v == Dirs(d, 13)
    IN  Tail(FoldLeft(LAMBDA acc, k : Append(acc, acc[Len(acc)] ^^ v[LowZero(k - 1) + 1]), <<0>>, [k \in 1..n |-> k]))
=============================================================================
