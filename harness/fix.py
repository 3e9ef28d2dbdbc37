"""Numbers as the specification's fixed-point tuples (FixNum.tla)."""
import math
from fractions import Fraction

SC = 10 ** 24


def enc_int(n):
    """Scaled integer -> [sign, limbs]."""
    if n == 0:
        return [0, []]
    s, m, limbs = (1 if n > 0 else -1), abs(n), []
    while m:
        m, d = divmod(m, 10000)
        limbs.append(d)
    return [s, limbs]


def fix(x):
    """A real number -> fixed point, rounded to the nearest 10^-24 (exact integer arithmetic)."""
    fr = Fraction(x) * SC
    n, d = fr.numerator, fr.denominator
    q, r = divmod(abs(n), d)
    if 2 * r >= d:
        q += 1
    return enc_int(q if n >= 0 else -q)


def unfix(v):
    m = 0
    for l in reversed(v[1]):
        m = m * 10000 + l
    return float(Fraction(v[0] * m, SC))
