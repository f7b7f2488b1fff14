"""Exponent vectors of the SI system and their Rust spelling."""
from fractions import Fraction as Fr

BASE = ["length", "time", "mass", "temperature", "current", "amount_of_substance", "luminous_intensity"]
SHORT = ["L", "T", "M", "K", "I", "N", "J"]
ZERO = tuple([Fr(0)] * 7)


def vec(**kw):
    v = [Fr(0)] * 7
    for k, x in kw.items():
        v[SHORT.index(k)] = Fr(x)
    return tuple(v)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def neg(a):
    return tuple(-x for x in a)


def mul(a, n):
    return tuple(x * n for x in a)


def exponent(x, rational, path="Ratio"):
    if not rational:
        assert x.denominator == 1
        return str(x.numerator)
    return "%s::new(%d, %d)" % (path, x.numerator, x.denominator)


def lit(v, rational, base=BASE, ty="Dimension"):
    return "{ %s { %s } }" % (ty, ", ".join("%s: %s" % (b, exponent(x, rational)) for b, x in zip(base, v)))


def show(v):
    return "·".join("%s^%s" % (s, x) for s, x in zip(SHORT, v) if x) or "1"


UNIT_VECTORS = [tuple(Fr(1 if i == j else 0) for j in range(7)) for i in range(7)]
# mixed vectors: every base dimension occurs with positive, negative and large exponents
MIXED = [
    vec(L=1, T=-1), vec(L=1, T=-2, M=1), vec(L=2, T=-2, M=1, K=-1), vec(T=4, I=2, M=-1, L=-3),
    vec(N=-1, J=1), vec(L=-3, N=2), vec(J=-2, K=3, T=1), vec(L=7, T=-5, M=3, K=-2, I=4, N=-6, J=5),
    vec(I=-1, N=5, J=-4, M=-3), vec(L=-1, T=-1, M=-1, K=-1, I=-1, N=-1, J=-1), vec(M=9), vec(K=-8, I=12),
]
# exponents beyond the ranges of narrower integers
LARGE = [vec(L=100, T=-120, M=127, K=-128, I=90, N=-101, J=77), vec(L=-30000, T=32767, M=-32768, K=20001, I=-17000, N=29999, J=25000),
         vec(L=2 * 10 ** 9, T=-15 * 10 ** 8, M=-2 ** 31, K=2 ** 31 - 1, I=1900000001, N=-1800000001, J=1700000001)]
RATIONAL = [vec(L="1/2"), vec(L="3/2", M="-1/2"), vec(T="-5/3", K="7/6"), vec(I="2/3", N="-1/4", J="11/5"),
            vec(L="-1/2", T="1/3", M="1/4", K="1/5", I="1/6", N="1/7", J="-1/8")]
