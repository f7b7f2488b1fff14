"""Mathematical methods of quantities."""
import dims as D
import prog as P
from core import accepted, rejected, twins
from C03 import RefTwins
import mirrules

TITLE = "math methods compute the method of the number and the right dimension"
WHERE = "method implementations (codegen/float_methods.rs, generic_methods.rs, num_traits/mod.rs)"
DIMENSIONLESS = ["log2", "ln", "log10", "exp", "exp2", "ceil", "floor", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh",
                 "tanh", "asinh", "acosh", "atanh", "exp_m1", "ln_1p"]


def cases(t, s, v, rational):
    """(key, quantity signature, quantity body, number signature, number body and others that are the same)"""
    q = lambda d: t.q(d, s)
    out = []
    add = lambda *a: out.append(a)
    add("squared", "(a: &%s) -> %s" % (q(v), q(D.mul(v, 2))), "a.squared()", "(a: &%s) -> %s" % (s, s), "a.powi(2)", ["*a * *a"])
    add("cubed", "(a: &%s) -> %s" % (q(v), q(D.mul(v, 3))), "a.cubed()", "(a: &%s) -> %s" % (s, s), "a.powi(3)", ["*a * *a * *a", "*a * (*a * *a)"])
    for n in (-70000, -3, -1, 0, 1, 2, 3, 4, 7, 200, 40000, 2147483647):
        add("powi %d" % n, "(a: &%s) -> %s" % (q(v), q(D.mul(v, n))), "a.powi::<{ %d }>()" % n, "(a: &%s) -> %s" % (s, s), "a.powi(%d)" % n)
    add("sqrt", "(a: &%s) -> %s" % (q(D.mul(v, 2)), q(v)), "a.sqrt()", "(a: &%s) -> %s" % (s, s), "a.sqrt()")
    add("cbrt", "(a: &%s) -> %s" % (q(D.mul(v, 3)), q(v)), "a.cbrt()", "(a: &%s) -> %s" % (s, s), "a.cbrt()")
    if rational:
        add("sqrt odd", "(a: &%s) -> %s" % (q(v), q(D.mul(v, D.Fr(1, 2)))), "a.sqrt()", "(a: &%s) -> %s" % (s, s), "a.sqrt()")
        add("cbrt odd", "(a: &%s) -> %s" % (q(v), q(D.mul(v, D.Fr(1, 3)))), "a.cbrt()", "(a: &%s) -> %s" % (s, s), "a.cbrt()")
    two, twof = "(a: %s, b: %s) -> %s" % (q(v), q(v), q(v)), "(a: %s, b: %s) -> %s" % (s, s, s)
    add("min", two, "a.min(b)", twof, "a.min(b)")
    add("max", two, "a.max(b)", twof, "a.max(b)")
    add("min dimensionless with bare", "(a: %s, b: %s) -> %s" % (q(D.ZERO), s, q(D.ZERO)), "a.min(b)", twof, "a.min(b)")
    add("max dimensionless with bare", "(a: %s, b: %s) -> %s" % (q(D.ZERO), s, q(D.ZERO)), "a.max(b)", twof, "a.max(b)")
    add("clamp", "(a: %s, b: %s, d: %s) -> %s" % ((q(v),) * 4), "a.clamp(b, d)", "(a: %s, b: %s, d: %s) -> %s" % ((s,) * 4), "a.clamp(b, d)")
    add("clamp dimensionless with bare", "(a: %s, b: %s, d: %s) -> %s" % (q(D.ZERO), s, s, q(D.ZERO)), "a.clamp(b, d)",
        "(a: %s, b: %s, d: %s) -> %s" % ((s,) * 4), "a.clamp(b, d)")
    add("zero", "() -> %s" % q(v), "<%s>::zero()" % q(v), "() -> %s" % s, "0.0")
    for m, e in (("is_positive", "*a > 0.0"), ("is_positive_or_zero", "*a >= 0.0"), ("is_negative", "*a < 0.0"),
                 ("is_negative_or_zero", "*a <= 0.0"), ("is_nan", "a.is_nan()")):
        add(m, "(a: &%s) -> bool" % q(v), "a.%s()" % m, "(a: &%s) -> bool" % s, e)
    return out


def generic(t, s, v):
    q = lambda d: t.q(d, s)
    zero = "0.0" if s in P.FLOATS else "<%s>::ZERO" % s
    return [
        ("abs", "(a: &%s) -> %s" % (q(v), q(v)), "a.abs()", "(a: &%s) -> %s" % (s, s), "a.abs()"),
        ("neg", "(a: %s) -> %s" % (q(v), q(v)), "-a", "(a: %s) -> %s" % (s, s), "-a"),
        ("sum of two", "(a: [%s; 2]) -> %s" % (q(v), q(v)), "a.into_iter().sum()", "(a: [%s; 2]) -> %s" % (s, s), "%s + a[0] + a[1]" % zero),
        ("sum of three", "(a: [%s; 3]) -> %s" % (q(v), q(v)), "a.into_iter().sum()", "(a: [%s; 3]) -> %s" % (s, s),
         "%s + a[0] + a[1] + a[2]" % zero),
        ("sum of none", "(a: [%s; 0]) -> %s" % (q(v), q(v)), "a.into_iter().sum()", "(a: [%s; 0]) -> %s" % (s, s), zero),
        ("default", "() -> %s" % q(v), "<%s>::default()" % q(v), "() -> %s" % s, zero),
        ("copy", "(a: %s) -> (%s, %s)" % (q(v), q(v), q(v)), "(a, a.clone())", "(a: %s) -> (%s, %s)" % (s, s, s), "(a, a)"),
    ]


def run(c):
    for cfg in ("default", "all-features"):
        t = P.Types(cfg)
        r = c.rule("methods-%s" % cfg, "a math method has the independently computed dimension and optimises to the same code as "
                   "the method of the bare number [%s]" % cfg, 100)
        rational = P.rational(cfg)
        tw = RefTwins(cfg, "c04", t, P.uses(cfg))
        vs = [D.vec(L=1), D.vec(L=1, T=-1, J=2), D.MIXED[7], D.vec(K=-8, I=12)] + (D.RATIONAL[:2] + D.RATIONAL[4:5] if rational else [])
        for s in P.storages(cfg):
            for i, v in enumerate(vs):
                cs = (cases(t, s, v, rational) if s in P.FLOATS else []) + generic(t, s, v)
                for k in cs:
                    tw.add("%s %s %s" % (k[0], P.short(s), D.show(v)), *k[1:])
            if s in P.FLOATS:
                for m in DIMENSIONLESS:
                    tw.add("%s %s" % (m, s), "(a: &%s) -> %s" % (t.q(D.ZERO, s), t.q(D.ZERO, s)), "a.%s()" % m,
                           "(a: &%s) -> %s" % (s, s), "a.%s()" % m)
        twins(c, r, tw, WHERE)

        r = c.rule("gated-%s" % cfg, "a function of numbers that has no meaning for a dimension is not available on a quantity "
                   "with that dimension [%s]" % cfg, 100)
        cr = P.LazyCrate(cfg, "c04-neg", t, P.uses(cfg))
        n = 0
        vs = [D.vec(L=1), D.vec(J=-1), D.vec(T=-1, M=1), D.MIXED[7]] + ([D.RATIONAL[0]] if rational else [])
        for s in P.FLOATS:
            for v in vs:
                for m in DIMENSIONLESS + ["round", "trunc", "signum", "recip", "to_bits", "to_radians", "fract"]:
                    n += 1
                    cr.add("%s %s %s" % (m, s, D.show(v)), "pub fn g%d(a: %s) { let _ = a.%s(); }" % (n, t.q(v, s), m))
                for m, args in (("powf", "2.0"), ("powi", "2"), ("atan2", "a.0"), ("mul_add", "a.0, a.0"), ("log", "a.0")):
                    n += 1
                    cr.add("%s %s %s" % (m, s, D.show(v)), "pub fn g%d(a: %s) { let _ = a.%s(%s); }" % (n, t.q(v, s), m, args))
                for op in ("Rem", "RemAssign"):
                    n += 1
                    cr.add("%s %s %s" % (op, s, D.show(v)), "pub fn g%d(mut a: %s, b: %s) { %s }" % (
                        n, t.q(v, s), s, "let _ = a % b;" if op == "Rem" else "a %= b;"))
        rejected(c, r, cr, WHERE, ("E0599", "E0308", "E0277", "E0061", "E0369", "E0368"))
        mirrules.parametric(c, cfg)
