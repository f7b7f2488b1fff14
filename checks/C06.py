"""The algebra of dimensions."""
import dims as D
import prog as P
from core import accepted, rejected, twins
from C03 import RefTwins

TITLE = "dimensions form a vector space of exponents, one component per base dimension"
WHERE = "dimension type (crates/diman_unit_system/src/codegen/dimension_type.rs)"


# Ratios are kept in lowest terms (C13), so that all of these are the same number.
RATIOS = {
    "add": ["{a}.add({b})", "{b}.add({a})", "{a}.sub({b}.neg())", "Ratio::new({a}.num() * {b}.denom() + {b}.num() * {a}.denom(), {a}.denom() * {b}.denom())"],
    "sub": ["{a}.sub({b})", "{a}.add({b}.neg())", "{b}.neg().add({a})", "{b}.sub({a}).neg()",
            "Ratio::new({a}.num() * {b}.denom() - {b}.num() * {a}.denom(), {a}.denom() * {b}.denom())"],
    "neg": ["{a}.neg()", "Ratio::int(0).sub({a})", "{a}.mul(Ratio::int(-1))", "Ratio::int(-1).mul({a})", "Ratio::new(-{a}.num(), {a}.denom())",
            "Ratio::int(0).add({a}.neg())", "{a}.neg().add(Ratio::int(0))", "{a}.mul(Ratio::int(1).neg())"],
    "mul": ["{a}.mul(Ratio::int(n as i64))", "Ratio::int(n as i64).mul({a})", "{a}.mul(Ratio::new(n as i64, 1))", "Ratio::new(n as i64, 1).mul({a})",
            "Ratio::new({a}.num() * n as i64, {a}.denom())"],
}


def expo(op, f, rational, k=0):
    a, b = "a.%s" % f, "b.%s" % f
    if rational:
        return RATIOS[op][k].format(a=a, b=b)
    return {"add": "%s + %s" % (a, b), "sub": "%s - %s" % (a, b), "neg": "-%s" % a, "mul": "%s * n as i64" % a}[op]


def run(c):
    for cfg in ("default", "all-features"):
        rational = P.rational(cfg)
        t = P.Types(cfg)
        r = c.rule("algebra-%s" % cfg, "sum, difference, inverse and multiple of dimensions optimise to the same code as the operation "
                   "on each exponent of one and the same base dimension, for arbitrary exponents [%s]" % cfg, 5)
        tw = RefTwins(cfg, "c06", t, P.uses(cfg), "use diman::internal::ratio::Ratio as _R;\n" if rational else "")
        build = lambda op, k=0: "Dimension { %s }" % ", ".join("%s: %s" % (f, expo(op, f, rational, k)) for f in D.BASE)
        back = lambda op, k: "Dimension { %s }" % ", ".join("%s: %s" % (f, expo(op, f, rational, k)) for f in reversed(D.BASE))
        others = lambda op: [build(op, k) for k in range(1, len(RATIOS[op]))] + [
            back(op, 0)] if rational else []
        two, one = "(a: Dimension, b: Dimension) -> Dimension", "(a: Dimension) -> Dimension"
        tw.add("add", two, "a.add(b)", two, build("add"), others("add"))
        tw.add("sub", two, "a.sub(b)", two, build("sub"), others("sub"))
        tw.add("neg", one, "a.neg()", one, build("neg"), others("neg"))
        tw.add("mul", "(a: Dimension, n: i32) -> Dimension", "a.mul(n)", "(a: Dimension, n: i32) -> Dimension", build("mul"), others("mul"))
        tw.add("none", "() -> Dimension", "Dimension::none()", "() -> Dimension",
               "Dimension { %s }" % ", ".join("%s: %s" % (f, "Ratio::new(0, 1)" if rational else "0") for f in D.BASE))
        tw.add("equality", "(a: &Dimension, b: &Dimension) -> bool", "a == b", "(a: &Dimension, b: &Dimension) -> bool",
               " && ".join(("a.%s.num() == b.%s.num() && a.%s.denom() == b.%s.denom()" % (f, f, f, f)) if rational
                           else "a.%s == b.%s" % (f, f) for f in D.BASE))
        tw.add("copy of exponents", one, "a.clone()", one, "a")
        twins(c, r, tw, WHERE)

        # roots, by evaluating them in types
        r = c.rule("roots-%s" % cfg, "half and third of a dimension are the independently computed exponents of every base dimension "
                   "[%s]" % cfg, 60)
        rn = c.rule("laws-%s" % cfg, "sums, differences and multiples of concrete dimensions are the independently computed exponents "
                    "[%s]" % cfg, 200)
        extra = "pub struct Eq<const D: Dimension>;\n"
        cr, cl = (P.LazyCrate(cfg, "c06-" + x, t, P.uses(cfg), extra) for x in ("roots", "laws"))
        lit = lambda v: D.lit(v, rational)
        n = 0
        allv = P.vectors(cfg)
        for v in allv + [D.neg(x) for x in allv]:
            for f, k in (("div_2", 2), ("div_3", 3)):
                n += 1
                cr.add("%s of %s" % (f, D.show(D.mul(v, k))), "pub const C%d: Eq<%s> = Eq::<{ %s.%s() }>;" % (n, lit(v), lit(D.mul(v, k)), f))
                if rational:
                    n += 1
                    cr.add("%s of single %s" % (f, D.show(v)), "pub const C%d: Eq<%s> = Eq::<{ %s.%s() }>;" % (
                        n, lit(D.mul(v, D.Fr(1, k))), lit(v), f))
        for i, a in enumerate(allv):
            for b in (allv[(i + 1) % len(allv)], allv[(i + 5) % len(allv)], D.neg(a), D.ZERO, a):
                n += 2
                cl.add("%s add %s" % (D.show(a), D.show(b)), "pub const A%d: Eq<%s> = Eq::<{ %s.add(%s) }>;" % (
                    n, lit(D.add(a, b)), lit(a), lit(b)))
                cl.add("%s sub %s" % (D.show(a), D.show(b)), "pub const S%d: Eq<%s> = Eq::<{ %s.sub(%s) }>;" % (
                    n, lit(D.sub(a, b)), lit(a), lit(b)))
            for k in (-7, -2, -1, 0, 1, 2, 5):
                n += 1
                cl.add("%s mul %d" % (D.show(a), k), "pub const M%d: Eq<%s> = Eq::<{ %s.mul(%d) }>;" % (n, lit(D.mul(a, k)), lit(a), k))
            n += 1
            cl.add("neg %s" % D.show(a), "pub const N%d: Eq<%s> = Eq::<{ %s.neg() }>;" % (n, lit(D.neg(a)), lit(a)))
        accepted(c, r, cr, WHERE)
        accepted(c, rn, cl, WHERE)

        if not rational:
            r = c.rule("indivisible-%s" % cfg, "with integer exponents, the root of a quantity one of whose exponents is not divisible is "
                       "rejected when compiling [%s]" % cfg, 100)
            cr = P.LazyCrate(cfg, "c06-neg", t, P.uses(cfg), extra)
            even = D.mul(D.MIXED[7], 6)
            for i in range(7):
                for base, note in ((D.ZERO, "alone"), (even, "among divisible ones")):
                    for k in (-7, -5, -1, 1, 5, 7):
                        v = list(base)
                        v[i] += k
                        for m in ("sqrt", "cbrt"):
                            for s in P.FLOATS if note == "alone" else P.FLOATS[1:]:
                                n += 1
                                cr.add("%s of %s %s" % (m, D.show(v), s), "pub fn f%d(a: %s) { let _ = a.%s(); }" % (n, t.q(tuple(v), s), m))
            for i in range(7):
                for m, k in (("sqrt", 3), ("sqrt", -3), ("cbrt", 2), ("cbrt", -2), ("cbrt", 4), ("cbrt", -4), ("sqrt", 9), ("cbrt", 8)):
                    v = [D.Fr(0)] * 7
                    v[i] = D.Fr(k)
                    n += 1
                    cr.add("%s of %s" % (m, D.show(v)), "pub fn f%d(a: %s) { let _ = a.%s(); }" % (n, t.q(tuple(v), "f64"), m))
            rejected(c, r, cr, WHERE, ("E0080", "E0277", "E0308", "E0271", "E0599", "E0284"))
