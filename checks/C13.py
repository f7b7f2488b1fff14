"""Rational exponents."""
import math, random
import dims as D
import extract as X
import mirrules as M
import prog as P
import witness as W
from core import accepted, rejected, twins
from dims import Fr

TITLE = "rational exponents are exact and canonical"
WHERE = "rational exponents (crates/diman_lib/src/ratio.rs)"
CFG = "all-features"
HEAD = "use diman::internal::ratio::Ratio;\n"
BIG = 2 ** 31 - 1


def r(x):
    return "Ratio::new(%d, %d)" % (x.numerator, x.denominator)


def pairs(rnd, n):
    """Numerators and denominators, reduced or not, of either sign, small and large."""
    out = [(a, b) for a in range(-7, 8) for b in list(range(-7, 0)) + list(range(1, 8))]
    for _ in range(n):
        k = rnd.choice([1, 1, 2, 3, 6, 10, 360, -1, -4])
        m = rnd.choice([20, 1000, 10 ** 6, BIG // 400])
        a, b = rnd.randint(-m, m), rnd.randint(1, m)
        out.append((a * k, b * k))
    out += [(0, 5), (0, -5), (BIG, 1), (-BIG, 1), (1, BIG), (1, -BIG), (BIG, BIG), (2 ** 62, 2 ** 62), (-2 ** 62, 2 ** 61), (2 ** 40, 2 ** 50),
            (-2 ** 50, -2 ** 40), (2 ** 63 - 1, 1), (1, 2 ** 63 - 1), (6 ** 20, 10 ** 15), (3 ** 30, -3 ** 31)]
    return list(dict.fromkeys(out))


def fractions(rnd, n):
    out = [Fr(a, b) for a in (-5, -3, -2, -1, 0, 1, 2, 3, 5) for b in (1, 2, 3, 4, 6)]
    for _ in range(n):
        m = rnd.choice([12, 100, 10 ** 4, 10 ** 6, 10 ** 9])
        out.append(Fr(rnd.randint(-m, m), rnd.randint(1, m)))
    out += [Fr(BIG), Fr(-BIG), Fr(1, BIG), Fr(BIG - 1, BIG), Fr(-BIG, 2)]
    return list(dict.fromkeys(out))


def fits(*xs):
    return all(abs(x) < 2 ** 63 for x in xs)


def run(c):
    rnd = random.Random(c.seed)
    deep = 8 if c.tier == "thorough" else 1
    r1 = c.rule("canonical", "a ratio is stored in lowest terms with a positive denominator, however it is written (compile-time assertions on the "
                "evaluated constant, and equality of the types it parametrises)", 300)
    cr = W.Crate(CFG, "c13-canon", HEAD + "pub struct E<const R: Ratio>;\n", P.uses(CFG))
    for n, (a, b) in enumerate(pairs(rnd, 200 * deep)):
        x = Fr(a, b)
        cr.add("new(%d, %d)" % (a, b), "const _: () = { let r = Ratio::new(%d, %d); assert!(r.num() == %d && r.denom() == %d); };\n"
               "pub const C%d: E<{ Ratio::new(%d, %d) }> = E::<{ Ratio::new(%d, %d) }>;" % (
                   a, b, x.numerator, x.denominator, n, x.numerator, x.denominator, a, b))
    for a in (0, 1, -1, 2, -7, BIG, -2 ** 62):
        cr.add("int(%d)" % a, "const _: () = { let r = Ratio::int(%d); assert!(r.num() == %d && r.denom() == 1); };" % (a, a))
    accepted(c, r1, cr, WHERE)

    r2 = c.rule("arithmetic", "sums, differences, products, quotients and negations of ratios are exact and canonical (compile-time assertions)", 1000)
    cr = W.Crate(CFG, "c13-arith", HEAD, P.uses(CFG))
    xs = fractions(rnd, 150 * deep)
    n = 0
    for i, a in enumerate(xs):
        for b in [xs[(i + k) % len(xs)] for k in (1, 7, 23)] + [a, -a] + ([1 / a] if a else []):
            for op, f in (("add", lambda x, y: x + y), ("sub", lambda x, y: x - y), ("mul", lambda x, y: x * y), ("div", lambda x, y: x / y)):
                if op == "div" and not b:
                    continue
                v = f(a, b)
                na, da, nb, db = a.numerator, a.denominator, b.numerator, b.denominator
                # within the range of the integers, also before reducing
                if not fits(na * db, nb * da, na * nb, da * db, na * db + nb * da, na * db - nb * da):
                    continue
                key = "%s %s %s" % (a, op, b)
                if key in cr.keys:
                    continue
                cr.add(key, "const _: () = { let r = %s.%s(%s); assert!(r.num() == %d && r.denom() == %d); };" % (
                    r(a), op, r(b), v.numerator, v.denominator))
        cr.add("neg %s" % a, "const _: () = { let r = %s.neg(); assert!(r.num() == %d && r.denom() == %d); };" % (r(a), -a.numerator, a.denominator))
    accepted(c, r2, cr, WHERE)

    rz = c.rule("zero", "a zero denominator and division by a zero exponent are rejected when compiling, in definitions and in types", 10)
    cr = W.Crate(CFG, "c13-zero", HEAD + "pub struct E<const R: Ratio>;\n", P.uses(CFG))
    for k, e in enumerate(["Ratio::new(%d, 0)" % a for a in (1, -1, 0, 7, 2 ** 40)] + ["Ratio::int(%d).div(Ratio::int(0))" % a for a in (1, -3)] +
                          ["Ratio::new(1, 2).div(Ratio::new(0, 3))"]):
        cr.add(e, "pub const C%d: E<{ %s }> = E;" % (k, e))
    base = "quantity_type Q; dimension_type D0; dimension Length; #[base(Length)] #[symbol(m)] unit meter; "
    for k, e in enumerate(["dimension X = Length^(1/0);", "dimension X = Length^(0/0);", "unit x = meter^(3/0);", "constant X = 2^(1/0);",
                           "unit x = 3 / meter^(-1/0);", "dimension X = 1 / (Length^(2/0) * Length);"]):
        cr.add(e, "pub mod s%d { diman::unit_system!(%s); }" % (k, base + e))
    rejected(c, rz, cr, WHERE)

    ro = c.rule("operators", "the run-time operators of ratios optimise to the same code as the compile-time functions that the other rules evaluate, "
                "for arbitrary ratios; equality compares numerator and denominator", 5)
    tw = W.Twins(CFG, "c13-ops", HEAD + "use core::ops::*; use diman::internal::dimension_exponent::DimensionExponent;\n", P.uses(CFG))
    sig = "(a: Ratio, b: Ratio) -> Ratio"
    tw.add("a * b", sig, "<Ratio as Mul>::mul(a, b)", sig, "Ratio::mul(a, b)",
           alts=["Ratio::new(a.num() * b.num(), a.denom() * b.denom())", "Ratio::new(b.num() * a.num(), b.denom() * a.denom())"])
    tw.add("a += b", "(mut a: Ratio, b: Ratio) -> Ratio", "a += b; a", sig, "Ratio::add(a, b)",
           alts=["Ratio::new(a.num() * b.denom() + b.num() * a.denom(), a.denom() * b.denom())", "Ratio::new(b.num() * a.denom() + a.num() * b.denom(), b.denom() * a.denom())",
                 "if a.denom() == b.denom() { Ratio::new(a.num() + b.num(), a.denom()) } else { Ratio::new(a.num() * b.denom() + b.num() * a.denom(), a.denom() * b.denom()) }"])
    tw.add("-a", "(a: Ratio) -> Ratio", "-a", "(a: Ratio) -> Ratio", "Ratio::neg(a)")
    tw.add("a == b", "(a: Ratio, b: Ratio) -> bool", "a == b", "(a: Ratio, b: Ratio) -> bool", "a.num() == b.num() && a.denom() == b.denom()")
    tw.add("clone", "(a: &Ratio) -> Ratio", "a.clone()", "(a: &Ratio) -> Ratio", "*a")
    tw.add("one", "() -> Ratio", "<Ratio as DimensionExponent>::one()", "() -> Ratio", "Ratio::new(1, 1)")
    tw.add("zero", "() -> Ratio", "<Ratio as DimensionExponent>::zero()", "() -> Ratio", "Ratio::new(0, 1)")
    tw.add("from_int", "(a: i32) -> Ratio", "<Ratio as DimensionExponent>::from_int(a)", "(a: i32) -> Ratio", "Ratio::int(a as i64)")
    twins(c, ro, tw, WHERE)

    rt = c.rule("types", "quantities whose rational exponents are computed in different ways have one and the same type, the one with the independently "
                "computed exponents", 150)
    t = P.Types(CFG)
    cr = P.LazyCrate(CFG, "c13-types", t, P.uses(CFG))
    vecs = P.vectors(CFG) + [D.mul(v, Fr(p, q)) for v in D.MIXED for p, q in ((1, 2), (-2, 3), (5, 6))]
    for n in range(160 * deep):
        v = rnd.choice(vecs)
        w, code = v, "a"
        for _ in range(rnd.randint(1, 5)):
            k = rnd.choice(["sqrt", "cbrt", "mul", "div", "inv", "square", "cubed"])
            if max(abs(x.numerator) * x.denominator for x in w) > 10 ** 5 and k in ("sqrt", "cbrt", "square", "cubed"):
                continue
            if k == "sqrt":
                w, code = D.mul(w, Fr(1, 2)), code + ".sqrt()"
            elif k == "cbrt":
                w, code = D.mul(w, Fr(1, 3)), code + ".cbrt()"
            elif k == "square":
                w, code = D.mul(w, 2), code + ".powi::<2>()"
            elif k == "cubed":
                w, code = D.mul(w, 3), code + ".powi::<3>()"
            elif k == "inv":
                w, code = D.neg(w), "(1.0 / %s)" % code
            elif k == "mul":
                w, code = D.add(w, v), "(%s * a)" % code
            else:
                w, code = D.sub(w, v), "(a / %s)" % code
                w = D.neg(w)
        if code == "a":
            continue
        cr.add("%d: %s of %s" % (n, code, D.show(v)), "pub fn f%d(a: %s) -> %s { %s }" % (n, t.q(v, "f64"), t.q(w, "f64"), code))
    accepted(c, rt, cr, WHERE)

    rc = c.rule("constructions", "every construction of a ratio from its parts outside the canonicalising function has the denominator one, or keeps the "
                "denominator of a ratio whose numerator it keeps up to the sign", 5)
    for it in M.items(X.mir("lib", CFG)):
        for line in it.body.splitlines():
            m = re_agg.match(line)
            if not m:
                continue
            f = dict(x.split(": ", 1) for x in M.split_top(m.group(1)))
            num, den = f.get("num", ""), f.get("denom", "")
            body = it.body
            if it.short == "new" or den == "const 1_i64":
                c.ok(rc, 1, "%s: %s" % (it.name, line.strip()[:120]))
                continue
            src = origin(body, den)
            if src and origin(body, num, True) == src:
                c.ok(rc, 1, "%s: %s" % (it.name, line.strip()[:120]))
            else:
                c.undecide(rc, "%s constructs a ratio from parts of unknown form: %s" % (it.name, line.strip()[:160]))


import re
re_agg = re.compile(r"\s+_\d+ = (?:\w+::)*Ratio \{ (.*) \};")


def origin(body, operand, neg=False):
    """The ratio of which an operand is a field (up to its sign)."""
    m = re.fullmatch(r"(?:move|copy|const) (.*)", operand)
    x = m.group(1) if m else operand
    for _ in range(6):
        m = re.fullmatch(r"\(+\*?(_\d+)\)?\.\d+: i64\)", x)
        if m:
            return m.group(1)
        m = re.search(r"^\s+%s = (?:(?:move|copy) (.*)|Neg\((?:move|copy) (.*)\));$" % re.escape(x), body, re.M)
        if not m or (m.group(2) and not neg):
            return None
        x = m.group(1) or m.group(2)
    return None
