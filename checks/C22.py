"""The type-level product and quotient."""
import random
import dims as D
import prog as P
from core import accepted, rejected, twins
from C03 import RefTwins

TITLE = "product and quotient types name the dimension of the product and quotient"
WHERE = "Product and Quotient (src/lib.rs), Output types of the operators (codegen/num_traits)"


class T:
    """A type expression with the vector it should have."""

    def __init__(self, text, v, s):
        self.text, self.v, self.s = text, v, s


def combine(op, a, b):
    """None if numbers of these kinds cannot be combined."""
    vec = {k: f for k, (f, n) in P.VECTORS.items()}
    if a.s == b.s:
        s = a.s
    elif vec.get(a.s) == b.s:
        s = a.s
    elif vec.get(b.s) == a.s:
        s = b.s
    else:
        return None
    return T("%s<%s, %s>" % (op, a.text, b.text), D.add(a.v, b.v) if op == "Product" else D.sub(a.v, b.v), s)


def run(c):
    rnd = random.Random(c.seed)
    for cfg in ("default", "all-features", "nostd"):
        rational = P.rational(cfg)
        t = P.Types(cfg)
        r = c.rule("same-type-%s" % cfg, "a product or quotient type, of any factors, nesting and storage, is the type with the independently "
                   "computed dimension, and the product or quotient of values has that type [%s]" % cfg, 120)
        rn = c.rule("other-type-%s" % cfg, "it is not the type of any dimension that differs in one base dimension, or of another storage "
                    "[%s]" % cfg, 120)
        ca, cr = (P.LazyCrate(cfg, "c22-" + k, t, P.uses(cfg), "use diman::{Product, Quotient};\n") for k in ("pos", "neg"))
        vs = P.vectors(cfg)
        leaf = lambda s: (lambda v: T(t.q(v, s), v, s))(rnd.choice(vs))
        exprs = []
        sts = P.storages(cfg)
        for op in ("Product", "Quotient"):
            for v in vs:  # each vector on either side
                w = rnd.choice(vs)
                exprs.append(combine(op, T(t.q(v, "f64"), v, "f64"), T(t.q(w, "f64"), w, "f64")))
                exprs.append(combine(op, T(t.q(w, "f32"), w, "f32"), T(t.q(v, "f32"), v, "f32")))
            for s in sts:  # bare numbers, dimensionless quantities and all storages
                for u in sts:
                    a, b, z, n = leaf(s), leaf(u), T(t.q(D.ZERO, u), D.ZERO, u), T(u, D.ZERO, u)
                    exprs += [combine(op, *p) for p in ((a, b), (a, z), (z, a), (a, n), (n, a))]
        simple = [e for e in exprs if e]
        for _ in range(120 if c.tier == "quick" else 400):  # nested
            a, b, d = (rnd.choice(simple) if rnd.random() < 0.6 else leaf(rnd.choice(sts)) for _ in range(3))
            e = combine(rnd.choice(["Product", "Quotient"]), a, b)
            if e and rnd.random() < 0.5:
                e = combine(rnd.choice(["Product", "Quotient"]), *rnd.sample([e, d], 2)) or e
            if e:
                exprs.append(e)
        n = 0
        for e in exprs:
            # a scalar is not divided by a vector of another type in the vector library's eyes
            if e is None:
                continue
            n += 1
            ca.add("%d" % n, "pub fn p%d(a: %s) -> %s { a } pub fn q%d(a: %s) -> %s { a }" % (n, e.text, t.q(e.v, e.s), n, t.q(e.v, e.s), e.text), e.text)
            i = rnd.randrange(7)
            step = rnd.choice([D.Fr(1), D.Fr(-1)] + ([D.Fr(1, 2)] if rational else []))
            o = e.v[:i] + (e.v[i] + step,) + e.v[i + 1:]
            cr.add("%d" % n, "pub fn p%d(a: %s) -> %s { a }" % (n, e.text, t.q(o, e.s)), "%s as %s" % (e.text, D.show(o)))
            if n % 7 == 0:
                other = rnd.choice([s for s in sts if s != e.s])
                cr.add("%d storage" % n, "pub fn p%d(a: %s) -> %s { a }" % (n, e.text, t.q(e.v, other)), "%s as %s" % (e.text, other))
        for s in P.FLOATS:  # what operators on values give
            for op, sym in (("Product", "*"), ("Quotient", "/")):
                for rl in ("", "&'a "):
                    for rr in ("", "&'a "):
                        a, b = leaf(s), leaf(s)
                        n += 1
                        ca.add("value %d" % n, "pub fn v%d<'a>(a: %s%s, b: %s%s) -> %s<%s, %s> { a %s b }" % (n, rl, a.text, rr, b.text, op, a.text, b.text, sym),
                               "%s of values of %s and %s" % (op, a.text, b.text))
                        n += 1
                        ca.add("reference %d" % n, "pub fn v%d<'a>(a: %s<%s%s, %s%s>) -> %s<%s, %s> { a }" % (n, op, rl, a.text, rr, b.text, op, a.text, b.text))
        accepted(c, r, ca, WHERE)
        rejected(c, rn, cr, WHERE, ("E0308",))
    # with the built-in system, as the documentation has it
    r = c.rule("si", "products and quotients of the built-in dimensions are the built-in dimensions", 20)
    cr = P.LazyCrate("default", "c22-si", None, (), "use diman::{Product, Quotient}; use diman::si::{units, dimensions::*};\n")
    for n, (a, b) in enumerate([("Product<Length<S>, Length<S>>", "Area<S>"), ("Quotient<Length<S>, Time<S>>", "Velocity<S>"),
                                ("Product<Area<S>, Length<S>>", "Volume<S>"), ("Quotient<Velocity<S>, Time<S>>", "Acceleration<S>"),
                                ("Product<Mass<S>, Acceleration<S>>", "Force<S>"), ("Product<Force<S>, Length<S>>", "Energy<S>"),
                                ("Quotient<Energy<S>, Time<S>>", "Power<S>"), ("Quotient<Force<S>, Area<S>>", "Pressure<S>"),
                                ("Quotient<S, Time<S>>", "Frequency<S>"), ("Quotient<Length<S>, Length<S>>", "Dimensionless<S>"),
                                ("Quotient<Product<Mass<S>, Quotient<Area<S>, Time<S>>>, Time<S>>", "Energy<S>"),
                                ("Product<S, Length<S>>", "Length<S>"), ("Quotient<Length<S>, S>", "Length<S>")]):
        for s in P.FLOATS:
            cr.add("%s %s" % (a, s), ("pub fn f%s_%d(a: %s) -> %s { a }" % (s, n, a, b)).replace("S>", s + ">").replace("<S,", "<%s," % s))
    accepted(c, r, cr, WHERE)
