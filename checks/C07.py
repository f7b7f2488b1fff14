"""Units: making quantities, scaling them, converting back."""
import dims as D
import extract as X
import prog as P
from core import accepted, rejected, twins
from C03 import RefTwins

TITLE = "units construct, scale and convert quantities by their factor, in their dimension only"
WHERE = "unit types (crates/diman_unit_system/src/codegen/unit_type.rs, quantity_type.rs)"
L, T_, M, E = D.vec(L=1), D.vec(T=1), D.vec(M=1), D.vec(L=2, T=-2, M=1)
V = D.vec(L=1, T=-1)
# (path, factor as the closest double of its definition, dimension)
UNITS = [("units::meter", 1.0, L), ("units::kilometers", 1e3, L), ("units::minute", 60.0, T_), ("units::joule", 1.0, E),
         ("units::kilojoule", 1e3, E), ("units::negative", -3.5, L), ("units::percent", 0.01, D.ZERO),
         ("units::meters_per_second", 1.0, V), ("constants::SPEED_OF_LIGHT", 299792458.0, V),
         ("units::attometer", 1e-18, L), ("units::exameter", 1e18, L), ("units::candela", 1.0, D.vec(J=1))]


VECTOR_OPS = {"x * u", "u * x", "x / u", "u / x", "u / q"}


ONE = "{ Mag { mantissa: 0x10000000000000, exponent: -52, sign: 1 } }"


def f(x, s):
    """A factor as a number of the precision of the storage."""
    return "(%r_f64 as f32)" % x if s == "f32" else "%r_f64" % x


def simple(tw, t, s, u, k, d):
    q, sh = (lambda v: t.q(v, s)), P.short(s)
    b = P.VECTORS[s][0] if s in P.VECTORS else s
    g = f(k, b)
    own = D.vec(L=1, T=-1, J=2)
    n = u.split("::")[1]
    val = "(a: %s) -> %s"
    num = "(a: %s) -> %s" % (s, s)
    # vectors of numbers do not multiply with a magnitude, so they have some of the operations only
    add = lambda key, sig, w, r: (s in P.FLOATS or key in VECTOR_OPS) and tw.add("%s %s %s" % (key, n, sh), sig, w, num, r)
    add("x * u", val % (s, q(d)), "a * %s" % u, "a * %s" % g)
    add("u * x", val % (s, q(d)), "%s * a" % u, "%s * a" % g)
    add("x / u", val % (s, q(D.neg(d))), "a / %s" % u, "a / %s" % g)
    add("u / x", val % (s, q(d)), "%s / a" % u, "%s / a" % g)
    add("u.new", val % (s, q(d)), "%s.new(a)" % u, "a * %s" % g)
    add("q * u", val % (q(own), q(D.add(own, d))), "a * %s" % u, "a * %s" % g)
    add("u * q", val % (q(own), q(D.add(own, d))), "%s * a" % u, "a * %s" % g)
    add("q / u", val % (q(own), q(D.sub(own, d))), "a / %s" % u, "a / %s" % g)
    add("u / q", val % (q(own), q(D.sub(d, own))), "%s / a" % u, "%s / a" % g)
    add("value_in", val % (q(d), s), "a.value_in(%s)" % u, "a / %s" % g)


def composite(tw, t, s, u, k, d, u2, k2, d2):
    q, sh = (lambda v: t.q(v, s)), P.short(s)
    b = P.VECTORS[s][0] if s in P.VECTORS else s
    own = D.vec(L=1, T=-1, J=2)
    for op in "*/":
        kk = k * k2 if op == "*" else k / k2
        dd = D.add(d, d2) if op == "*" else D.sub(d, d2)
        g = f(kk, b)
        uu = "(%s %s %s)" % (u, op, u2)
        n = "%s %s %s" % (u.split("::")[1], op, u2.split("::")[1])
        val, num = "(a: %s) -> %s", "(a: %s) -> %s" % (s, s)
        add = lambda key, sig, w, r: (s in P.FLOATS or key in VECTOR_OPS) and tw.add("%s [%s] %s" % (key, n, sh), sig, w, num, r)
        add("x * u", val % (s, q(dd)), "a * %s" % uu, "a * %s" % g)
        add("u * x", val % (s, q(dd)), "%s * a" % uu, "%s * a" % g)
        add("x / u", val % (s, q(D.neg(dd))), "a / %s" % uu, "a / %s" % g)
        add("u / x", val % (s, q(dd)), "%s / a" % uu, "%s / a" % g)
        add("u.new", val % (s, q(dd)), "%s.new(a)" % uu, "a * %s" % g)
        add("q * u", val % (q(own), q(D.add(own, dd))), "a * %s" % uu, "a * %s" % g)
        add("u * q", val % (q(own), q(D.add(own, dd))), "%s * a" % uu, "a * %s" % g)
        add("q / u", val % (q(own), q(D.sub(own, dd))), "a / %s" % uu, "a / %s" % g)
        add("u / q", val % (q(own), q(D.sub(dd, own))), "%s / a" % uu, "%s / a" % g)
        add("value_in", val % (q(dd), s), "a.value_in(%s)" % uu, "a / %s" % g)


def run(c):
    for cfg in ("default", "all-features"):
        t = P.Types(cfg)
        r = c.rule("factors-%s" % cfg, "every operation of a number or quantity with a unit has the independently computed dimension and "
                   "optimises to the same code as the operation, operands in the same order, with the unit's factor [%s]" % cfg, 200)
        tw = RefTwins(cfg, "c07", t, P.uses(cfg))
        for s in P.storages(cfg):
            for u, k, d in UNITS if s in P.FLOATS else UNITS[1:3] + UNITS[5:6]:
                simple(tw, t, s, u, k, d)
            for i, j in ((1, 2), (4, 2), (2, 1), (5, 3), (8, 11), (9, 10), (6, 6)) if s in P.FLOATS else ((1, 2),):
                composite(tw, t, s, *UNITS[i], *UNITS[j])
        twins(c, r, tw, WHERE)

        r = c.rule("magnitude-%s" % cfg, "the magnitude of a unit, and of a product or quotient of units, for arbitrary factors is its "
                   "own, and the product or quotient of theirs [%s]" % cfg, 4)
        # generic over the factors: the magnitudes are not constants
        tw = RefTwins(cfg, "c07-runtime", t, P.uses(cfg), "pub type RU = <Unit<%s, %s> as Mul<Unit<%s, %s>>>::Output;\n" % (
            D.lit(E, P.rational(cfg)), ONE, D.lit(D.ZERO, P.rational(cfg)), ONE))
        for s in P.FLOATS:
            ru = "RU"
            conv = "b.into_f64()" if s == "f64" else "b.into_f32()"
            # the conversion of a runtime unit into its magnitude is part of the public interface
            for key, w, rr in (("x * u", "a * b", "a * %s" % conv), ("x / u", "a / b", "a / %s" % conv), ("u * x", "b * a", "%s * a" % conv),
                               ("u / x", "b / a", "%s / a" % conv)):
                qd = D.neg(E) if key == "x / u" else E
                tw.add("%s runtime %s" % (key, s), "(a: %s, b: %s) -> %s" % (s, ru, t.q(qd, s)), w,
                       "(a: %s, b: Mag) -> %s" % (s, s), rr)
            for key, w, rr, qd in (("q * u", "a * b", "a * %s" % conv, D.add(V, E)), ("q / u", "a / b", "a / %s" % conv, D.sub(V, E)),
                                   ("u * q", "b * a", "a * %s" % conv, D.add(V, E)), ("u / q", "b / a", "%s / a" % conv, D.sub(E, V))):
                tw.add("%s runtime %s" % (key, s), "(a: %s, b: %s) -> %s" % (t.q(V, s), ru, t.q(qd, s)), w,
                       "(a: %s, b: Mag) -> %s" % (s, s), rr)
            tw.add("new runtime %s" % s, "(a: %s, b: %s) -> %s" % (s, ru, t.q(E, s)), "b.new(a)", "(a: %s, b: Mag) -> %s" % (s, s), "a * %s" % conv)
            tw.add("value_in runtime %s" % s, "(a: %s, b: %s) -> %s" % (t.q(E, s), ru, s), "a.value_in(b)",
                   "(a: %s, b: Mag) -> %s" % (s, s), "a / %s" % conv)
        tw.add("magnitude of runtime unit", "(b: RU) -> Mag", "b.into()", "(b: Mag) -> Mag", "b")
        twins(c, r, tw, WHERE)

        r = c.rule("gated-%s" % cfg, "a quantity cannot be made from or converted into a unit of another dimension, and a unit is not a "
                   "quantity [%s]" % cfg, 150)
        ra = c.rule("usable-%s" % cfg, "the same with the right dimension type-checks [%s]" % cfg, 60)
        cr, ca = P.LazyCrate(cfg, "c07-neg", t, P.uses(cfg)), P.LazyCrate(cfg, "c07-pos", t, P.uses(cfg))
        n = 0
        wrong = [D.vec(L=1, J=1), D.vec(L=-1), D.vec(T=-1), D.vec(T=1), D.ZERO, D.vec(L=2), D.vec(L=1, T=-1), D.vec(L=1, T=1)]
        for s in P.storages(cfg):
            for u, k, d in UNITS if s in P.FLOATS else UNITS[:3]:
                for w in [x for x in wrong if x != d][:5] + [d]:
                    for key, body in (("*", "let x: %s = v * %s;"), ("* rev", "let x: %s = %s * v;"), ("new", "let x: %s = %s.new(v);")):
                        if s in P.VECTORS and w == d and key == "new":
                            continue
                        n += 1
                        (ca if w == d else cr).add("%s %s %s %s" % (key, u, P.short(s), D.show(w)),
                                                   "pub fn f%d(v: %s) { %s }" % (n, s, body % (t.q(w, s), u)))
                    if s in P.VECTORS and w == d:
                        continue
                    n += 1
                    (ca if w == d else cr).add("value_in %s %s %s" % (u, P.short(s), D.show(w)),
                                               "pub fn f%d(v: %s) { let x: %s = v.value_in(%s); }" % (n, t.q(w, s), s, u))
                    for u2, k2, d2 in UNITS[2:4]:
                        n += 1
                        (ca if w == d else cr).add("value_in %s / %s %s %s" % (u, u2, P.short(s), D.show(w)),
                                                   "pub fn f%d(v: %s) { let x: %s = v.value_in(%s / %s); }" % (n, t.q(D.sub(w, d2), s), s, u, u2))
                        n += 1
                        (ca if w == d else cr).add("value_in %s * %s %s %s" % (u, u2, P.short(s), D.show(w)),
                                                   "pub fn f%d(v: %s) { let x: %s = v.value_in(%s * %s); }" % (n, t.q(D.add(w, d2), s), s, u, u2))
        for op in ("+", "-", "==", "<", "+=", "%"):
            for u, k, d in UNITS[:3]:
                n += 1
                cr.add("q %s %s" % (op, u), "pub fn f%d(mut v: %s) { let _ = v %s %s; }" % (n, t.q(d, "f64"), op, u))
                if op != "+=":
                    n += 1
                    cr.add("%s %s q" % (u, op), "pub fn f%d(mut v: %s) { let _ = %s %s v; }" % (n, t.q(d, "f64"), u, op))
                    n += 1
                    cr.add("%s %s itself" % (u, op), "pub fn f%d() { let _ = %s %s %s; }" % (n, u, op, u))
        for body in ("let x: %s = units::meter;", "let x: %s = v; let y: %s = units::meter.into();", "let x: f64 = %s;"):
            n += 1
            body = body.replace("%s", t.q(L, "f64")) if "f64 =" not in body else "let x: f64 = units::meter;"
            cr.add(body, "pub fn f%d(v: %s) { %s }" % (n, t.q(L, "f64"), body))
        rejected(c, r, cr, WHERE, ("E0308", "E0277", "E0271", "E0369", "E0599", "E0368"))
        accepted(c, ra, ca, WHERE)
