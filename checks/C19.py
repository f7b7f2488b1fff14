"""Vector quantities."""
import dims as D
import extract as X
import mirrules as M
import prog as P
from core import accepted, rejected, twins
from C03 import RefTwins

TITLE = "vector quantities compute component by component with the right dimensions"
WHERE = "vector methods (crates/diman_unit_system/src/codegen/vector_methods.rs)"
CODES = ("E0308", "E0277", "E0271", "E0369", "E0599", "E0275", "E0368", "E0061", "E0282", "E0284")
CHECKED = {"new", "new_x", "new_y", "new_z", "x", "y", "z", "set_x", "set_y", "set_z", "zero", "min", "max", "length", "distance",
           "distance_squared", "normalize", "dot", "abs", "cross", "length_squared", "lerp"}


def cases(t, s, v, w):
    f, n = P.VECTORS[s]
    q, qf = (lambda d: t.q(d, s)), (lambda d: t.q(d, f))
    xs = "xyz"[:n]
    args, zero = ["a", "b", "d"][:n], "0.0"
    out = []
    add = lambda *a, **k: out.append((a, k))
    add("new", "(%s) -> %s" % (", ".join("%s: %s" % (a, qf(v)) for a in args), q(v)), "<%s>::new(%s)" % (q(v), ", ".join(args)),
        "(%s) -> %s" % (", ".join("%s: %s" % (a, f) for a in args), s), "<%s>::new(%s)" % (s, ", ".join(args)))
    for i, x in enumerate(xs):
        parts = ", ".join("a" if i == k else "0.0" for k in range(n))
        add("new_" + x, "(a: %s) -> %s" % (qf(v), q(v)), "<%s>::new_%s(a)" % (q(v), x), "(a: %s) -> %s" % (f, s), "a * <%s>::%s" % (s, x.upper()),
            alts=["<%s>::%s * a" % (s, x.upper()), "<%s>::new(%s)" % (s, parts),
                  "{ let mut v = <%s>::ZERO; v.%s = a; v }" % (s, x), "{ let mut v = [0.0; %d]; v[%d] = a; <%s>::from_array(v) }" % (n, i, s),
                  "%s { %s: a, ..<%s>::ZERO }" % (s, x, s)])
        add(x, "(a: &%s) -> %s" % (q(v), qf(v)), "a.%s()" % x, "(a: &%s) -> %s" % (s, f), "a.%s" % x)
        add("set_" + x, "(a: &mut %s, b: %s)" % (q(v), qf(v)), "a.set_%s(b)" % x, "(a: &mut %s, b: %s)" % (s, f), "a.%s = b" % x)
        # the other components stay, whatever is set
        add("set_%s keeps" % x, "(a: %s, b: %s) -> %s" % (q(v), qf(v), q(v)), "{ let mut c = a; c.set_%s(b); c }" % x,
            "(a: %s, b: %s) -> %s" % (s, f, s), "<%s>::new(%s)" % (s, ", ".join("b" if k == x else "a." + k for k in xs)))
    add("zero", "() -> %s" % q(v), "<%s>::zero()" % q(v), "() -> %s" % s, "<%s>::ZERO" % s)
    for m in ("min", "max"):
        add(m, "(a: %s, b: %s) -> %s" % (q(v), q(v), q(v)), "a.%s(b)" % m, "(a: %s, b: %s) -> %s" % (s, s, s), "a.%s(b)" % m)
    add("length", "(a: &%s) -> %s" % (q(v), qf(v)), "a.length()", "(a: &%s) -> %s" % (s, f), "a.length()")
    add("distance", "(a: &%s, b: &%s) -> %s" % (q(v), q(v), qf(v)), "a.distance(b)", "(a: &%s, b: &%s) -> %s" % (s, s, f), "a.distance(*b)",
        alts=["(*a - *b).length()"])
    add("distance_squared", "(a: &%s, b: &%s) -> %s" % (q(v), q(v), qf(D.mul(v, 2))), "a.distance_squared(b)",
        "(a: &%s, b: &%s) -> %s" % (s, s, f), "a.distance_squared(*b)", alts=["(*a - *b).length_squared()"])
    add("normalize", "(a: &%s) -> %s" % (q(v), q(D.ZERO)), "a.normalize()", "(a: &%s) -> %s" % (s, s), "a.normalize()")
    add("dot", "(a: %s, b: %s) -> %s" % (q(v), q(w), qf(D.add(v, w))), "a.dot(b)", "(a: %s, b: %s) -> %s" % (s, s, f), "a.dot(b)")
    add("dot self", "(a: %s, b: %s) -> %s" % (q(v), q(v), qf(D.mul(v, 2))), "a.dot(b)", "(a: %s, b: %s) -> %s" % (s, s, f), "a.dot(b)")
    add("abs", "(a: &%s) -> %s" % (q(v), q(v)), "a.abs()", "(a: &%s) -> %s" % (s, s), "a.abs()")
    # scalars act on all components
    add("scalar * vector", "(a: %s, b: %s) -> %s" % (qf(w), q(v), q(D.add(v, w))), "a * b", "(a: %s, b: %s) -> %s" % (f, s, s), "a * b")
    add("vector * scalar", "(a: %s, b: %s) -> %s" % (q(v), qf(w), q(D.add(v, w))), "a * b", "(a: %s, b: %s) -> %s" % (s, f, s), "a * b")
    add("vector / scalar", "(a: %s, b: %s) -> %s" % (q(v), qf(w), q(D.sub(v, w))), "a / b", "(a: %s, b: %s) -> %s" % (s, f, s), "a / b")
    add("components of sum", "(a: %s, b: %s) -> %s" % (q(v), q(v), qf(v)), "(a + b).%s()" % xs[-1], "(a: %s, b: %s) -> %s" % (s, s, f),
        "(a + b).%s" % xs[-1])
    return out


def run(c):
    for cfg in ("all-features", "no-rational"):
        t = P.Types(cfg)
        rational = P.rational(cfg)
        r = c.rule("methods-%s" % cfg, "a method of vector quantities has the independently computed dimension and optimises to the same code as the "
                   "method of the vector type [%s]" % cfg, 300)
        tw = RefTwins(cfg, "c19", t, P.uses(cfg))
        vs = [(D.vec(L=1), D.vec(T=-1)), (D.vec(L=1, T=-1, J=2), D.vec(M=3, I=-2)), (D.MIXED[7], D.MIXED[8]), (D.ZERO, D.vec(K=1)),
              (D.vec(N=-1), D.vec(N=1))]
        vs += [(D.RATIONAL[4], D.RATIONAL[1])] if rational else []
        for s in P.VECTORS:
            for v, w in vs:
                for a, k in cases(t, s, v, w):
                    tw.add("%s %s %s/%s" % (a[0], P.short(s), D.show(v), D.show(w)), *a[1:], **k)
        twins(c, r, tw, WHERE)

        rd = c.rule("reject-%s" % cfg, "vectors are not made of, given, compared to or combined with components of another dimension or storage "
                    "type, nor are results of another dimension [%s]" % cfg, 300)
        ra = c.rule("accept-%s" % cfg, "the same witnesses with equal dimensions type-check [%s]" % cfg, 30)
        cr, ca = P.LazyCrate(cfg, "c19-neg", t, P.uses(cfg)), P.LazyCrate(cfg, "c19-pos", t, P.uses(cfg))
        n = 0
        step = D.Fr(1, 2) if rational else D.Fr(1)
        base = D.vec(L=1, T=-1)
        for s in P.VECTORS:
            f, dims = P.VECTORS[s]
            g = {"f32": "f64", "f64": "f32"}[f]
            q, qf = (lambda d: t.q(d, s)), (lambda d: t.q(d, f))
            others = [(i, base[:i] + (base[i] + step,) + base[i + 1:]) for i in range(7)] + [(None, base)]
            for i, o in others:
                crate = ca if i is None else cr
                tag = "%s %s" % (P.short(s), "same" if i is None else D.SHORT[i])
                progs = {}
                for k in range(dims):
                    progs["new %d" % k] = "let _ = <%s>::new(%s);" % (q(base), ", ".join("b" if k == j else "a" for j in range(dims)))
                for x in "xyz"[:dims]:
                    progs["new_" + x] = "let _: %s = <%s>::new_%s(b);" % (q(base), q(base), x)
                    progs["set_" + x] = "let mut v = v; v.set_%s(b);" % x
                    progs["get " + x] = "let _: %s = v.%s();" % (qf(o), x)
                progs["length"] = "let _: %s = v.length();" % qf(o)
                progs["min"] = "let _ = v.min(w);"
                progs["max"] = "let _ = v.max(w);"
                progs["distance"] = "let _ = v.distance(&w);"
                progs["distance result"] = "let _: %s = v.distance(&v);" % qf(o)
                progs["distance_squared"] = "let _ = v.distance_squared(&w);"
                progs["distance_squared result"] = "let _: %s = v.distance_squared(&v);" % qf(D.add(base, o))
                progs["dot result"] = "let _: %s = v.dot(v);" % qf(D.add(base, o))
                progs["normalize"] = "let _: %s = v.normalize();" % q(D.sub(o, base))
                progs["zero"] = "let _: %s = <%s>::zero();" % (q(o), q(base))
                progs["sum"] = "let _ = v + w;"
                progs["product"] = "let _: %s = v * a;" % q(D.add(base, o))
                for k, p in progs.items():
                    n += 1
                    crate.add("%s %s" % (k, tag), "pub fn f%d(a: %s, b: %s, v: %s, w: %s) { %s }" % (n, qf(base), qf(o), q(base), q(o), p))
            for k, p in {"f new": "let _ = <%s>::new(%s);" % (q(base), ", ".join("b" if j == 0 else "a" for j in range(dims))),
                         "f set_x": "let mut v = v; v.set_x(b);", "f get": "let _: %s = v.x();" % t.q(base, g),
                         "f length": "let _: %s = v.length();" % t.q(base, g), "f bare new": "let _ = <%s>::new(%s);" % (q(base), ", ".join(["1.0"] * dims)),
                         "f bare set": "let mut v = v; v.set_y(1.0);", "f scalar": "let _ = v * b;", "f add": "let _ = v + b;"}.items():
                n += 1
                cr.add("%s %s" % (k, P.short(s)), "pub fn f%d(a: %s, b: %s, v: %s) { %s }" % (n, qf(base), t.q(base, g), q(base), p))
        rejected(c, rd, cr, WHERE, CODES)
        accepted(c, ra, ca, WHERE)

        # methods that the witnesses do not know
        rm = c.rule("every-method-%s" % cfg, "every function of the compiled crate on vector quantities has component arguments and results of the "
                    "vector's own dimension parameter, a computed dimension or none [%s]" % cfg, 50)
        for it in M.items(X.mir("diman", cfg)):
            if it.kind != "fn" or "vector_methods" in it.short or "Vec" not in it.header or "Quantity<" not in it.header:
                continue
            args, ret = M.signature(it)
            if not args or "Vec" not in args[0] + ret or it.short not in CHECKED:
                continue
            ds = [M.quantity_dim(a) for a in args]
            if not all(ds):
                continue
            rd_ = M.quantity_dim(ret) if ret else None
            good = all(d == ds[0] for d in ds) or it.short in ("dot", "cross")
            if rd_ and it.short not in ("dot", "cross", "distance_squared", "length_squared", "normalize"):
                good = good and rd_ == ds[0]
            if it.short == "normalize":
                good = good and (rd_.startswith("UnevaluatedConst") or M.is_zero(rd_, rational))
            if good:
                c.ok(rm, 1, it.header[:160])
            else:
                c.bad(rm, it.short + "(" + ", ".join(args)[:150], "[%s] %s: fn %s(%s) -> %s has a component of another dimension" % (
                    cfg, WHERE, it.short, ", ".join(args)[:200], ret[:100]), it.header)
