"""Dimensions of the results of arithmetic."""
import dims as D
import prog as P
from core import accepted
import mirrules

TITLE = "arithmetic yields the quantity of the algebraically right dimension"
WHERE = "operator implementations (crates/diman_unit_system/src/codegen/num_traits)"


def result(op, a, b):
    return {"*": D.add, "/": D.sub}[op](a, b) if op in "*/" else a


def run(c):
    for config in ("default", "all-features"):
        vs = P.vectors(config)
        pairs = [(a, b) for a in vs for b in vs]
        r = c.rule("dims-%s" % config, "the type of quantity*quantity and quantity/quantity is the one with the "
                   "independently computed exponents [%s]" % config, 600)
        t = P.Types(config)
        cr = P.LazyCrate(config, "c01-pairs", t, P.uses(config))
        for i, (a, b) in enumerate(pairs):
            for op in "*/":
                cr.add("%s %s %s" % (D.show(a), op, D.show(b)), "pub fn p%d%s(a: %s, b: %s) -> %s { a %s b }" % (
                    i, "md"["*/".index(op)], t.q(a, "f64"), t.q(b, "f64"), t.q(result(op, a, b), "f64"), op))
        accepted(c, r, cr, WHERE)

        # every reference variant, storage type and mixed form, on a few vectors with no zero exponent
        r = c.rule("forms-%s" % config, "every operand form (value, reference, bare number) of every storage type has the "
                   "right result type [%s]" % config, 60)
        t = P.Types(config)
        cr = P.LazyCrate(config, "c01-forms", t, P.uses(config))
        full = [v for v in vs if all(v)] or []
        a, b = full[0], full[1]
        n = 0
        for s in P.storages(config):
            others = [s] + ([P.VECTORS[s][0]] if s in P.VECTORS else [])
            for op in "+-*/":
                for rl in ("", "&"):
                    for rr in ("", "&"):
                        n += 1
                        rhs = b if op in "*/" else a
                        cr.add("%s%s %s %s%s" % (rl, P.short(s), op, rr, P.short(s)),
                               "pub fn f%d<'a>(a: %s%s, b: %s%s) -> %s { a %s b }" % (
                                   n, rl and "&'a ", t.q(a, s), rr and "&'a ", t.q(rhs, s), t.q(result(op, a, rhs), s), op))
                        # dimensionless quantity with a bare number
                        if op in "+-":
                            n += 1
                            cr.add("dimensionless %s%s %s bare %s" % (rl, P.short(s), op, rr),
                                   "pub fn f%d<'a>(a: %s%s, b: %s%s) -> %s { a %s b }" % (
                                       n, rl and "&'a ", t.q(D.ZERO, s), rr and "&'a ", s, t.q(D.ZERO, s), op))
                            n += 1
                            cr.add("bare %s %s dimensionless %s%s" % (rl, op, rr, P.short(s)),
                                   "pub fn f%d<'a>(a: %s%s, b: %s%s) -> %s { a %s b }" % (
                                       n, rl and "&'a ", s, rr and "&'a ", t.q(D.ZERO, s), t.q(D.ZERO, s), op))
                        else:
                            for o in others:
                                n += 1
                                cr.add("quantity %s%s %s bare %s%s" % (rl, P.short(s), op, rr, P.short(o)),
                                       "pub fn f%d<'a>(a: %s%s, b: %s%s) -> %s { a %s b }" % (
                                           n, rl and "&'a ", t.q(a, s), rr and "&'a ", o, t.q(a, s), op))
                            n += 1
                            out = a if op == "*" else D.neg(a)
                            cr.add("bare %s%s %s quantity %s" % (rl, P.short(s), op, rr),
                                   "pub fn f%d<'a>(a: %s%s, b: %s%s) -> %s { a %s b }" % (
                                       n, rl and "&'a ", s, rr and "&'a ", t.q(a, s), t.q(out, s), op))
            if s in P.VECTORS:
                f = P.VECTORS[s][0]
                for op in "*/":
                    n += 1
                    cr.add("vector quantity %s %s scalar quantity" % (P.short(s), op),
                           "pub fn f%d(a: %s, b: %s) -> %s { a %s b }" % (n, t.q(a, s), t.q(b, f), t.q(result(op, a, b), s), op))
                    n += 1
                    cr.add("scalar quantity %s vector quantity %s" % (op, P.short(s)),
                           "pub fn f%d(a: %s, b: %s) -> %s { a %s b }" % (n, t.q(a, f), t.q(b, s), t.q(result(op, a, b), s), op))
            n += 1
            cr.add("neg %s" % P.short(s), "pub fn f%d(a: %s) -> %s { -a }" % (n, t.q(a, s), t.q(a, s)))
        accepted(c, r, cr, WHERE)
    mirrules.output_dimensions(c)
    mirrules.iterated_products(c)
