"""No additive operation between different dimensions type-checks."""
import dims as D
import prog as P
from core import accepted, rejected
import mirrules

TITLE = "adding, subtracting, comparing and assigning different dimensions is rejected"
WHERE = "operator implementations (crates/diman_unit_system/src/codegen/num_traits)"
CODES = ("E0308", "E0277", "E0271", "E0369", "E0599", "E0275", "E0368")

SYM = {"+": "a + b", "-": "a - b", "+=": "{ let mut x = a; x += b; }", "-=": "{ let mut x = a; x -= b; }",
       "==": "a == b", "!=": "a != b", "<": "a < b", "<=": "a <= b", ">": "a > b", ">=": "a >= b",
       "partial_cmp": "a.partial_cmp(&b)", "let": "{ let mut x = a; x = b; }"}
ONLY_FLOAT = {"<", "<=", ">", ">=", "partial_cmp"}


def near(cfg):
    """Pairs of different dimensions: each single base dimension off by the smallest step,
    in both directions, around vectors of every kind, and confusions of position."""
    step = D.Fr(1, 2) if P.rational(cfg) else D.Fr(1)
    bases = [D.ZERO, D.vec(L=1, T=-1), D.MIXED[7], D.vec(L=-1, T=-1, M=-1, K=-1, I=-1, N=-1, J=-1)]
    if P.rational(cfg):
        bases.append(D.RATIONAL[4])
    out = []
    for b in bases:
        for i in range(7):
            for s in (step, -step):
                o = list(b)
                o[i] += s
                out.append((b, tuple(o)))
    for i in range(7):  # equal exponents at different positions
        for j in range(i):
            out.append((D.UNIT_VECTORS[i], D.UNIT_VECTORS[j]))
    out.append((D.vec(L=2, T=1), D.vec(L=1, T=2)))
    out.append((D.vec(L=1, T=-1), D.vec(L=-1, T=1)))
    return list(dict.fromkeys(out))


def run(c):
    for cfg in ("default", "all-features"):
        t = P.Types(cfg)
        r = c.rule("reject-pairs-%s" % cfg, "an additive or comparing operation on two quantities whose dimensions differ in one "
                   "base dimension does not type-check [%s]" % cfg, 350)
        ra = c.rule("accept-%s" % cfg, "the same witness with equal dimensions type-checks [%s]" % cfg, 60)
        cr, ca = P.LazyCrate(cfg, "c02-neg", t, P.uses(cfg)), P.LazyCrate(cfg, "c02-pos", t, P.uses(cfg))
        pairs = near(cfg)
        n = 0
        for k, (a, b) in enumerate(pairs):
            x, y = (a, b) if k % 2 else (b, a)
            for op in ("+", "-", "==", "<", "+="):
                n += 1
                cr.add("%s %s %s" % (D.show(x), op, D.show(y)), "pub fn f%d(a: %s, b: %s) { let _ = %s; }" % (
                    n, t.q(x, "f64"), t.q(y, "f64"), SYM[op]))
        rejected(c, r, cr, WHERE, CODES)

        # every operation, storage type and reference form, for two pairs
        r = c.rule("reject-forms-%s" % cfg, "every operand form of every additive, comparing and assigning operation of every "
                   "storage type rejects different dimensions [%s]" % cfg, 150)
        cr = P.LazyCrate(cfg, "c02-forms", t, P.uses(cfg))
        x, y = D.vec(L=1, T=-1), D.vec(L=1, T=-1, J=1)
        for s in P.storages(cfg):
            fl = s in P.FLOATS
            for op, code in SYM.items():
                if op in ONLY_FLOAT and not fl:
                    continue
                for rl in ("", "&", "&mut "):
                    for rr in ("", "&"):
                        if op in ("let", "partial_cmp") and (rl or rr):
                            continue
                        if rl == "&mut " and op not in ("+=", "-="):
                            continue
                        if rl == "&" and op in ("+=", "-="):
                            continue
                        if rl == "&" and rr == "" and op in ONLY_FLOAT | {"==", "!="} and False:
                            continue
                        for (p, q, crate) in ((x, y, cr), (y, x, cr), (x, x, ca)):
                            n += 1
                            crate.add("%s%s %s %s%s %s/%s" % (rl, P.short(s), op, rr, P.short(s), D.show(p), D.show(q)),
                                      "pub fn f%d<'a>(a: %s%s, b: %s%s) { let _ = %s; }" % (
                                          n, rl.replace("&", "&'a "), t.q(p, s), rr and "&'a ", t.q(q, s), code))
            methods = {"min": "a.min(b)", "max": "a.max(b)"}
            if fl:
                methods["clamp first"] = "a.clamp(b, b)"
                methods["sum"] = "{ let s: %s = [b].into_iter().sum(); }" % t.q(x, s)
            else:
                methods["distance"] = "a.distance(&b)"
                methods["distance_squared"] = "a.distance_squared(&b)"
                f = P.VECTORS[s][0]
                methods["new"] = "%s::new(a.x(), %s)" % (t.q(x).replace("<", "::<"), "b.x()" if P.VECTORS[s][1] == 2 else "a.y(), b.x()")
                methods["new_x"] = "{ let s: %s = <%s>::new_x(b.x()); }" % (t.q(x, s), t.q(x, s))
                methods["set_x"] = "{ let mut s = a; s.set_x(b.x()); }"
                methods["set_y"] = "{ let mut s = a; s.set_y(b.x()); }"
                methods["new"] = "<%s>::new(a.x(), %s)" % (t.q(x, s), "b.x()" if P.VECTORS[s][1] == 2 else "a.y(), b.x()")
                if P.VECTORS[s][1] == 3:
                    methods["set_z"] = "{ let mut s = a; s.set_z(b.x()); }"
            for m, code in methods.items():
                for q, crate in ((y, cr), (x, ca)):
                    n += 1
                    crate.add("%s %s %s" % (m, P.short(s), D.show(q)), "pub fn f%d(a: %s, b: %s) { let _ = %s; }" % (
                        n, t.q(x, s), t.q(q, s), code))
        rejected(c, r, cr, WHERE, CODES)

        # bare numbers meet dimensionless quantities only
        r = c.rule("reject-bare-%s" % cfg, "a bare number can be added to, subtracted from or compared with dimensionless "
                   "quantities only, and only dimensionless values scale in place [%s]" % cfg, 100)
        cr = P.LazyCrate(cfg, "c02-bare", t, P.uses(cfg))
        dims = D.UNIT_VECTORS + [D.vec(L=1, T=-1), D.MIXED[7]] + ([D.RATIONAL[0]] if P.rational(cfg) else [])
        for s in P.storages(cfg):
            fl = s in P.FLOATS
            for k, v in enumerate(dims + [D.ZERO]):
                crate = ca if v == D.ZERO else cr
                ops = ["+", "-", "+=", "-=", "=="] + (["<", ">", "partial_cmp"] if fl else [])
                if s != "f64" and k not in (0, len(dims) - 1, len(dims)):
                    continue
                for op in ops:
                    n += 1
                    crate.add("%s %s bare %s" % (D.show(v), op, P.short(s)), "pub fn f%d(a: %s, b: %s) { let _ = %s; }" % (
                        n, t.q(v, s), s, SYM[op]))
                    n += 1
                    crate.add("bare %s %s %s" % (P.short(s), op, D.show(v)), "pub fn f%d(a: %s, b: %s) { let _ = %s; }" % (
                        n, s, t.q(v, s), SYM[op]))
                for op in ("*=", "/="):
                    n += 1
                    crate.add("quantity %s %s %s" % (P.short(s), op, D.show(v)), "pub fn f%d(a: %s, b: %s) { let mut x = a; x %s b; }" % (
                        n, t.q(D.vec(L=1), s), t.q(v, s), op))
                    n += 1
                    crate.add("bare %s %s %s" % (P.short(s), op, D.show(v)), "pub fn f%d(a: %s, b: %s) { let mut x = a; x %s b; }" % (
                        n, s, t.q(v, s), op))
                    n += 1
                    crate.add("quantity %s %s &%s" % (P.short(s), op, D.show(v)), "pub fn f%d(a: %s, b: &%s) { let mut x = a; x %s b; }" % (
                        n, t.q(D.vec(L=1), s), t.q(v, s), op))
                if fl:
                    n += 1
                    crate.add("min %s bare %s" % (D.show(v), s), "pub fn f%d(a: %s, b: %s) { let _ = a.min(b); }" % (n, t.q(v, s), s))
                    n += 1
                    crate.add("clamp %s bare %s" % (D.show(v), s), "pub fn f%d(a: %s, b: %s) { let _ = a.clamp(b, b); }" % (n, t.q(v, s), s))
        rejected(c, r, cr, WHERE, CODES)
        accepted(c, ra, ca, WHERE)
        mirrules.closed_world(c, cfg)
