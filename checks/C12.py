"""The built-in SI system against an independent table."""
import os, re
import extract as X
import mirrules as M
import prog as P
import si_table as T
import systems as S
import tables
import witness as W

TITLE = "the SI system has the correct dimensions, factors and symbols"
WHERE = "src/si.rs"


def constants(cfg):
    """{"units": {name: (dimension, factor)}, "constants": ...} of the module of the SI."""
    out = dict(units={}, constants={})
    for line in open(X.mir("diman", cfg)):
        m = S.CONST.match(line)
        u = m and re.match(r"(?:\w+::)*\w+<(ValTree\(.*)>$", m.group(2))
        k = u and re.match(r"(?:\w+::)*(units|constants)::(\w+)$", m.group(1))
        if not k:
            k = u and re.match(r"()(\w+)$", m.group(1))
        if not k:
            continue
        dg = M.split_top(u.group(1))
        if len(dg) == 2:
            out.setdefault(k.group(1), {})[k.group(2)] = (S.read_dim(dg[0], P.rational(cfg)), S.read_magnitude(dg[1]))
    return out


def run(c):
    units, symbols = T.expand()
    for cfg in X.CONFIGS:
        r = c.rule("values-%s" % cfg, "every dimension, unit (with all prefixes and aliases) and constant of the SI has, as the compiler evaluates "
                   "it, the exponents and the value of the independent table [%s]" % cfg, 1100)
        cr = W.Crate(cfg, "c12", "use diman::si;\n", P.uses(cfg))
        for n in T.DIMENSIONS:
            cr.add("dimension " + n, "pub const __D_%s: Option<si::dimensions::%s<%s>> = None;" % (n, n, "f64"))
        cr.add("constant PI", "pub fn pi(x: f64) -> si::dimensions::Dimensionless<f64> { x * si::constants::PI }")
        failed, out = cr.must_compile("mir")
        for it, errs in failed:
            c.bad(r, "%s/%s" % (cfg, it.key), "[%s] %s: %s is not available: %s" % (cfg, WHERE, it.key, errs[0][1]), errs[0][2])
        found = {}
        for line in open(out):
            m = S.CONST.match(line)
            q = m and re.match(r"(?:\w+::)*Option<(?:\w+::)*\w+<f64, (.*)>>$", m.group(2))
            if q and m.group(1).startswith("__D_"):
                found[m.group(1)[4:]] = S.read_dim(q.group(1), P.rational(cfg))
        os.remove(out)
        pos = {}
        for b in T.BASE:
            v = found.get(b) or []
            ones = [i for i, x in enumerate(v) if x[0]]
            if len(ones) != 1 or v[ones[0]] != (1, 1) or len(v) != 7 or ones[0] in pos.values():
                c.bad(r, "%s/%s" % (cfg, b), "[%s] %s: base dimension %s is %s" % (cfg, WHERE, b, v))
            else:
                pos[b] = ones[0]
        if len(pos) < 7:
            continue

        def vector(v):
            return {b: S.Fr(*v[i]) for b, i in pos.items() if v[i][0]}
        for n, want in T.DIMENSIONS.items():
            if n in found and vector(found[n]) != want:
                c.bad(r, "%s/dimension %s" % (cfg, n), "[%s] %s: dimension %s is %s, in the SI %s" % (
                    cfg, WHERE, n, S.show(vector(found[n])), S.show(want)))
            elif n in found:
                c.ok(r, 1, "dimension %s = %s" % (n, S.show(want)))
        got = constants(cfg)
        have = {}
        for k in got.values():
            have.update(k)
        # constants come from the expansion; the paths at which users reach them are witnessed above and in the tests of C20
        for n, (dim, f) in list(units.items()) + list(T.CONSTANTS.items()):
            g = have.get(n)
            what = "[%s] %s: %s" % (cfg, WHERE, n)
            if g is None:
                c.bad(r, "%s/%s" % (cfg, n), what + " does not exist")
            elif vector(g[0]) != dim:
                c.bad(r, "%s/%s" % (cfg, n), what + " has dimension %s, in the SI %s" % (S.show(vector(g[0])), S.show(dim)))
            elif not S.close(g[1], f):
                c.bad(r, "%s/%s" % (cfg, n), what + " has the value %s, in the SI %s" % (S.text(g[1]), S.text(f)))
            else:
                c.ok(r, 1, "%s = %s %s" % (n, S.text(f), S.show(dim)))
        # names that the table does not know must at least be what their prefix says
        ext = {n: v for n, v in have.items() if n not in units and n not in T.CONSTANTS}
        rp = c.rule("prefixes-%s" % cfg, "a name composed of a prefix and a unit of the SI module has the factor of the prefix times that of the "
                    "unit [%s]" % cfg, 500)
        for n, (v, f) in have.items():
            for p in T.ALL:
                if n.startswith(p) and n[len(p):] in have and n not in ("parsec",):
                    v0, f0 = have[n[len(p):]]
                    if v0 == v and not S.close(f, f0 * S.FACTOR[p]):
                        c.bad(rp, "%s/%s" % (cfg, n), "[%s] %s: %s is %s times %s" % (cfg, WHERE, n, S.text(f / f0), n[len(p):]))
                    elif v0 == v:
                        c.ok(rp, 1, "%s = %s %s" % (n, S.text(S.FACTOR[p]), n[len(p):]))
        if ext:
            c.notes.append("[%s] names outside the table: %s" % (cfg, ", ".join(sorted(ext)[:40])))

        full = "serde" in X.features(cfg)
        rs = c.rule("symbols-%s" % cfg, "the tables of symbols list the symbols of the SI with their dimension and value%s [%s]" % (
            ", and the reader lists all of them" if full else "", cfg), 400 if full else 25)
        path = X.mir("diman", cfg, verbose=False)
        es = [e for e in tables.read(path) if e.symbol in symbols or e.symbol is None]
        other = [e for e in tables.read(path) if e.symbol not in symbols]
        bad, good, und = tables.compare(es, symbols, T.BASE, full)
        for n, text in bad:
            c.bad(rs, "%s/%s" % (cfg, n), "[%s] %s: %s" % (cfg, WHERE, text))
        if good:
            c.ok(rs, good, "[%s] %d symbols" % (cfg, good))
        for u in und:
            c.undecide(rs, "[%s] %s" % (cfg, u))
        if other:
            c.notes.append("[%s] symbols outside the table: %s" % (cfg, ", ".join(sorted({str(e.symbol) for e in other}))[:300]))
