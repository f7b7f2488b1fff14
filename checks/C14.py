"""The encoding of factors as types."""
import os, random, re, struct
import extract as X
import llvm
import prog as P
import systems as S
import witness as W
from core import twins
from dims import Fr

TITLE = "factors survive their encoding as types"
WHERE = "encoding of factors (crates/diman_lib/src/magnitude.rs)"
HEAD = "use diman::internal::magnitude::Magnitude as Mag;\nuse core::ops::*;\n"


def bits(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def dbl(b):
    return struct.unpack(">d", struct.pack(">Q", b))[0]


def f32(x):
    try:
        return struct.unpack(">f", struct.pack(">f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def values(rnd, deep):
    """Every exponent, with the mantissas that carries and truncation show at, and both signs; subnormals."""
    pats = [0, 1, 2 ** 52 - 1, 2 ** 51, 2 ** 51 - 1, 0x5555555555555, 2 ** 52 - 2 ** 29]
    out = []
    for e in range(1, 2047):
        for p in rnd.sample(pats, len(pats) if deep else 2) + [rnd.getrandbits(52)]:
            out.append((rnd.getrandbits(1) << 63) | (e << 52) | p)
    for k in range(52):
        out += [1 << k, (1 << 63) | ((1 << (k + 1)) - 1)]
    out += [0, bits(1.0), bits(-1.0), bits(0.1), bits(1e-310), bits(-1e308), 0x7fefffffffffffff, 0xffefffffffffffff, 1, 0x000fffffffffffff, 0x0010000000000000]
    return list(dict.fromkeys(out))


def folded(cfg, name, items):
    """What the optimiser computes for constant expressions: {key: IR text of the returned constant}."""
    cr = W.Crate(cfg, name, HEAD, P.uses(cfg))
    for n, (key, ty, body) in enumerate(items):
        cr.add(key, "#[no_mangle] pub fn f_%d() -> %s { %s }" % (n, ty, body))
    # the powers of two are computed by loops without the standard library
    failed, out = cr.must_compile("llvm-ir", opt=True, extra=["-Cllvm-args=-unroll-peel-count=14 -unroll-allow-loop-nests-peeling"])
    text = open(out).read()
    os.remove(out)
    fns, aliases, consts = llvm.parse(text)
    res = {}
    bad = {it.key for it, _ in failed}
    for n, (key, ty, body) in enumerate(items):
        if key in bad:
            continue
        f = fns[aliases.get("f_%d" % n, "f_%d" % n)]
        res[key] = None
        if len(f.blocks) == 1 and len(f.blocks[0][1]) == 1:
            m = re.match(r"ret (\S+) (\S+)$", f.blocks[0][1][0])
            if m:
                res[key] = m.group(2)
    return failed, res


def value(s):
    if s is None:
        return None
    if s in ("true", "false"):
        return s == "true"
    if re.fullmatch(r"0x[0-9A-Fa-f]{1,16}", s):
        return dbl(int(s, 16))
    try:
        return float(s)
    except ValueError:
        return None


def run(c):
    rnd = random.Random(c.seed)
    for cfg in ("default", "nostd", "nostd-libm"):
        deep = c.tier == "thorough"
        vs = values(rnd, deep)
        r = c.rule("round-trip-%s" % cfg, "decoding the encoded factor is, as the compiler's constant propagation evaluates it, the factor itself, bit by "
                   "bit: every binary exponent, both signs, extreme mantissas, subnormals [%s]" % cfg, 800)
        rf = c.rule("single-%s" % cfg, "the factor in single precision is the factor rounded once [%s]" % cfg, 80)
        ro = c.rule("one-%s" % cfg, "exactly the factor one counts as one [%s]" % cfg, 18)
        items, want, rules = [], {}, {}

        def add(rule, key, ty, body, w):
            if key in want:
                return
            items.append((key, ty, body))
            want[key], rules[key] = w, rule
        if cfg != "default" and not deep:
            vs = vs[::6] + vs[-11:]
        for b in vs:
            x = dbl(b)
            add(r, "%r" % x if b != 1 << 63 else "-0", "f64", "Mag::from_f64(f64::from_bits(0x%016x)).into_f64()" % b, x)
        for b in vs[::12]:
            add(rf, "single %r" % dbl(b), "f32", "Mag::from_f64(f64::from_bits(0x%016x)).into_f32()" % b, f32(dbl(b)))
        for x in (1.0, -1.0, 2.0, 0.5, 0.0, 1 + 2 ** -52, 1 - 2 ** -53, 1000.0, 0.001, 1e-300, -0.5, 4503599627370496.0, 3.0, 1e300, 1.5, 10.0, 0.1, 60.0):
            add(ro, "is one %r" % x, "bool", "Mag::from_f64(f64::from_bits(0x%016x)).is_one()" % bits(x), x == 1.0)
        ra = c.rule("arithmetic-%s" % cfg, "products and quotients of factors, and of factors and numbers, are those of the numbers [%s]" % cfg, 100)
        some = [dbl(b) for b in rnd.sample(vs, 60) if 1e-100 < abs(dbl(b)) < 1e100] + [1.0, -1.0, 3.0, 0.1, 1e3, 1e-3, -2.5, 7.0]
        for i, x in enumerate(some):
            y = some[(i + 3) % len(some)]
            fx, fy = ("f64::from_bits(0x%016x)" % bits(z) for z in (x, y))
            for op, v in (("*", x * y), ("/", x / y)):
                add(ra, "%r %s %r" % (x, op, y), "f64", "(Mag::from_f64(%s) %s Mag::from_f64(%s)).into_f64()" % (fx, op, fy), v)
                add(ra, "%r %s number %r" % (x, op, y), "f64", "(Mag::from_f64(%s) %s %s).into_f64()" % (fx, op, fy), v)
                add(ra, "number %r %s %r" % (x, op, y), "f64", "%s %s Mag::from_f64(%s)" % (fx, op, fy), v)
        failed, res = folded(cfg, "c14", items)
        for it, errs in failed:
            c.bad(rules[it.key], "%s/%s" % (cfg, it.key), "[%s] %s: %s does not compile: %s" % (cfg, WHERE, it.key, errs[0][1]), it.code)
        for key, s in res.items():
            g, w = value(s), want[key]
            if g is None:
                c.undecide(rules[key], "[%s] %s does not fold to a constant" % (cfg, key))
            elif g == w and (not isinstance(w, float) or w or (str(g) == str(w))) or g == w == 0:
                c.ok(rules[key], 1, "%s -> %s" % (key, s))
            else:
                c.bad(rules[key], "%s/%s" % (cfg, key), "[%s] %s: %s gives %r instead of %r" % (cfg, WHERE, key, g, w))

        # arbitrary operands
        rg = c.rule("generic-%s" % cfg, "for arbitrary magnitudes, products and quotients optimise to encoding the product or quotient of the decoded "
                    "factors, and the factor in single precision to rounding the decoded factor [%s]" % cfg, 8)
        tw = W.Twins(cfg, "c14-generic", HEAD, P.uses(cfg))
        for op in "*/":
            tw.add("m %s m" % op, "(a: Mag, b: Mag) -> Mag", "a %s b" % op, "(a: Mag, b: Mag) -> Mag", "Mag::from_f64(a.into_f64() %s b.into_f64())" % op,
                   alts=["{ let y = b.into_f64(); Mag::from_f64(a.into_f64() %s y) }" % op])
            tw.add("m %s f64" % op, "(a: Mag, b: f64) -> Mag", "a %s b" % op, "(a: Mag, b: f64) -> Mag", "Mag::from_f64(a.into_f64() %s b)" % op)
            tw.add("f64 %s m" % op, "(a: f64, b: Mag) -> f64", "a %s b" % op, "(a: f64, b: Mag) -> f64", "a %s b.into_f64()" % op)
            tw.add("f32 %s m" % op, "(a: f32, b: Mag) -> f32", "a %s b" % op, "(a: f32, b: Mag) -> f32", "a %s b.into_f64() as f32" % op)
        tw.add("into_f32", "(a: Mag) -> f32", "a.into_f32()", "(a: Mag) -> f32", "a.into_f64() as f32")
        tw.add("eq", "(a: Mag, b: Mag) -> bool", "a == b", "(a: Mag, b: Mag) -> bool", "a.mantissa == b.mantissa && a.exponent == b.exponent && a.sign == b.sign")
        if cfg == "default":
            sig = "(a: Mag, n: i64, d: i64) -> Mag"
            tw.add("pow_rational", sig, "a.pow_rational(n, d)", sig, "Mag::from_f64(a.into_f64().powf(n as f64 / d as f64))")
        twins(c, rg, tw, WHERE)

        # as types, through the definition of units
        rt = c.rule("types-%s" % cfg, "a unit or constant defined by a number has, as a type, exactly that number: decoding the fields of the type "
                    "with exact arithmetic gives it [%s]" % cfg, 300)
        b = S.Batch(cfg, "c14-types")
        xs = [dbl(v) for v in rnd.sample(vs, 340)] + [0.1, 1e-3, 2.5, -7.25, 1e22, 1e23, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308]
        xs = [x for x in xs if x]
        text = "quantity_type Quantity; dimension_type Dimension; dimension Length; #[base(Length)] #[symbol(m)] unit meter;\n"
        text += "".join("constant C%d = %s;\n" % (i, repr(x) if "." in repr(x) or "e" in repr(x) else repr(x) + ".0") for i, x in enumerate(xs))
        b.add("numbers", text, lenient=True)
        fl = b.compile()
        for it, errs in fl:
            c.bad(rt, "%s/%s" % (cfg, it.key), "[%s] %s: constants that are plain numbers are rejected: %s" % (cfg, WHERE, errs[0][1]), errs[0][2])
        if not fl:
            got = b.found[b.systems["numbers"][0]]["consts"]
            for i, x in enumerate(xs):
                g = got.get("C%d" % i)
                if g is not None and g[1] == Fr(x):
                    c.ok(rt, 1, "constant %r" % x)
                else:
                    c.bad(rt, "%s/type %r" % (cfg, x), "[%s] %s: constant %r is encoded as %s" % (cfg, WHERE, x, g and S.text(g[1])))
