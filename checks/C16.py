"""Printing and serializing quantities."""
import concurrent.futures, os, random, re
import dims as D
import extract as X
import fmtscript as F
import mirflow as MF
import prog as P
import si_table as SI
import witness as W
from core import guarded
from dims import Fr

TITLE = "printing shows a unit of the quantity's own dimension, and the value in that unit"
WHERE = "printing (crates/diman_unit_system/src/codegen/debug_trait.rs, crates/diman_lib/src/runtime_unit_storage.rs)"
# every choice among the units of a system is among constants: let the optimiser see it through
UNROLL = ["-Cllvm-args=-inline-threshold=10000000 -inlinecold-threshold=10000000 -inline-cold-callsite-threshold=10000000 -unroll-threshold=1000000 -unroll-max-count=1000 -unroll-full-max-count=1000"]

# name: (base dimensions, unit statements, symbol -> (exponents, factor))
SYSTEMS = {
    "plain": (["Length", "Time", "Mass"], """
        #[base(Length)] #[symbol(m)] #[metric_prefixes] unit meter: Length; #[base(Time)] #[symbol(s)] unit second: Time;
        #[base(Mass)] #[symbol(kg)] unit kilogram: Mass; #[symbol(g)] unit gram: Mass = 0.001 * kilogram;
        dimension Frequency = 1 / Time; #[symbol(Hz)] #[prefix(kilo)] unit hertz: Frequency = 1 / second;
        dimension Force = Length * Mass / Time^2; #[symbol(N)] unit newton: Force = kilogram * meter / second^2;
        #[symbol(kph)] unit kph = 0.25 * meter / second; #[symbol(min)] unit minute = 60 second;
        constant TWO = 2 meter;""",
              dict(m=((1, 0, 0), 1), s=((0, 1, 0), 1), kg=((0, 0, 1), 1), Hz=((0, -1, 0), 1), N=((1, -2, 1), 1))),
    "no unit": (["Length", "TimeScale", "X"], """
        #[base(Length)] #[symbol(m)] unit meter: Length; unit plain = 1 * meter;
        dimension Area = Length^2; #[symbol(sq)] unit square: Area = meter^2; #[symbol(ha)] unit hectare = 1e4 square;""",
                dict(m=((1, 0, 0), 1), sq=((2, 0, 0), 1), time_scale=((0, 1, 0), 1), x=((0, 0, 1), 1))),
    "no symbols at all": (["Length", "Type"], "unit number = 1; constant K = 2 * number;",
                          dict(length=((1, 0), 1), type_=((0, 1), 1))),
    "near one": (["Time", "Length"], """
        #[symbol(neg)] unit negative: Length = -1 * meter; #[symbol(big)] unit big: Length = 1.0000000000000002 * meter;
        #[symbol(small)] unit small: Length = 0.9999999999999999 * meter; #[symbol(zero)] unit zero: Length = 0 * meter;
        #[symbol(inv)] unit inv = -1 / meter; #[symbol(ks)] unit ksecond = 1000 * second; #[symbol(tiny)] unit tiny = 1e-300 second;
        #[base(Time)] #[symbol(s)] unit second: Time; #[base(Length)] #[symbol(m)] #[prefix(milli, kilo)] unit meter: Length;
        #[symbol(nsq)] unit nsq = negative^2; #[symbol(mm2)] unit mm2 = millimeter^2;""",
                 dict(s=((1, 0), 1), m=((0, 1), 1), nsq=((0, 2), 1))),
    "one dimension": (["Angle"], "#[base(Angle)] #[symbol(rad)] unit radian: Angle; #[symbol(deg)] unit degree = 0.01745 * radian;"
                      "dimension Number = 1; #[symbol(pure)] unit pure: Number = radian / radian; #[symbol(pct)] unit percent = 0.01 * pure;",
                      dict(rad=((1,), 1), pure=((0,), 1))),
    "five dimensions": (["A", "B", "C", "Dd", "E"], """
        #[base(A)] #[symbol(a)] unit ua; #[base(B)] #[symbol(b)] unit ub; #[base(C)] #[symbol(c)] unit uc; #[base(Dd)] #[symbol(d)] unit ud;
        #[symbol(abc)] unit abc = ua * ub / uc^2; #[symbol(de)] #[metric_prefixes] unit de = ud^3 / ub; #[symbol(µΩ)] unit odd = 1 * ua^2;""",
                        {"a": ((1, 0, 0, 0, 0), 1), "b": ((0, 1, 0, 0, 0), 1), "c": ((0, 0, 1, 0, 0), 1), "d": ((0, 0, 0, 1, 0), 1), "e": ((0, 0, 0, 0, 1), 1),
                         "abc": ((1, 1, -2, 0, 0), 1), "de": ((0, -1, 0, 3, 0), 1), "µΩ": ((2, 0, 0, 0, 0), 1)}),
}


def snake(name):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", name).lower()


def literal(vec, bases, rational):
    f = lambda b: "type_" if b == "type" else b
    return "{ Dimension { %s } }" % ", ".join("%s: %s" % (f(snake(b)), D.exponent(x, rational)) for b, x in zip(bases, vec))


def dimensions(bases, table, rnd, rational, n):
    k = len(bases)
    out = [tuple([Fr(0)] * k)]
    exps = [Fr(1), Fr(-1), Fr(2), Fr(-3), Fr(17)] + ([Fr(1, 2), Fr(-2, 3), Fr(7, 5)] if rational else [])
    for i in range(k):
        for e in exps:
            out.append(tuple(e if i == j else Fr(0) for j in range(k)))
    for vec, f in table.values():
        v = tuple(Fr(x) for x in vec)
        out += [v, D.neg(v), D.mul(v, 2), D.add(v, out[1]), D.sub(v, out[-1])]
        if rational:
            out.append(D.mul(v, Fr(1, 2)))
    for _ in range(n):
        den = [1, 1, 2, 3, 10] if rational else [1]
        out.append(tuple(Fr(rnd.choice([0, 1, -1, 2, -2, 3, -5, 12, 100, -1000, 2 ** 40]), rnd.choice(den)) for _ in range(k)))
    out.append(tuple(Fr(-1) for _ in range(k)))
    return list(dict.fromkeys(out))


def read(text, table, k):
    """(exponents, factor) of a printed unit."""
    if text and not text.startswith(" "):
        return None, "no space before the unit"
    dim, factor = tuple([Fr(0)] * k), 1.0
    for tok in text.split(" ")[1:]:
        sym, hat, e = tok.partition("^")
        if sym not in table:
            return None, "%r is not a symbol of factor one, nor a base dimension without one" % sym
        try:
            e = Fr(e) if hat else Fr(1)
        except ValueError:
            return None, "%r is not an exponent" % e
        dim = D.add(dim, D.mul(tuple(Fr(x) for x in table[sym][0]), e))
    return dim, None


def judge(m, fn, number, dim, table, opaque=(), errors=True):
    """(None, text) if the function prints the dimension's unit, else (what is wrong, ...)."""
    try:
        out, ret = F.script(m, fn, opaque)
    except F.Panic as e:
        return "printing panics (%s)" % e, None
    number = F.script(m, number, opaque)[0]
    if out[:len(number)] != number:
        if [o[:2] for o in out[:len(number)]] == [o[:2] for o in number]:
            return "the number is not written as the caller asked (width, precision, ...)", None
        return "does not begin with the number of the quantity: %s" % (out[:3],), None
    skip = len(number)
    out, whole = out[skip:], out
    if [o for o in out if o[0] != "text"]:
        return "writes another number: %s" % (out,), None
    if [o for o in out if o[2] == "caller" and len(o[1])]:
        return "the width and precision that the caller asks for are applied to the unit: %s" % (out,), None
    text = "".join(o[1] for o in out)
    if ret != 0:
        return "printing %r fails" % text, None
    got, why = read(text, table, len(dim))
    if got is None:
        return "printed as %r: %s" % ("1" + text, why), None
    if got != dim:
        return "printed as %r, which has the dimension %s" % ("1" + text, show(got)), None
    for j in range(len(whole) if errors else 0):
        try:
            o, r = F.script(m, fn, opaque, fail=j)
        except F.Panic as e:
            return "printing panics when the writer fails at output %d of %r (%s)" % (j, text, e), None
        if r == 0:
            return "an error of the writer at output %d of %r is not reported" % (j, text), None
    return None, text


def show(v):
    return "(%s)" % ", ".join(str(x) for x in v)


OPAQUE = """
pub struct Opaque;
impl core::fmt::Display for Opaque { #[inline(never)] fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { shown(self, f) } }
extern "Rust" { fn show_opaque(x: &Opaque, f: &mut core::fmt::Formatter) -> core::fmt::Result; }
#[inline(never)] #[no_mangle] pub fn shown(x: &Opaque, f: &mut core::fmt::Formatter) -> core::fmt::Result { unsafe { show_opaque(x, f) } }
"""


def bare(n, s):
    return "#[no_mangle] pub fn r_%d(q: &%s, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(q, f) }" % (n, s.replace("&", "&'static "))


def system_crate(cfg, name, rnd, deep):
    rational = P.rational(cfg)
    bases, text, table = SYSTEMS[name]
    prelude = "diman::unit_system!(\nquantity_type Quantity; dimension_type Dimension;\n%s\n%s\n);\nuse core::fmt;\n%s" % (
        " ".join("dimension %s;" % b for b in bases), text, "use diman::internal::ratio::Ratio;\n" if rational else "")
    cr = W.Crate(cfg, "c16-" + re.sub(r"\W", "_", name), prelude + OPAQUE, P.uses(cfg))
    cr.cases = []
    stores = P.storages(cfg)
    for k, dim in enumerate(dimensions(bases, table, rnd, rational, 12 * deep)):
        for s in (["f64", "f32", "Opaque", "&f64"] if k < 2 else [stores[k % len(stores)]]):
            n = len(cr.cases)
            cr.add("%s %s %s" % (name, show(dim), s),
                   "#[no_mangle] pub fn w_%d(q: &Quantity<%s, %s>, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(q, f) }\n"
                   % (n, s.replace("&", "&'static "), literal(dim, bases, rational)) + bare(n, s))
            cr.cases.append((n, dim, s))
    cr.table = {k: v for k, v in table.items()}
    return cr


def si_crate(cfg, names, part):
    cr = W.Crate(cfg, "c16-si-%d" % part, "use diman::si::*;\nuse core::fmt;\n", P.uses(cfg))
    cr.cases = []
    units, symbols = SI.expand()
    table = {}
    for s, (d, v) in symbols.items():
        if v == 1:
            table[s] = (tuple(d.get(b, Fr(0)) for b in SI.BASE), 1)
    for n, name in enumerate(names):
        d = SI.DIMENSIONS[name]
        dim = tuple(d.get(b, Fr(0)) for b in SI.BASE)
        s = P.storages(cfg)[(n + part) % len(P.storages(cfg))]
        cr.add("SI " + name, "#[no_mangle] pub fn w_%d(q: &dimensions::%s<%s>, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(q, f) }\n" % (n, name, s) + bare(n, s))
        cr.cases.append((n, dim, s))
    cr.table = table
    return cr


def opaque_names(m):
    return {"shown", "show_opaque"} | {n for n in m.fns if "Opaque" in n and "Display" in n}


@guarded
def compiled(c, rule, crate):
    """Path of the IR, or None."""
    failed, out = crate.must_compile("llvm-ir", opt=True, extra=UNROLL)
    crate.bad = {it.key for it, _ in failed}
    for it, errs in failed:
        c.bad(rule, "%s/%s" % (crate.config, it.key), "[%s] %s: %s: rustc rejects printing it: %s %s" % (
            crate.config, WHERE, it.key, errs[0][0], errs[0][1]), it.code + "\n" + errs[0][2])
    return out


def judged(path, cases, table):
    m = F.Module(open(path).read())
    names, out = opaque_names(m), []
    for k, (n, dim, s) in enumerate(cases):
        try:
            out.append(judge(m, "w_%d" % n, "r_%d" % n, dim, table, names, errors=k % 3 == 0) + (None,))
        except F.Unknown as e:
            out.append((None, None, str(e)))
    return out


# serialization ---------------------------------------------------------------

PAIRS = {"[": ("(",), "]": (")",), ",": ("", " ")}


def text_of(t):
    m = re.fullmatch(r"""'(.*)'|"(.*)"|&?"(.*)\"""", t[1], re.S) if t[0] == "const" else None
    return next(g for g in m.groups() if g is not None) if m else None


def ends(t, *names):
    return t[0] == "call" and re.search(r"(^|::)(%s)(::<.*>)?$" % "|".join(names), t[1]) is not None


def serialized(t, vector):
    """None, or what is wrong with the term of a serialized quantity."""
    if t[0] == "payload":
        t = t[1]
    if not ends(t, "serialize_str", "collect_str", "serialize_string"):
        raise MF.Unclear("not a string: %s" % MF.show(t)[:300])
    t, pairs = t[2][1], {}
    while True:
        if ends(t, "replace") and len(t[2]) == 3:
            a, b = text_of(t[2][1]), text_of(t[2][2])
            if a is None or b is None:
                raise MF.Unclear("replacement: %s" % MF.show(t)[:300])
            if a in pairs:
                return "%r is replaced twice" % a
            if a not in PAIRS and a != b:
                return "%r is replaced by %r, although it may be part of the number or of the unit" % (a, b)
            pairs[a] = b
            t = t[2][0]
        elif ends(t, "deref", "as_str", "as_ref", "to_string", "format", "must_use", "into", "from", "clone") and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    for a, bs in PAIRS.items():
        if a in pairs and pairs[a] not in bs:
            return "%r is replaced by %r: the text cannot be read again" % (a, pairs[a])
    if MF.unknowns(t) or "closure@" in repr(t):
        raise MF.Unclear("text: %s" % MF.show(t)[:300])
    if not ends(t, "new_v1", "new_v1_formatted", "new_const"):
        raise MF.Unclear("text: %s" % MF.show(t)[:300])
    for a, bs in PAIRS.items():
        if vector and a not in pairs:
            return "%r is not replaced by %r: the text cannot be read again" % (a, bs[0])
    self = ("param", "serialize.0")
    args = t[2][1] if len(t[2]) > 1 else ("array", ())
    pieces = t[2][0]
    if args[0] != "array" or pieces[0] != "array" or any(text_of(p) is None for p in pieces[1]):
        raise MF.Unclear("text: %s" % MF.show(t)[:300])
    for a in args[1]:
        if not ends(a, "new_debug"):
            return "prints %s instead of the quantity with its unit" % MF.show(a)[:200]
        if a[2][0] != self:
            return "prints %s instead of the quantity" % MF.show(a[2][0])[:200]
    if len(args[1]) != 1:
        return "prints %d values" % len(args[1])
    if any(text_of(p) for p in pieces[1]):
        return "writes more than the quantity: %s" % ", ".join(p[1] for p in pieces[1])
    if ends(t, "new_v1_formatted"):
        if "Count::Is" in repr(t):
            return "writes the number with a fixed width or precision"
        raise MF.Unclear("format: %s" % MF.show(t)[:300])
    return None


SERIALIZED = """diman::unit_system!(
quantity_type Quantity; dimension_type Dimension;
dimension Length; dimension Time; #[base(Length)] #[symbol(m)] unit meter: Length; #[base(Time)] #[symbol(s)] unit second: Time;
);
"""


def serialization(c, cfg):
    r = c.rule("serialized-%s" % cfg, "what is serialized is the text of printing, for vectors with the brackets and without the commas (reaching definitions on MIR, "
               "through helper functions) [%s]" % cfg, 6)
    cr = W.Crate(cfg, "c16-serialize", SERIALIZED, P.uses(cfg))
    cr.add("nothing", "pub fn nothing() {}")
    prog = program(c, r, cr)
    if prog is None:
        return
    have = set()
    for it in prog.fns.get("serialize", []):
        m = re.match(r"&Quantity<(?:glam::)?(\w+), D>", prog.fn(it).types.get("_1", ""))
        if not m:
            continue
        s = m.group(1)
        have.add(s)
        label = "[%s] serialize of a quantity of %s" % (cfg, s)
        prog.steps = 0
        try:
            rets = MF.Analysis(prog).returns(it)
            wrong = None if rets else "never succeeds"
            for t, conds in rets:
                if conds:
                    raise MF.Unclear("conditions")
                wrong = wrong or serialized(t, "Vec" in s)
        except MF.Unclear as e:
            c.undecide(r, "%s: %s" % (label, e))
            continue
        if wrong:
            c.bad(r, "%s/serialize/%s" % (cfg, s), "%s: %s: %s" % (label, WHERE, wrong), it.header + " {\n" + it.body)
        else:
            c.ok(r, 1, label + ": the text of printing")


@guarded
def program(c, r, cr):
    failed, out = cr.must_compile("mir", verbose=False)
    prog = MF.Program(out)
    os.remove(out)
    return prog


def run(c):
    deep = 8 if c.tier == "thorough" else 1
    for cfg in ("no-rational", "all-features"):
        serialization(c, cfg)
    crates = []
    for cfg in ("default", "no-rational", "all-features", "nostd-libm"):
        rnd = random.Random(c.seed)
        r = c.rule("printed-%s" % cfg, "what remains of printing a quantity of a concrete dimension, once the compiler has folded the choice of the unit, "
                   "writes the number as the caller asked for it and then symbols of factor one whose dimensions, each to its exponent, make up the "
                   "quantity's; it reports exactly the errors of the writer, and no panic is left [%s]" % cfg, 230)
        X.mir("diman", cfg)
        for name in SYSTEMS:
            crates.append((r, system_crate(cfg, name, rnd, deep)))
        names = sorted(SI.DIMENSIONS)
        if deep == 1:
            names = sorted(rnd.sample(names, 8))
        crates += [(r, si_crate(cfg, names[k::8], k)) for k in range(8) if names[k::8]]
    crates.sort(key=lambda x: "si" not in x[1].name)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda x: compiled(c, *x), crates))
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        jobs = []
        for (r, cr), out in zip(crates, outs):
            if out:
                good = [(it, case) for it, case in zip(cr.items, cr.cases) if it.key not in cr.bad]
                jobs += [(r, cr, good[k::4], ex.submit(judged, out, [g[1] for g in good[k::4]], cr.table)) for k in range(4)]
        for r, cr, good, job in jobs:
            for (it, case), (wrong, text, und) in zip(good, job.result()):
                if und:
                    c.undecide(r, "[%s] %s: %s" % (cr.config, it.key, und))
                elif wrong:
                    c.bad(r, "%s/%s" % (cr.config, it.key), "[%s] %s: %s: %s" % (cr.config, WHERE, it.key, wrong), it.code)
                else:
                    c.ok(r, 1, "[%s] %s -> %r" % (cr.config, it.key, "<number>" + text))
    for out in outs:
        if out:
            os.remove(out)
