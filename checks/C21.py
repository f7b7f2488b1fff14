"""Unit systems of users: any names, any number of base dimensions, side by side."""
import concurrent.futures, random
import extract as X
import prog as P
import systems as S
import witness as W
from core import accepted, rejected, twins

TITLE = "user-defined unit systems have all guarantees, and do not mix"
WHERE = "expansion of unit_system! (crates/diman_unit_system/src/codegen)"


class Sys:
    """A unit system: its text and the names that the witnesses use."""

    def __init__(self, quantity, dimension, bases, units, order=None, tag=""):
        self.quantity, self.dimension, self.bases, self.units, self.tag = quantity, dimension, bases, units, tag
        a, b = bases[0], bases[1] if len(bases) > 1 else None
        u, v = units[0][0], units[1][0] if b else None
        out = ["quantity_type %s;" % quantity, "dimension_type %s;" % dimension]
        out += ["dimension %s;" % d for d in bases]
        out += ["#[base(%s)] #[symbol(%s)]%s unit %s: %s;" % (d, sym, " #[metric_prefixes] #[alias(%s_alias)]" % name if k == 0 else "", name, d)
                for k, (d, (name, sym)) in enumerate(zip(bases, units))]
        out += ["dimension DOne = 1;", "dimension DSquare = %s^2;" % a, "dimension DInverse = 1 / %s;" % a]
        # a second dimension to combine the first with
        out += ["dimension DOther = %s;" % (b or "%s^3" % a), "dimension DProduct = %s * DOther;" % a, "dimension DQuotient = %s / DOther;" % a]
        out += ["#[symbol(Ymy)] #[prefix(kilo)] unit my_unit: DOther = 1 * %s;" % (v or "%s^3" % u),
                "unit my_big: %s = 4 * %s;" % (a, u), "constant MY_CONSTANT: DProduct = 8 * my_unit * %s;" % u]
        self.statements = out
        if order:
            order.shuffle(out)
        self.text = "diman::unit_system!(\n%s\n);" % "\n".join(out)
        self.a, self.u = a, u


def variety(rnd):
    metre = [("meter", "m"), ("second", "s"), ("gram", "g"), ("kelvin", "K"), ("ampere", "A"), ("mole", "mol"), ("candela", "cd"), ("bit", "b"),
             ("coin", "c"), ("radian", "rad"), ("person", "p"), ("pixel", "px"), ("beat", "bt")]
    names = ["Length", "Time", "Mass", "Temperature", "Current", "AmountOfSubstance", "LuminousIntensity", "Information", "Currency", "Angle", "Population",
             "PixelCount", "Rhythm"]
    out = []

    def add(tag, q, d, bases, units=None, shuffle=False):
        out.append(Sys(q, d, bases, units or metre[:len(bases)], rnd if shuffle else None, tag))
    add("one base dimension", "Quantity", "Dimension", ["Length"])
    add("two, other type names", "Measure", "Powers", names[:2])
    add("thirteen, shuffled", "Amount", "Exponents", names, shuffle=True)
    add("the names of the types exchanged", "Dimension", "Quantity", names[:3])
    add("lower case types", "quantity", "dimension", names[:3], shuffle=True)
    add("names of diman itself", "Ratio", "UnitSystem", ["Product", "Quotient", "Magnitude", "Unit"])
    add("names of traits and types of core", "Value", "Debug", ["Copy", "Clone", "Default", "Add", "Mul", "Display"])
    add("lower case and upper case dimensions", "Scalar", "DimVec", ["length_scale", "TIME", "X", "Y1", "MassPerson", "_under"])
    add("unicode", "Größe", "Maßeinheit", ["Länge", "Zeit"], [("μέτρο", "μ"), ("sekunde", "s")])
    add("keywords as snake case", "Quantity", "Dimension", ["Type", "Match", "Loop", "Async", "Move"], shuffle=True)
    add("names of parameters and fields", "Entry", "Powers", ["Value", "Rhs", "Other", "Num", "Denom", "Iter"],
        [("value", "v"), ("rhs", "r"), ("other", "o"), ("self_", "z"), ("factor", "f"), ("none", "n")])
    add("dimensions named like the types of other systems", "Measure", "Powers", ["Quantity", "Dimension", "Dimensionless"])
    add("units named like numbers and modules", "Quantity", "Dimension", ["Length", "Time", "Mass"], [("f64", "f32"), ("units", "u"), ("core", "i32")])
    return out


def battery(cfg, s, sy, tw):
    have = X.features(cfg)
    math = bool(have & {"std", "num-traits-libm"})
    sh = P.short(s)
    d = lambda n, st=s: "dimensions::%s<%s>" % (n, st)
    A, B, AB, Q, I, O, SQ = (d(n) for n in (sy.a, "DOther", "DProduct", "DQuotient", "DInverse", "DOne", "DSquare"))

    def t(key, params, res, body, ref=None, rparams=None, **kw):
        rp = rparams or [s] * len(params)
        names = "abc"[:len(params)]
        sig = "(%s)" % ", ".join("%s: %s" % x for x in zip(names, params)) + (" -> %s" % res[0] if res else "")
        rsig = "(%s)" % ", ".join("%s: %s" % x for x in zip(names, rp)) + (" -> %s" % res[1] if res else "")
        tw.add("%s %s" % (key, sh), sig, body, rsig, ref or body, **kw)
    for op in "+-":
        t("q %s q" % op, [A, A], (A, s), "a %s b" % op)
        t("q %s= q" % op, ["&mut " + A, A], None, "*a %s= b" % op, rparams=["&mut " + s, s])
        t("1 %s bare" % op, [O, s], (O, s), "a %s b" % op)
        t("bare %s 1" % op, [s, O], (O, s), "a %s b" % op)
    t("q * q", [A, B], (AB, s), "a * b")
    t("q / q", [A, B], (Q, s), "a / b")
    t("&q / &q", ["&" + A, "&" + B], (Q, s), "a / b", "*a / *b", ["&" + s, "&" + s])
    t("&q * q", ["&" + A, B], (AB, s), "a * b", "*a * b", ["&" + s, s])
    t("q * bare", [A, s], (A, s), "a * b")
    t("bare / q", [s, A], (I, s), "a / b")
    t("q *= bare", ["&mut " + A, s], None, "*a *= b", rparams=["&mut " + s, s])
    t("q /= 1", ["&mut " + A, O], None, "*a /= b", rparams=["&mut " + s, s])
    t("-q", [A], (A, s), "-a")
    t("q == q", [A, A], ("bool", "bool"), "a == b")
    t("value", [O], (s, s), "a.value()", "a")
    t("deref", ["&" + O], (s, s), "**a", "*a", ["&" + s])
    t("unchecked", [A], (s, s), "a.value_unchecked()", "a")
    t("new_unchecked", [s], (A, s), "<%s>::new_unchecked(a)" % A, "a")
    t("from", [s], (O, s), "a.into()", "a")
    t("sum", ["[%s; 3]" % A], (A, s), "a.into_iter().sum()", "let mut t = %s::default(); t += a[0]; t += a[1]; t += a[2]; t" % s, ["[%s; 3]" % s])
    t("default", [], (A, s), "Default::default()")
    t("clone", ["&" + A], (A, s), "a.clone()", "*a", ["&" + s])
    if "std" in have:
        f = "units::%s" % sy.u
        one = "a * %s" % ("1.0")
        t("bare * unit", [s], (A, s), "a * %s" % f, "a", alts=[one])
        t("unit * bare", [s], (A, s), "%s * a" % f, "a", alts=[one])
        t("bare / unit", [s], (I, s), "a / %s" % f, "a", alts=["a / 1.0"])
        t("bare * my_big", [s], (A, s), "a * units::my_big", "a * 4.0")
        t("bare * kilo", [s], (A, s), "a * units::kilo%s" % sy.u, "a * 1000.0")
        t("bare * alias", [s], (A, s), "a * units::milli%s_alias" % sy.u, "a * 0.001")
        t("bare * (unit * unit)", [s], (AB, s), "a * (units::%s * units::kilomy_unit)" % sy.u, "a * 1000.0")
        t("bare * (unit / unit)", [s], (Q, s), "a * (units::my_big / units::my_unit)", "a * 4.0")
        t("constant", [s], (AB, s), "a * constants::MY_CONSTANT", "a * 8.0")
    if s in P.FLOATS:
        t("q < q", [A, A], ("bool", "bool"), "a < b")
        t("bare < 1", [s, O], ("bool", "bool"), "a < b")
        t("min", [A, A], (A, s), "a.min(b)")
        t("clamp", [A, A, A], (A, s), "a.clamp(b, c)")
        t("squared", ["&" + A], (SQ, s), "a.squared()", "a * a", ["&" + s])
        t("powi", ["&" + A], (SQ, s), "a.powi::<2>()", "a * a", ["&" + s])
        t("is_nan", ["&" + A], ("bool", "bool"), "a.is_nan()", rparams=["&" + s])
        t("zero", [], (A, s), "<%s>::zero()" % A, "0.0")
        if math:
            t("sqrt", ["&" + SQ], (A, s), "a.sqrt()", rparams=["&" + s])
            t("cos", ["&" + O], (O, s), "a.cos()", rparams=["&" + s])
        if "std" in have:
            t("value_in", [A], (s, s), "a.value_in(units::my_big)", "a / 4.0", alts=["a * 0.25"])
            t("q * unit", [B], (AB, s), "a * units::my_big", "a * 4.0")
            t("q / unit", [AB], (B, s), "a / units::my_big", "a / 4.0", alts=["a * 0.25"])
    else:
        f, n = P.VECTORS[s]
        xs = "xyz"[:n]
        Af, Bf = d(sy.a, f), d("DOther", f)
        t("new", [Af] * n, (A, s), "<%s>::new(%s)" % (A, ", ".join("abc"[:n])), "<%s>::new(%s)" % (s, ", ".join("abc"[:n])), [f] * n)
        for x in xs:
            t(x, ["&" + A], (Af, f), "a.%s()" % x, "a.%s" % x, ["&" + s])
        t("set_y", ["&mut " + A, Af], None, "a.set_y(b)", "a.y = b", ["&mut " + s, f])
        t("dot", [A, B], (d("DProduct", f), f), "a.dot(b)")
        t("length", ["&" + A], (Af, f), "a.length()", rparams=["&" + s])
        t("distance", ["&" + A, "&" + A], (Af, f), "a.distance(b)", "a.distance(*b)", ["&" + s, "&" + s])
        t("normalize", ["&" + A], (O, s), "a.normalize()", rparams=["&" + s])
        t("* scalar", [A, Bf], (AB, s), "a * b", rparams=[s, f])
        t("scalar *", [Bf, A], (AB, s), "a * b", rparams=[f, s])
        t("/ scalar", [A, Bf], (Q, s), "a / b", rparams=[s, f])
        t("*= scalar", ["&mut " + A, d("DOne", f)], None, "*a *= b", rparams=["&mut " + s, f])


TRAITS = {
    "serde": "fn t_ser<T: ::serde::Serialize>() {} fn t_de<T: for<'x> ::serde::Deserialize<'x>>() {} pub fn t_serde() { t_ser::<%(q)s>(); t_de::<%(q)s>(); }",
    "rand": "fn t_uni<T: ::rand::distributions::uniform::SampleUniform>() {} pub fn t_rand() { t_uni::<%(q)s>(); }",
    "mpi": "fn t_mpi_<T: ::mpi::traits::Equivalence>() {} pub fn t_mpi() { t_mpi_::<%(q)s>(); }",
    "hdf5": "fn t_h5<T: ::hdf5::H5Type>() {} pub fn t_hdf5() { t_h5::<%(q)s>(); }",
    "": "fn t_dbg<T: ::core::fmt::Debug + Copy + 'static>() {} pub fn t_debug() { t_dbg::<%(q)s>(); }",
}


def run(c):
    rnd = random.Random(c.seed)
    cfgs = ["default", "all-features"] + (["nostd", "nostd-libm", "no-rational"] if c.tier == "thorough" else [])
    for cfg in cfgs:
        have = X.features(cfg)
        r = c.rule("operations-%s" % cfg, "in a unit system with names, base dimensions and an order of statements of the user's choice, every operation has the "
                   "dimension computed from the definitions and optimises to the code of the operation on bare numbers [%s]" % cfg, 800 if "nostd" not in cfg else 500)
        ri = c.rule("traits-%s" % cfg, "quantities of such a system implement printing and the traits of the enabled integrations [%s]" % cfg, 20)
        made, ints = [], []
        for k, sy in enumerate(variety(rnd)):
            for s in P.storages(cfg):
                if s not in ("f64", "f32", "glam::DVec3", "glam::Vec2") or (s == "f32" and k % 3):
                    continue
                std = "std" in have
                extra = "" if std else "use num_traits::float::%s as _;\n" % ("Float" if "num-traits-libm" in have else "FloatCore")
                tw = W.Twins(cfg, "c21-%d-%s" % (k, P.short(s)), sy.text + "\n" + extra, P.uses(cfg, *(() if std else ("num_traits",))))
                if not std:
                    tw.crate.head = "#![no_std]\n" + W.HEAD
                battery(cfg, s, sy, tw)
                tw.tag = sy.tag
                made.append(tw)
            cr = W.Crate(cfg, "c21-t-%d" % k, sy.text + "\n", P.uses(cfg))
            if "std" not in have:
                cr.head = "#![no_std]\n" + W.HEAD
            for i, text in TRAITS.items():
                for s in P.storages(cfg):
                    if (not i or i in have) and (i != "rand" or s in P.FLOATS):
                        cr.add("%s: %s %s" % (sy.tag, i or "Debug", P.short(s)),
                               "pub mod m%d { use super::*; %s }" % (len(cr.items), text % dict(q="dimensions::DProduct<%s>" % s)))
            ints.append(cr)
        # the same macro for the crates of diman itself
        rn = c.rule("internal-%s" % cfg, "a system made by unit_system_internal!, which finds diman's crates by their own names, has the same operations [%s]" % cfg, 60)
        for k, sy in enumerate(variety(rnd)[1:4]):
            s = "f64"
            text = sy.text.replace("diman::unit_system!", "diman_unit_system::unit_system_internal!")
            tw = W.Twins(cfg, "c21-internal-%d" % k, text + "\n" + ("" if std else extra), P.uses(cfg, "diman_unit_system", "diman_lib", "num_traits"))
            if not std:
                tw.crate.head = "#![no_std]\n" + W.HEAD
            battery(cfg, s, sy, tw)
            tw.tag, tw.rule = sy.tag, rn
            made.append(tw)
        results = {}

        def warm(tw):
            try:
                results[id(tw)] = W.Twins.run(tw)
            except W.PreludeError as e:
                results[id(tw)] = e
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(warm, made))
        for tw in made:
            def again(res=results[id(tw)]):
                if isinstance(res, Exception):
                    raise res
                return res
            tw.run = again
            twins(c, getattr(tw, "rule", r), tw, "%s, %s" % (WHERE, tw.tag))
        for cr in ints:
            accepted(c, ri, cr, WHERE)

        # systems side by side
        rm = c.rule("mixing-%s" % cfg, "an expression that combines quantities, units or dimensions of two unit systems does not type-check, even if the systems "
                    "are defined by the same text [%s]" % cfg, 100)
        ro = c.rule("side-by-side-%s" % cfg, "the same expression with operands of one of them does [%s]" % cfg, 100)
        T1 = Sys("Quantity", "Dimension", ["Length", "Time"], [("meter", "m"), ("second", "s")])
        T2 = Sys("Measure", "Powers", ["Length", "Time", "Mass"], [("meter", "m"), ("second", "s"), ("gram", "g")])
        prelude = "pub mod one { %s }\npub mod two { %s }\npub mod three { %s }\n" % (T1.text, T1.text, T2.text)
        bad, good = W.Crate(cfg, "c21-mix", prelude, P.uses(cfg)), W.Crate(cfg, "c21-own", prelude, P.uses(cfg))
        n = 0
        for x, y in (("one", "two"), ("two", "one"), ("one", "three"), ("three", "one")):
            for s in [z for z in P.storages(cfg) if z in ("f64", "glam::DVec3")]:
                for key, params, body in expressions(s):
                    for z, crate in ((y, bad), (x, good)):
                        n += 1
                        crate.add("%s/%s %s %s%s" % (x, z, P.short(s), key, "" if z == y else " (next to %s)" % y), "pub fn f%d(%s) { let _ = %s; }" % (
                            n, params.replace("X::", "crate::%s::" % x).replace("Y::", "crate::%s::" % z),
                            body.replace("X::", "crate::%s::" % x).replace("Y::", "crate::%s::" % z)))
        if "si" in have:
            for key, params, body in expressions("f64", si=True):
                for z, crate in (("crate::one", bad), ("diman::si", good)):
                    n += 1
                    crate.add("si/%s %s" % (z, key), "pub fn f%d(%s) { let _ = %s; }" % (
                        n, params.replace("X::", "diman::si::").replace("Y::", z + "::"), body.replace("X::", "diman::si::").replace("Y::", z + "::")))
        rejected(c, rm, bad, WHERE)
        accepted(c, ro, good, WHERE)


def expressions(s, si=False):
    L, T = "dimensions::Length<%s>" % s, "dimensions::Time<%s>" % s
    ab = "a: X::%s, b: Y::%s" % (L, L)
    out = [(op, ab, "a %s b" % op) for op in ("+", "-", "==", "*", "/")]
    out += [(op + "=", "mut a: X::%s, b: Y::%s" % (L, L), "{ a %s= b; }" % op) for op in "+-"]
    out += [("&a * &b", ab, "&a * &b"), ("a = b", ab, "{ let c: X::%s = b; c }" % L),
            ("into", ab, "{ let c: X::%s = b.into(); c }" % L),
            ("a *= b / b", "mut a: X::%s, b: Y::%s" % (L, L), "{ a *= b / b; }") if s == "f64" else ("a + b * 1", ab, "a + b * 1.0"),
            ("number times unit", "a: %s" % s, "{ let c: X::%s = a * Y::units::meter; c }" % L),
            ("quantity times unit", "a: X::%s" % L, "a * Y::units::meter") if s == "f64" else ("sum", ab, "{ let c: X::%s = [b].into_iter().sum(); c }" % L),
            ]
    if s == "f64":
        out += [("quantity over unit", "a: X::%s" % L, "a / Y::units::meter"), ("unit times quantity", "a: X::%s" % L, "Y::units::meter * a"),
                ("value_in", "a: X::%s" % L, "a.value_in(Y::units::meter)"), ("unit times unit", "a: f64", "a * (X::units::meter * Y::units::second)"),
                ("unit over unit", "a: f64", "a * (X::units::meter / Y::units::second)"), ("<", ab, "a < b"), ("min", ab, "a.min(b)"),
                ("clamp", ab, "a.clamp(b, b)")]
        if not si:
            out += [("quantity times constant", "a: X::%s" % L, "a * Y::constants::MY_CONSTANT"),
                    ("unit times constant", "a: f64", "a * (X::units::meter * Y::constants::MY_CONSTANT)")]
    else:
        out += [("dot", ab, "a.dot(b)"), ("distance", ab, "a.distance(&b)"), ("scalar times vector", "a: X::dimensions::Length<f64>, b: Y::%s" % L, "a * b"),
                ("vector over scalar", "a: X::dimensions::Length<f64>, b: Y::%s" % L, "b / a"), ("new_x", "a: X::dimensions::Length<f64>, b: Y::%s" % L,
                                                                                                 "{ let c = <Y::%s>::new_x(a); c }" % L)]
    return out
