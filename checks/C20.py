"""The guarantees in every supported combination of features."""
import concurrent.futures
import extract as X
import dims as D
import prog as P
import witness as W
from core import accepted, twins
from C03 import RefTwins
import C04, C12
import si_table as T
import systems as S

TITLE = "guarantees do not depend on the feature configuration"
WHERE = "feature gates (Cargo.toml, crates/*/Cargo.toml, cfg in crates/*/src)"


def battery(cfg, t, tw, s, typed):
    """The operations that every combination of features offers for the storage s, against bare numbers."""
    have = X.features(cfg)
    math = bool(have & {"std", "num-traits-libm"})
    a, b = D.vec(L=1, T=-1, J=2), D.vec(L=-2, T=1, M=3)
    q = lambda v: t.q(v, s)
    sh = P.short(s)
    out = {"+": (a, a), "-": (a, a), "*": (b, D.add(a, b)), "/": (b, D.sub(a, b))}
    for op, (rhs, res) in out.items():
        tw.add("q %s q %s" % (op, sh), "(a: %s, b: %s) -> %s" % (q(a), q(rhs), q(res)), "a %s b" % op, "(a: %s, b: %s) -> %s" % (s, s, s), "a %s b" % op)
        tw.add("&q %s &q %s" % (op, sh), "(a: &%s, b: &%s) -> %s" % (q(a), q(rhs), q(res)), "a %s b" % op, "(a: &%s, b: &%s) -> %s" % (s, s, s), "*a %s *b" % op)
        d = a if op in "+-" else D.ZERO
        tw.add("q %s= q %s" % (op, sh), "(a: &mut %s, b: %s)" % (q(a), q(d)), "*a %s= b" % op, "(a: &mut %s, b: %s)" % (s, s), "*a %s= b" % op)
        if op in "*/":
            tw.add("q %s bare %s" % (op, sh), "(a: %s, b: %s) -> %s" % (q(a), s, q(a)), "a %s b" % op, "(a: %s, b: %s) -> %s" % (s, s, s), "a %s b" % op)
            tw.add("bare %s q %s" % (op, sh), "(a: %s, b: %s) -> %s" % (s, q(a), q(a if op == "*" else D.neg(a))), "a %s b" % op,
                   "(a: %s, b: %s) -> %s" % (s, s, s), "a %s b" % op)
            tw.add("q %s= bare %s" % (op, sh), "(a: &mut %s, b: %s)" % (q(a), s), "*a %s= b" % op, "(a: &mut %s, b: %s)" % (s, s), "*a %s= b" % op)
        else:
            tw.add("dimensionless %s bare %s" % (op, sh), "(a: %s, b: %s) -> %s" % (q(D.ZERO), s, q(D.ZERO)), "a %s b" % op,
                   "(a: %s, b: %s) -> %s" % (s, s, s), "a %s b" % op)
    tw.add("== %s" % sh, "(a: %s, b: %s) -> bool" % (q(a), q(a)), "a == b", "(a: %s, b: %s) -> bool" % (s, s), "a == b")
    tw.add("value %s" % sh, "(a: %s) -> %s" % (q(D.ZERO), s), "a.value()", "(a: %s) -> %s" % (s, s), "a")
    tw.add("value_ref %s" % sh, "(a: &%s) -> %s" % (q(D.ZERO), s), "*a.value_ref()", "(a: &%s) -> %s" % (s, s), "*a")
    tw.add("deref %s" % sh, "(a: &%s) -> %s" % (q(D.ZERO), s), "**a", "(a: &%s) -> %s" % (s, s), "*a")
    tw.add("unchecked %s" % sh, "(a: %s) -> %s" % (q(a), s), "a.value_unchecked()", "(a: %s) -> %s" % (s, s), "a")
    tw.add("new_unchecked %s" % sh, "(a: %s) -> %s" % (s, q(a)), "<%s>::new_unchecked(a)" % q(a), "(a: %s) -> %s" % (s, s), "a")
    tw.add("from %s" % sh, "(a: %s) -> %s" % (s, q(D.ZERO)), "a.into()", "(a: %s) -> %s" % (s, s), "a")
    length = D.vec(L=1)
    # units whose factor is one: what other factors decode to is decided under C14
    units = [
        ("number times unit", "(a: %s) -> %s" % (s, q(length)), "a * units::meter", "a", ["a * 1.0"]),
        ("unit times number", "(a: %s) -> %s" % (s, q(length)), "units::meter * a", "a", ["1.0 * a"]),
        ("number over unit", "(a: %s) -> %s" % (s, q(D.neg(length))), "a / units::meter", "a", ["a / 1.0"]),
        ("product of units", "(a: %s) -> %s" % (s, q(D.vec(L=1, T=-1))), "a * (units::meter / units::second)", "a", ["a * 1.0"])]
    if s in P.FLOATS:
        units += [
            ("value in unit", "(a: %s) -> %s" % (q(length), s), "a.value_in(units::meter)", "a", ["a / 1.0"]),
            ("q times unit", "(a: %s) -> %s" % (q(D.vec(T=2)), q(D.vec(L=1, T=2))), "a * units::meter", "a", ["a * 1.0"])]
    for key, sig, body, ref, alts in units:
        if "std" in have:
            tw.add("%s %s" % (key, sh), sig, body, "(a: %s) -> %s" % (s, s), ref, alts=alts)
        else:
            # how num_traits computes powers of two without std is a loop that is not folded: types only
            typed.add("%s %s" % (key, sh), "pub fn f_%d%s { %s }" % (len(typed.items), sig, body))
    for k in C04.generic(t, s, a):
        tw.add("%s %s" % (k[0], sh), *k[1:])
    if s in P.FLOATS:
        for k in C04.cases(t, s, a, P.rational(cfg)):
            if math or not k[0].startswith(("sqrt", "cbrt")):
                tw.add("%s %s" % (k[0], sh), *k[1:])
        if math:
            for m in C04.DIMENSIONLESS:
                tw.add("%s %s" % (m, sh), "(a: &%s) -> %s" % (q(D.ZERO), q(D.ZERO)), "a.%s()" % m, "(a: &%s) -> %s" % (s, s), "a.%s()" % m)
        for op in ("<", "<=", ">", ">="):
            tw.add("%s %s" % (op, sh), "(a: %s, b: %s) -> bool" % (q(a), q(a)), "a %s b" % op, "(a: %s, b: %s) -> bool" % (s, s), "a %s b" % op)
        tw.add("partial_cmp %s" % sh, "(a: &%s, b: &%s) -> Option<core::cmp::Ordering>" % (q(a), q(a)), "a.partial_cmp(b)",
               "(a: &%s, b: &%s) -> Option<core::cmp::Ordering>" % (s, s), "a.partial_cmp(b)")
    else:
        f, n = P.VECTORS[s]
        xs = ["x", "y", "z"][:n]
        tw.add("new %s" % sh, "(%s) -> %s" % (", ".join("%s: %s" % (x, t.q(a, f)) for x in xs), q(a)), "<%s>::new(%s)" % (q(a), ", ".join(xs)),
               "(%s) -> %s" % (", ".join("%s: %s" % (x, f) for x in xs), s), "<%s>::new(%s)" % (s, ", ".join(xs)))
        for x in xs:
            tw.add("%s %s" % (x, sh), "(a: &%s) -> %s" % (q(a), t.q(a, f)), "a.%s()" % x, "(a: &%s) -> %s" % (s, f), "a.%s" % x)
            tw.add("set_%s %s" % (x, sh), "(a: &mut %s, b: %s)" % (q(a), t.q(a, f)), "a.set_%s(b)" % x, "(a: &mut %s, b: %s)" % (s, f), "a.%s = b" % x)
        tw.add("dot %s" % sh, "(a: %s, b: %s) -> %s" % (q(a), q(b), t.q(D.add(a, b), f)), "a.dot(b)", "(a: %s, b: %s) -> %s" % (s, s, f), "a.dot(b)")
        tw.add("length %s" % sh, "(a: &%s) -> %s" % (q(a), t.q(a, f)), "a.length()", "(a: &%s) -> %s" % (s, f), "a.length()")
        tw.add("times scalar %s" % sh, "(a: %s, b: %s) -> %s" % (q(a), t.q(b, f), q(D.add(a, b))), "a * b", "(a: %s, b: %s) -> %s" % (s, f, s), "a * b")
        tw.add("scalar times %s" % sh, "(a: %s, b: %s) -> %s" % (t.q(a, f), q(b), q(D.add(a, b))), "a * b", "(a: %s, b: %s) -> %s" % (f, s, s), "a * b")


INTEGRATIONS = {
    "serde": "pub fn ser<T: serde::Serialize>() {} pub fn de<T: for<'x> serde::Deserialize<'x>>() {} pub fn f_%(n)d() { ser::<%(q)s>(); de::<%(q)s>(); }",
    "rand": "pub fn uni<T: rand::distributions::uniform::SampleUniform>() {} pub fn f_%(n)d() { uni::<%(q)s>(); }",
    "mpi": "pub fn mpi_<T: mpi::traits::Equivalence>() {} pub fn f_%(n)d() { mpi_::<%(q)s>(); }",
    "hdf5": "pub fn h5<T: hdf5::H5Type>() {} pub fn f_%(n)d() { h5::<%(q)s>(); }",
}


def si_view(cfg):
    got = {}
    for kind, m in C12.constants(cfg).items():
        for n, (v, f) in m.items():
            got[n] = (tuple(D.Fr(*x) for x in v), f)
    return got


def run(c):
    rc = c.rule("compiles", "the library compiles with this combination of features", len(X.EXTRA))
    X.mir("diman", "default")  # a tree that does not build at all is not this property's business
    ok = []
    for cfg in list(X.CONFIGS) + list(X.EXTRA):
        try:
            X.mir("diman", cfg)
        except X.BuildError as e:
            c.bad(rc, cfg, "[%s] %s: the library does not compile with the features %s: %s" % (
                cfg, WHERE, ",".join(sorted(X.features(cfg))) or "none", str(e)[-700:]), str(e))
            continue
        c.ok(rc, 1, ",".join(sorted(X.features(cfg))) or "no features")
        ok.append(cfg)
    rb = c.rule("operations", "an operation that every combination of features offers type-checks in this one, in a crate that uses std exactly if diman does, "
                "with the right dimension, and optimises to the code of the same operation on bare numbers", 1500)
    ri = c.rule("integrations", "the traits of an enabled integration are implemented for the quantities of every storage they are offered for", 20)
    made, types = [], []
    for cfg in ok:
        have = X.features(cfg)
        t = P.Types(cfg)
        std = "std" in have
        extra = "" if std else "use num_traits::float::%s as _;\n" % ("Float" if "num-traits-libm" in have else "FloatCore")
        for s in P.storages(cfg):
            tw = RefTwins(cfg, "c20-" + P.short(s), t, P.uses(cfg, *(() if std else ("num_traits",))), extra)
            if not std:
                tw.crate.head = "#![no_std]\n" + W.HEAD
            typed = P.LazyCrate(cfg, "c20-u-" + P.short(s), t, tw.crate.uses, extra)
            typed.head = tw.crate.head
            battery(cfg, t, tw, s, typed)
            made.append(tw)
            if typed.items:
                types.append(typed)
        if not P.storages(cfg):
            # without any storage type the macro must still work
            tw = RefTwins(cfg, "c20-none", t, P.uses(cfg), "")
            if not std:
                tw.crate.head = "#![no_std]\n" + W.HEAD
            a = D.vec(L=1, T=-1)
            tw.add("generic", "(a: %s) -> %s" % (t.q(a, "i32"), "i32"), "a.value_unchecked()", "(a: i32) -> i32", "a")
            made.append(tw)
    results = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda tw: warm(tw, results), made))
    for tw in made:
        if id(tw) in results:
            tw.run = lambda r=results[id(tw)]: finish(r)
        twins(c, rb, tw, WHERE)
    for cr in types:
        accepted(c, rb, cr, WHERE)
    for cfg in ok:
        have = X.features(cfg)
        cr = P.LazyCrate(cfg, "c20-int", P.Types(cfg), P.uses(cfg))
        n = 0
        for i, text in INTEGRATIONS.items():
            if i not in have:
                continue
            for s in P.storages(cfg):
                if i == "rand" and s not in P.FLOATS:
                    continue
                for v in (D.ZERO, D.MIXED[7]):
                    n += 1
                    cr.add("%s %s %s" % (i, P.short(s), D.show(v)), "pub mod m%d { use super::*; %s }" % (n, text % dict(n=n, q=cr.types.q(v, s))))
        if n:
            accepted(c, ri, cr, WHERE)

    rs = c.rule("si", "the SI of this combination of features has the same units and constants with the same dimensions and values as that of the default "
                "features (which C12 compares with the SI)", 15)
    ref = si_view("default")
    for cfg in ok:
        if cfg == "default" or "si" not in X.features(cfg):
            continue
        got = si_view(cfg)
        diff = [n for n in sorted(set(ref) | set(got)) if n not in got or n not in ref or ref[n][0] != got[n][0] or not S.close(ref[n][1], got[n][1])]
        if diff:
            n = diff[0]
            c.bad(rs, "%s/%s" % (cfg, n), "[%s] %s: %s is %s, with the default features %s (%d names differ)" % (cfg, WHERE, n, got.get(n), ref.get(n), len(diff)))
        else:
            c.ok(rs, 1, "[%s] %d units and constants" % (cfg, len(got)))


def warm(tw, results):
    try:
        results[id(tw)] = ("ok", W.Twins.run(tw))
    except W.PreludeError as e:
        results[id(tw)] = ("prelude", e)


def finish(r):
    if r[0] == "prelude":
        raise r[1]
    return r[1]
