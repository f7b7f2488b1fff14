"""Quantities cost nothing at run time."""
import os
import cost
import dims as D
import extract as X
import llvm
import prog as P
import si_table as T
import C04, C07, C19
from C03 import RefTwins
from core import guarded

TITLE = "quantities cost nothing at run time"
WHERE = "diman in an optimised program"
ROLLED = ["-Cllvm-args=-unroll-runtime=false", "-Cllvm-args=-unroll-allow-partial=false", "-Cllvm-args=-unroll-allow-peeling=false"]
L, TI, M, V, A, E = D.vec(L=1), D.vec(T=1), D.vec(M=1), D.vec(L=1, T=-1), D.vec(L=1, T=-2), D.vec(L=2, T=-2, M=1)


def operators(tw, t, s):
    sh, q, a, b = P.short(s), (lambda v: t.q(v, s)), D.vec(L=1, T=-1, J=2), D.vec(L=-2, T=1, M=3)
    out = {"+": a, "-": a, "*": D.add(a, b), "/": D.sub(a, b)}
    for op in "+-*/":
        if s in P.VECTORS and op in "*/":
            continue
        rhs = b if op in "*/" else a
        for rl in ("", "&"):
            for rr in ("", "&"):
                tw.add("%sq %s %sq %s" % (rl, op, rr, sh), "(a: %s%s, b: %s%s) -> %s" % (rl, q(a), rr, q(rhs), q(out[op])), "a %s b" % op,
                       "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, s, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
    for op in ("+=", "-="):
        tw.add("q %s q %s" % (op, sh), "(a: &mut %s, b: %s)" % (q(a), q(a)), "*a %s b" % op, "(a: &mut %s, b: %s)" % (s, s), "*a %s b" % op)
    if s in P.FLOATS:
        for op in ("*=", "/="):
            tw.add("q %s x %s" % (op, sh), "(a: &mut %s, b: %s)" % (q(a), s), "*a %s b" % op, "(a: &mut %s, b: %s)" % (s, s), "*a %s b" % op)
        for op in ("==", "<", "<=", ">", ">=", "!="):
            tw.add("q %s q %s" % (op, sh), "(a: %s, b: %s) -> bool" % (q(a), q(a)), "a %s b" % op, "(a: %s, b: %s) -> bool" % (s, s), "a %s b" % op)
        tw.add("partial_cmp %s" % sh, "(a: %s, b: %s) -> Option<core::cmp::Ordering>" % (q(a), q(a)), "a.partial_cmp(&b)",
               "(a: %s, b: %s) -> Option<core::cmp::Ordering>" % (s, s), "a.partial_cmp(&b)")


def programs(tw, t, s, std):
    """Small programs as users write them: (key, quantities, numbers)."""
    sh, q = P.short(s), (lambda v: t.q(v, s))

    def both(key, sig, body, plain=None):
        """`sig` and `body` with $X for types; the twin has numbers for all of them."""
        w, r = sig, sig
        for name, v in (("$L", L), ("$T", TI), ("$V", V), ("$A", A), ("$M", M), ("$E", E)):
            w, r = w.replace(name, q(v)), r.replace(name, s)
        bw, br = body, plain or body
        for name, v in (("$L", L), ("$T", TI), ("$V", V), ("$A", A), ("$M", M), ("$E", E)):
            bw, br = bw.replace(name, q(v)), br.replace(name, s)
        tw.add("%s %s" % (key, sh), w, bw, r, br)

    both("integration step", "(x: $L, v: $V, a: $A, dt: $T) -> ($L, $V)", "{ let v = v + a * dt; (x + v * dt, v) }")
    both("integration of slices", "(x: &mut [$L], v: &mut [$V], a: &[$A], dt: $T)",
         "for ((x, v), a) in x.iter_mut().zip(v.iter_mut()).zip(a.iter()) { *v += *a * dt; *x += *v * dt; }")
    both("sum of values", "(a: &[$L]) -> $L", "a.iter().copied().sum()")
    both("sum by hand", "(a: &[$L]) -> $L", "{ let mut s = <$L>::zero(); for x in a { s += *x; } s }", "{ let mut s: $L = 0.0; for x in a { s += *x; } s }")
    both("maximum by fold", "(a: &[$L], z: $L) -> $L", "a.iter().fold(z, |m, x| m.max(*x))")
    both("kinetic energy", "(m: &[$M], v: &[$V]) -> $E", "m.iter().zip(v).map(|(m, v)| *m * v.squared() * 0.5).sum()",
         "m.iter().zip(v).map(|(m, v)| *m * v.powi(2) * 0.5).sum()")
    both("mean of neighbours", "(a: &[$L], b: &mut [$L])", "for (w, b) in a.windows(2).zip(b.iter_mut()) { *b = (w[0] + w[1]) / 2.0; }")
    both("made from numbers", "(a: &[%s], b: &mut [$L])" % s, "for (a, b) in a.iter().zip(b.iter_mut()) { *b = *a * units::kilometers; }",
         "for (a, b) in a.iter().zip(b.iter_mut()) { *b = *a * %s; }" % C07.f(1e3, s))
    both("converted to numbers", "(a: &mut [%s], b: &[$L])" % s, "for (a, b) in a.iter_mut().zip(b.iter()) { *a = b.value_in(units::kilometers); }",
         "for (a, b) in a.iter_mut().zip(b.iter()) { *a = *b / %s; }" % C07.f(1e3, s))
    both("position of the first", "(a: &[$L], z: $L) -> Option<usize>", "a.iter().position(|x| *x > z)")
    both("copied", "(a: &[$L], b: &mut [$L])", "b.copy_from_slice(a)")
    both("filled", "(a: $L, b: &mut [$L])", "b.fill(a)")
    both("dimensionless read out", "(a: $L, b: $L) -> %s" % s, "(a / b).value()", "a / b")
    both("dimensionless by deref", "(a: $L, b: $L) -> %s" % s, "*(a / b)", "a / b")
    both("unchecked", "(a: $L) -> $V", "<$V>::new_unchecked(a.value_unchecked())", "a")
    both("option", "(a: Option<$L>, t: $T) -> Option<$V>", "a.map(|a| a / t)")
    both("array", "(a: [$L; 3], t: $T) -> [$V; 3]", "a.map(|a| a / t)")
    if std:
        both("collected", "(a: &[$L], t: $T) -> Vec<$V>", "a.iter().map(|a| *a / t).collect()")
        both("cloned", "(a: &Vec<$L>) -> Vec<$L>", "a.clone()")
        both("many of one", "(a: $L, n: usize) -> Vec<$L>", "vec![a; n]")
        both("zeros", "(n: usize) -> Vec<$L>", "vec![<$L>::zero(); n]", "vec![0.0; n]")
        both("sorted", "(a: &mut [$L])", "a.sort_by(|a, b| a.partial_cmp(b).unwrap())")


def vector_programs(tw, t, s):
    sh, b, q = P.short(s), P.VECTORS[s][0], (lambda v: t.q(v, s))
    f = lambda v: t.q(v, b)
    tw.add("integration of slices %s" % sh, "(x: &mut [%s], v: &mut [%s], a: &[%s], dt: %s)" % (q(L), q(V), q(A), f(TI)),
           "for ((x, v), a) in x.iter_mut().zip(v.iter_mut()).zip(a.iter()) { *v += *a * dt; *x += *v * dt; }",
           "(x: &mut [%s], v: &mut [%s], a: &[%s], dt: %s)" % (s, s, s, b),
           "for ((x, v), a) in x.iter_mut().zip(v.iter_mut()).zip(a.iter()) { *v += *a * dt; *x += *v * dt; }")
    tw.add("sum %s" % sh, "(a: &[%s]) -> %s" % (q(L), q(L)), "a.iter().copied().sum()", "(a: &[%s]) -> %s" % (s, s), "a.iter().copied().sum()")
    tw.add("nearest %s" % sh, "(a: &[%s], z: %s, m: %s) -> %s" % (q(L), q(L), f(L), f(L)), "a.iter().fold(m, |m, x| m.min(x.distance(&z)))",
           "(a: &[%s], z: %s, m: %s) -> %s" % (s, s, b, b), "a.iter().fold(m, |m, x| m.min(x.distance(z)))")
    tw.add("kinetic energy %s" % sh, "(m: %s, v: %s) -> %s" % (f(M), q(V), f(E)), "m * v.dot(v) * 0.5", "(m: %s, v: %s) -> %s" % (b, s, b), "m * v.dot(v) * 0.5")


def si_units(tw, cfg, every):
    """Every unit of the SI on every storage."""
    units, symbols = T.expand()
    for s in P.storages(cfg):
        names = sorted(units) if s == "f64" or every else sorted(T.UNITS) + ["kilometer", "attosecond", "exajoule"]
        b = P.VECTORS[s][0] if s in P.VECTORS else s
        for n in names:
            dim = [k for k, d in T.DIMENSIONS.items() if d == units[n][0]][0]
            k = C07.f(1.5, b)
            ty = "diman::si::dimensions::%s<%s>" % (dim, s)
            # some factor whose multiplication is not left out: what the factors are is decided by C12
            tw.add("x * %s %s" % (n, P.short(s)), "(a: %s) -> %s" % (s, ty), "a * diman::si::units::%s" % n, "(a: %s) -> %s" % (s, s), "a * %s" % k)
            if s in P.FLOATS:
                tw.add("value_in %s %s" % (n, s), "(a: %s) -> %s" % (ty, s), "a.value_in(diman::si::units::%s)" % n, "(a: %s) -> %s" % (s, s), "a / %s" % k)
                tw.add("%s.new %s" % (n, s), "(a: %s) -> %s" % (s, ty), "diman::si::units::%s.new(a)" % n, "(a: %s) -> %s" % (s, s), "a * %s" % k)


@guarded
def compare(c, rule, tw, strict):
    """`strict`: the bodies of all functions are visible, so whatever is called is called for good."""
    failed, out = tw.crate.must_compile("llvm-ir", opt=True, extra=ROLLED)
    bad = {it.key for it, _ in failed}
    for it, errs in failed:
        c.bad(rule, "%s/%s" % (tw.crate.config, it.key), "[%s] %s: rustc rejects the program (%s): %s" % (
            tw.crate.config, WHERE, errs[0][0], errs[0][1]), it.code + "\n" + errs[0][2])
    if out is None:
        return
    fns, aliases, consts = llvm.parse(open(out).read())
    os.remove(out)
    code = {it.key: it.code for it in tw.crate.items}
    for n, key, alts in tw.pairs:
        if key in bad:
            continue
        get = lambda f: fns[aliases.get(f, f)]
        w = cost.measure(get("w_%d" % n))
        best = None
        for r in ["r_%d" % n] + ["r_%d_%d" % (n, k) for k in range(alts)]:
            r = cost.measure(get(r))
            e = cost.excess(w, r)
            if best is None or len(e) < len(best[0]):
                best = (e, r)
        e, r = best
        if not e:
            c.ok(rule, 1, "%s [%s]: %s" % (key, tw.crate.config, w.show()))
            continue
        left = [x for k, x in e if k == "calls"]
        if not strict and left and not any(public(x) for x in left):
            c.undecide(rule, "[%s] %s: calls %s, which is not part of what users call by name" % (tw.crate.config, key, ", ".join(left)))
            continue
        c.bad(rule, "%s/%s" % (tw.crate.config, key), "[%s] %s: %s does more than the same program on bare numbers: %s\n  quantities: %s\n  numbers:    %s" % (
            tw.crate.config, WHERE, key, "; ".join(("calls " if k == "calls" else "") + x for k, x in e), w.show(), r.show()), code[key])


def public(callee):
    """An operation of the library's interface (rather than a helper of one), or no function of the library at all."""
    return "diman" not in callee or any(w in callee for w in ("into_f64", "into_f32", "from_f64", "is_one", "pow_rational", "core::ops::", "core::iter", "core::cmp", "core::convert",
                                                              "core::clone", "core::default", "_<impl ", " as "))


def fill(tw, t, cfg):
    rational = P.rational(cfg)
    release = cfg in X.RELEASE
    for s in P.storages(cfg):
        operators(tw, t, s)
        for u, k, d in C07.UNITS if s in P.FLOATS else C07.UNITS[1:3]:
            C07.simple(tw, t, s, u, k, d)
        v = D.vec(L=1, T=-1, J=2)
        methods = "std" in X.features(cfg) or "num-traits-libm" in X.features(cfg)
        libm = "num-traits-libm" in X.features(cfg)
        for k in (C04.cases(t, s, v, rational) if s in P.FLOATS and methods and not libm else []) + C04.generic(t, s, v):
            if k[0] == "abs" and not methods:
                continue
            tw.add("method %s %s" % (k[0], P.short(s)), *k[1:])
        if s in P.VECTORS:
            for a, k in C19.cases(t, s, V, A):
                tw.add("vector method %s %s" % (a[0], P.short(s)), *a[1:], **k)
            vector_programs(tw, t, s)
        elif methods and not libm:
            programs(tw, t, s, "std" in X.features(cfg))


def run(c):
    thorough = c.tier == "thorough"
    for cfg in ("default", "all-features"):
        t = P.Types(cfg)
        r = c.rule("whole-%s" % cfg, "a program on quantities, all functions being visible to the optimiser, has no more calls, floating point operations, "
                   "loops or values in memory than the same program on bare numbers [%s]" % cfg, 200)
        tw = RefTwins(cfg, "c27", t, P.uses(cfg))
        fill(tw, t, cfg)
        compare(c, r, tw, True)
    for cfg in X.RELEASE:
        t = P.Types(cfg)
        r = c.rule("release-%s" % cfg[2:], "the same for a program built against this tree by cargo build --release: no operation on quantities is left as a "
                   "call, and nothing is computed that numbers do without [%s]" % cfg, 100)
        tw = RefTwins(cfg, "c27", t, P.uses(cfg))
        fill(tw, t, cfg)
        compare(c, r, tw, False)
    for cfg in X.RELEASE:
        r = c.rule("si-%s" % cfg[2:], "making a quantity from, or converting it into, a unit of the SI is at most one multiplication or division in a "
                   "program built by cargo build --release [%s]" % cfg, 100)
        tw = RefTwins(cfg, "c27-si", None, P.uses(cfg))
        si_units(tw, cfg, thorough or cfg == "x-release")
        compare(c, r, tw, False)
