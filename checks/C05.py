"""The bare number behind a quantity."""
import re
import dims as D
import extract as X
import prog as P
import witness as W
import mirrules as M
from core import accepted, rejected
from C03 import RefTwins
from core import twins

TITLE = "bare numbers leave and enter dimensional quantities only through units or *_unchecked"
WHERE = "quantity type (crates/diman_unit_system/src/codegen/quantity_type.rs)"
PRELUDE = """use diman::si::{self, Quantity, Dimension, dimensions::*};
use core::ops::*; use core::borrow::*; use core::convert::*; use core::iter::*; use core::cmp::*; use core::str::FromStr;
"""
DIMS = ["Length", "Time", "Mass", "Temperature", "Current", "AmountOfSubstance", "LuminousIntensity", "Velocity", "Frequency",
        "Energy", "Pressure", "Voltage"]
OUT = {
    "field read": "let _: S = q.0;", "field borrow": "let _: &S = &q.0;", "field write": "let mut q = q; q.0 = v;",
    "pattern": "let Quantity(x) = q;", "tuple constructor": "let _: Q = Quantity(v);",
    "value": "let _ = q.value();", "value_ref": "let _ = q.value_ref();", "deref": "let _: S = *q;",
    "deref coercion": "let _: &S = &q;", "Deref::deref": "let _: &S = Deref::deref(&q);",
    "deref assignment": "let mut q = q; *q = v;", "DerefMut": "let mut q = q; let _: &mut S = DerefMut::deref_mut(&mut q);",
    "into": "let _: S = q.into();", "from": "let _ = <S>::from(q);", "try_into": "let _: S = q.try_into().unwrap();",
    "into quantity": "let _: Q = v.into();", "quantity from": "let _ = <Q>::from(v);", "coercion": "let _: S = q;",
    "coercion in": "let _: Q = v;", "as_ref": "let _: &S = q.as_ref();", "borrow": "let _: &S = q.borrow();",
    "as_mut": "let mut q = q; let _: &mut S = q.as_mut();",
    "argument": "fn f(_: S) {} f(q);", "reference argument": "fn f(_: &S) {} f(&q);",
    "return": "fn f(q: Q) -> S { q } f(q);",
    "sum of numbers": "let _: Q = [v, v].into_iter().sum();", "sum to number": "let _: S = [q, q].into_iter().sum();",
    "product": "let _: Q = [q, q].into_iter().product();", "extend": "let mut x: Vec<S> = vec![]; x.extend([q]);",
    "FnOnce": "let _: S = q();", "index": "let _ = q[0];", "not": "let _ = !q;",
}
FLOAT_OUT = {"cast": "let _ = q as S;", "cast int": "let _ = q as i64;", "literal": "let _: Q = 1.0;", "parse": "let _: Q = \"1.0\".parse().unwrap();",
             "to_bits": "let _ = q.to_bits();", "sin": "let _ = q.sin();", "exp": "let _ = q.exp();", "total_cmp": "let _ = q.total_cmp(&q);",
             "is_finite by deref": "let _: bool = f64::is_finite(*q as f64);"}
CODES = ("E0616", "E0423", "E0532", "E0599", "E0614", "E0308", "E0277", "E0605", "E0606", "E0271", "E0618", "E0608", "E0600", "E0604",
         "E0603", "E0451", "E0594", "E0283", "E0026", "E0433", "E0609", "E0610")
# what a user may do on purpose
OPEN = {"value_unchecked", "value_unchecked_ref", "value_in", "new_unchecked"}
NEUTRAL = {"fmt", "partial_cmp", "cmp", "serialize", "hash", "default", "zero", "new", "sample", "deserialize"}


def outside(cfg, name):
    return W.Crate(cfg, name, PRELUDE, P.uses(cfg))


def run(c):
    for cfg in ("default", "all-features"):
        r = c.rule("closed-%s" % cfg, "an expression that would read, replace or create the number of a quantity that is not "
                   "dimensionless without a unit does not type-check outside the module of the unit system [%s]" % cfg, 300)
        cr = outside(cfg, "c05-neg")
        n = 0
        for s in P.storages(cfg):
            for d in (DIMS if s in P.FLOATS else DIMS[:1] + DIMS[6:8]):
                for k, body in list(OUT.items()) + (list(FLOAT_OUT.items()) if s in P.FLOATS else []):
                    n += 1
                    body = re.sub(r"\bS\b", s, re.sub(r"\bQ\b", "%s<%s>" % (d, s), body))
                    cr.add("%s %s %s" % (k, d, P.short(s)), "pub fn f%d(q: %s<%s>, v: %s) { %s }" % (n, d, s, s, body))
        rejected(c, r, cr, WHERE, CODES)

        r = c.rule("dimensionless-%s" % cfg, "a dimensionless quantity gives its number, unchanged, by value, by reference and by "
                   "dereferencing, and takes one, and the unchecked functions pass the number unchanged for any dimension [%s]" % cfg, 20)
        t = P.Types(cfg)
        tw = RefTwins(cfg, "c05", t, P.uses(cfg))
        vs = [D.vec(L=1), D.MIXED[7], D.ZERO] + (D.RATIONAL[4:5] if P.rational(cfg) else [])
        for s in P.storages(cfg):
            q, sh = t.q(D.ZERO, s), P.short(s)
            tw.add("value " + sh, "(a: %s) -> %s" % (q, s), "a.value()", "(a: %s) -> %s" % (s, s), "a")
            tw.add("value_ref " + sh, "(a: &%s) -> &%s" % (q, s), "a.value_ref()", "(a: &%s) -> &%s" % (s, s), "a")
            tw.add("deref " + sh, "(a: &%s) -> %s" % (q, s), "**a", "(a: &%s) -> %s" % (s, s), "*a")
            tw.add("deref ref " + sh, "(a: &%s) -> &%s" % (q, s), "&**a", "(a: &%s) -> &%s" % (s, s), "a")
            tw.add("from " + sh, "(a: %s) -> %s" % (s, q), "a.into()", "(a: %s) -> %s" % (s, s), "a")
            for v in vs:
                q = t.q(v, s)
                tw.add("value_unchecked %s %s" % (sh, D.show(v)), "(a: %s) -> %s" % (q, s), "a.value_unchecked()",
                       "(a: %s) -> %s" % (s, s), "a")
                tw.add("value_unchecked_ref %s %s" % (sh, D.show(v)), "(a: &%s) -> &%s" % (q, s), "a.value_unchecked_ref()",
                       "(a: &%s) -> &%s" % (s, s), "a")
                tw.add("new_unchecked %s %s" % (sh, D.show(v)), "(a: %s) -> %s" % (s, q), "<%s>::new_unchecked(a)" % q,
                       "(a: %s) -> %s" % (s, s), "a")
        twins(c, r, tw, WHERE)

        # closed world: every function of the compiled system, by its signature
        r = c.rule("functions-%s" % cfg, "no function reachable from outside turns a quantity of arbitrary dimension into its bare "
                   "number, or a bare number into a quantity of arbitrary dimension, except value_unchecked, value_unchecked_ref, "
                   "value_in and new_unchecked [%s]" % cfg, 150)
        rat = P.rational(cfg)
        probes = {}
        for it in M.items(X.mir("diman", cfg)):
            if it.kind != "fn" or "{" in it.short or "Quantity<" not in it.header:
                continue
            args, ret = M.signature(it)
            qd = [M.quantity_dim(a) for a in args]
            rd = M.quantity_dim(ret)
            anyq = [d for d in qd if d and not M.is_zero(d, rat)]
            leak = anyq and "Quantity<" not in ret and ret not in ("()", "bool") and it.short not in OPEN | NEUTRAL
            # a number without a unit, and no other quantity or unit naming the dimension
            make = (rd and not M.is_zero(rd, rat) and it.short not in OPEN | NEUTRAL | {"sum", "Quantity"} and args
                    and not any(re.search(r"\bD[LR]?/#\d|UnevaluatedConst|Quantity<", a) for a in args))
            if not leak and not make:
                c.ok(r, 1, "fn %s(%s) -> %s" % (it.short, ", ".join(args)[:120], ret[:60]))
                continue
            probes.setdefault(it.short, []).append((it, "leak" if leak else "make", args, ret))
        cr = outside(cfg, "c05-probe")
        for name in probes:
            for s in ("f64", "f32"):
                cr.add("%s method %s" % (name, s), "pub fn p_%s_%s() { let _ = Length::<%s>::%s; }" % (name, s, s, name))
                cr.add("%s on number %s" % (name, s), "pub fn p2_%s_%s(q: Length<%s>) { let _ = <%s>::%s(q); }" % (name, s, s, s, name))
        if cr.items:
            cr.compile()
        for name, its in probes.items():
            open_ = [i for i in cr.items if i.key.split(" ")[0] == name and not i.errors]
            for it, kind, args, ret in its:
                if open_:
                    c.bad(r, "%s(%s)" % (name, re.sub(r"DefId\([^)]*\)", "DefId", ", ".join(args))[:150]),
                          "[%s] %s: fn %s(%s) -> %s %s" % (cfg, M.loc(it), name, ", ".join(args)[:200], ret[:100], {
                              "leak": "gives the bare number of a quantity of any dimension",
                              "make": "makes a quantity of any dimension from a bare number"}[kind]), it.header)
                else:
                    c.ok(r, 1, "private fn %s" % name)


