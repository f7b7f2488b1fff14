"""Copying, cloning, defaults, equality and ordering."""
import dims as D
import prog as P
from core import accepted, rejected, twins
from C03 import RefTwins
import mirrules

TITLE = "copying, cloning, defaults, equality and ordering follow the stored number"
WHERE = "trait implementations (codegen/quantity_type.rs, num_traits)"
OWN = """
// a storage type of which nothing is as usual
pub struct Own(pub u32);
impl Clone for Own { fn clone(&self) -> Self { Own(self.0.wrapping_mul(3)) } }
impl Default for Own { fn default() -> Self { Own(7) } }
#[derive(Clone, Copy)] pub struct OwnEq(pub f64);
impl PartialEq for OwnEq { fn eq(&self, o: &OwnEq) -> bool { self.0.abs() == o.0.abs() } }
impl PartialOrd for OwnEq { fn partial_cmp(&self, o: &OwnEq) -> Option<core::cmp::Ordering> { o.0.abs().partial_cmp(&self.0.abs()) } }
pub struct Bare(pub u32); // without any trait
#[derive(Clone)] pub struct OnlyClone(pub u32);
#[derive(PartialEq)] pub struct OnlyEq(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Default)] pub struct Full(pub u32);
fn is_copy<T: Copy>() {} fn is_clone<T: Clone>() {} fn is_default<T: Default>() {} fn is_eq<T: Eq>() {} fn is_partial_eq<T: PartialEq>() {}
fn is_partial_ord<T: PartialOrd>() {} fn is_ord<T: Ord>() {} fn is_hash<T: core::hash::Hash>() {} fn is_send<T: Send>() {} fn is_sync<T: Sync>() {}
"""


def run(c):
    for cfg in ("default", "all-features"):
        rational = P.rational(cfg)
        t = P.Types(cfg)
        r = c.rule("twins-%s" % cfg, "comparing, copying, cloning and defaulting quantities optimises to the same code as doing it with the stored "
                   "values, operand by operand [%s]" % cfg, 100)
        tw = RefTwins(cfg, "c23", t, P.uses(cfg), OWN)
        vs = [D.vec(L=1), D.ZERO, D.MIXED[7]] + (D.RATIONAL[:1] if rational else [])
        own = ["Own", "OwnEq"]
        for s in P.storages(cfg) + own:
            sh = P.short(s)
            ordered = s not in P.VECTORS
            for v in vs:
                q = t.q(v, s)
                add = lambda k, *a, **kw: tw.add("%s %s %s" % (k, sh, D.show(v)), *a, **kw)
                ops = ([] if s == "Own" else ["==", "!="]) + (["<", "<=", ">", ">="] if ordered and s != "Own" else [])
                for op in ops:
                    for rl in ("", "&"):
                        for rr in ("", "&"):
                            x, y = (rl and "*") + "a", (rr and "*") + "b"
                            # the same for every type that keeps to the rules of comparing
                            same = {"!=": "!(%s == %s)" % (x, y), "<=": "{0} < {1} || {0} == {1}".format(x, y), ">=": "{0} > {1} || {0} == {1}".format(x, y)}
                            add("%sq %s %sq" % (rl, op, rr), "(a: %s%s, b: %s%s) -> bool" % (rl, q, rr, q), "a %s b" % op,
                                "(a: %s%s, b: %s%s) -> bool" % (rl, s, rr, s), "%s %s %s" % (x, op, y), alts=[same[op]] if op in same else ())
                if ordered and s != "Own":
                    add("partial_cmp", "(a: &%s, b: &%s) -> Option<core::cmp::Ordering>" % (q, q), "a.partial_cmp(b)",
                        "(a: &%s, b: &%s) -> Option<core::cmp::Ordering>" % (s, s), "a.partial_cmp(b)")
                if s != "Own":
                    add("copy", "(a: &%s) -> %s" % (q, q), "*a", "(a: &%s) -> %s" % (s, s), "*a")
                add("clone", "(a: &%s) -> %s" % (q, q), "a.clone()", "(a: &%s) -> %s" % (s, s), "a.clone()")
                add("clone_from", "(a: &mut %s, b: &%s)" % (q, q), "a.clone_from(b)", "(a: &mut %s, b: &%s)" % (s, s), "a.clone_from(b)")
                if s != "OwnEq":
                    add("default", "() -> %s" % q, "Default::default()", "() -> %s" % s, "Default::default()")
                if ordered and s != "Own":
                    add("largest", "(a: %s, b: %s) -> %s" % (q, q, q), "if a > b { a } else { b }", "(a: %s, b: %s) -> %s" % (s, s, s), "if a > b { a } else { b }")
                if s != "Own":
                    add("equal pairs", "(a: &[%s; 2], b: &[%s; 2]) -> bool" % (q, q), "a == b", "(a: &[%s; 2], b: &[%s; 2]) -> bool" % (s, s), "a == b")
            if s in own:
                continue
            z = t.q(D.ZERO, s)
            for op in ops:
                tw.add("dimensionless %s bare %s" % (op, sh), "(a: %s, b: %s) -> bool" % (z, s), "a %s b" % op, "(a: %s, b: %s) -> bool" % (s, s), "a %s b" % op)
                tw.add("bare %s dimensionless %s" % (op, sh), "(a: %s, b: %s) -> bool" % (s, z), "a %s b" % op, "(a: %s, b: %s) -> bool" % (s, s), "a %s b" % op)
        twins(c, r, tw, WHERE)

        # a trait is there exactly if the storage type has it
        rn = c.rule("lacks-%s" % cfg, "a quantity lacks a trait that its storage type lacks, and total equality, ordering or hashing if the storage is a "
                    "floating point number [%s]" % cfg, 50)
        rp = c.rule("has-%s" % cfg, "a quantity has the traits of its storage type [%s]" % cfg, 50)
        cr, ca = P.LazyCrate(cfg, "c23-neg", t, P.uses(cfg), OWN), P.LazyCrate(cfg, "c23-pos", t, P.uses(cfg), OWN)
        has = {"Bare": [], "Own": ["clone", "default"], "OwnEq": ["copy", "clone", "partial_eq", "partial_ord"], "OnlyClone": ["clone"], "OnlyEq": ["partial_eq"],
               "Full": ["copy", "clone", "default", "eq", "partial_eq"], "i32": ["copy", "clone", "default", "eq", "partial_eq", "partial_ord"],
               "String": ["clone", "default", "eq", "partial_eq", "partial_ord"]}
        for s in P.storages(cfg):
            has[s] = ["copy", "clone", "default", "partial_eq"] + (["partial_ord"] if s in P.FLOATS else [])
        n = 0
        for s, ts in has.items():
            for v in vs[:1] + vs[2:]:
                for tr in ("copy", "clone", "default", "eq", "partial_eq", "partial_ord", "ord", "hash"):
                    if tr in ("ord", "hash") and s in ("i32", "String"):
                        continue  # not offered today; nothing against offering it
                    if tr in ("partial_eq", "partial_ord") and s in ("OnlyEq", "String"):
                        continue  # comparing also requires copying today
                    n += 1
                    crate = ca if tr in ts else cr
                    crate.add("%s %s %s" % (tr, P.short(s), D.show(v)), "pub fn f%d() { is_%s::<%s>(); }" % (n, tr, t.q(v, s)))
                for tr in ("send", "sync"):
                    n += 1
                    ca.add("%s %s %s" % (tr, P.short(s), D.show(v)), "pub fn f%d() { is_%s::<%s>(); }" % (n, tr, t.q(v, s)))
                for tr in ("send", "sync") if s == "Bare" else ():
                    n += 1
                    cr.add("%s of pointer %s" % (tr, D.show(v)), "pub fn f%d() { is_%s::<%s>(); }" % (n, tr, t.q(v, "*const u8")))
        rejected(c, rn, cr, WHERE, ("E0277",))
        accepted(c, rp, ca, WHERE)
        mirrules.parametric(c, cfg)
