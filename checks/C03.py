"""Operators on quantities compute exactly the operation on the stored numbers."""
import dims as D
import prog as P
from core import twins
import mirrules

TITLE = "operators on quantities compute the operator on the stored numbers"
WHERE = "operator implementations (crates/diman_unit_system/src/codegen/num_traits)"


# an iterator of which the compiler knows nothing: how many items there are, and which
SOURCE = """
extern "C" { fn next_item(source: *mut u8, item: *mut u8) -> bool; }
pub struct Source<T>(*mut u8, core::marker::PhantomData<T>);
impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let mut item = core::mem::MaybeUninit::<T>::uninit();
        if unsafe { next_item(self.0, item.as_mut_ptr() as *mut u8) } { Some(unsafe { item.assume_init() }) } else { None }
    }
}
"""


class RefTwins(P.LazyTwins):
    """References share one lifetime, as in the implementations."""

    def add(self, key, wsig, wbody, rsig, rbody, alts=()):
        life = lambda sig: "<'a>" + sig.replace("&", "&'a ") if "&" in sig else sig
        super().add(key, life(wsig), wbody, life(rsig), rbody, alts)


def run(c):
    for cfg in ("default", "all-features"):
        t = P.Types(cfg)
        r = c.rule("ops-%s" % cfg, "an operator on quantities optimises to the same machine-independent code as the same operator "
                   "with the operands in the same order on bare numbers [%s]" % cfg, 90)
        tw = RefTwins(cfg, "c03", t, P.uses(cfg))
        a, b = D.vec(L=1, T=-1, J=2), D.vec(L=-2, T=1, M=3)
        out = {"+": a, "-": a, "*": D.add(a, b), "/": D.sub(a, b)}
        for s in P.storages(cfg):
            sh = P.short(s)
            q = lambda v: t.q(v, s)
            for op in "+-*/":
                rhs = b if op in "*/" else a
                for rl in ("", "&"):
                    for rr in ("", "&"):
                        tw.add("%sq %s %sq %s" % (rl, op, rr, sh), "(a: %s%s, b: %s%s) -> %s" % (rl, q(a), rr, q(rhs), q(out[op])),
                               "a %s b" % op, "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, s, s),
                               "%sa %s %sb" % (rl and "*", op, rr and "*"))
                        if op in "+-":
                            tw.add("%sdimensionless %s %sbare %s" % (rl, op, rr, sh),
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, q(D.ZERO), rr, s, q(D.ZERO)), "a %s b" % op,
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, s, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                            tw.add("%sbare %s %sdimensionless %s" % (rl, op, rr, sh),
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, q(D.ZERO), q(D.ZERO)), "a %s b" % op,
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, s, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                        else:
                            tw.add("%sq %s %sbare %s" % (rl, op, rr, sh),
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, q(a), rr, s, q(a)), "a %s b" % op,
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, s, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                            tw.add("%sbare %s %sq %s" % (rl, op, rr, sh),
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, q(a), q(a if op == "*" else D.neg(a))), "a %s b" % op,
                                   "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, s, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                            if s in P.VECTORS:
                                f = P.VECTORS[s][0]
                                tw.add("%svec q %s %sscalar bare %s" % (rl, op, rr, sh),
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, q(a), rr, f, q(a)), "a %s b" % op,
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, f, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                                tw.add("%svec q %s %sscalar q %s" % (rl, op, rr, sh),
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, q(a), rr, t.q(b, f), q(out[op])), "a %s b" % op,
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, f, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                                tw.add("%sscalar q %s %svec q %s" % (rl, op, rr, sh),
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, t.q(a, f), rr, q(b), q(out[op])), "a %s b" % op,
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, f, rr, s, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                                tw.add("%svec bare %s %sscalar q %s" % (rl, op, rr, sh),
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, t.q(b, f), q(b if op == "*" else D.neg(b))),
                                       "a %s b" % op,
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, s, rr, f, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                                tw.add("%sscalar bare %s %svec q %s" % (rl, op, rr, sh),
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, f, rr, q(b), q(b if op == "*" else D.neg(b))), "a %s b" % op,
                                       "(a: %s%s, b: %s%s) -> %s" % (rl, f, rr, s, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                # assignment operators, also through a reference on the left
                dim = a if op in "+-" else D.ZERO
                for rr in ("", "&"):
                    star = rr and "*"
                    tw.add("q %s= %sq %s" % (op, rr, sh), "(a: &mut %s, b: %s%s)" % (q(a), rr, q(dim)), "*a %s= b" % op,
                           "(a: &mut %s, b: %s%s)" % (s, rr, s), "*a %s= %sb" % (op, star))
                    tw.add("&mut q %s= %sq %s" % (op, rr, sh), "(mut a: &mut %s, b: %s%s)" % (q(a), rr, q(dim)), "a %s= b" % op,
                           "(mut a: &mut %s, b: %s%s)" % (s, rr, s), "*a %s= %sb" % (op, star))
                    tw.add("bare %s= %sdimensionless %s" % (op, rr, sh), "(a: &mut %s, b: %s%s)" % (s, rr, q(D.ZERO)), "*a %s= b" % op,
                           "(a: &mut %s, b: %s%s)" % (s, rr, s), "*a %s= %sb" % (op, star))
                    if op in "+-":
                        tw.add("dimensionless %s= %sbare %s" % (op, rr, sh), "(a: &mut %s, b: %s%s)" % (q(D.ZERO), rr, s),
                               "*a %s= b" % op, "(a: &mut %s, b: %s%s)" % (s, rr, s), "*a %s= %sb" % (op, star))
                        tw.add("&mut dimensionless %s= %sbare %s" % (op, rr, sh), "(mut a: &mut %s, b: %s%s)" % (q(D.ZERO), rr, s),
                               "a %s= b" % op, "(mut a: &mut %s, b: %s%s)" % (s, rr, s), "*a %s= %sb" % (op, star))
                    else:
                        tw.add("q %s= %sbare %s" % (op, rr, sh), "(a: &mut %s, b: %s%s)" % (q(a), rr, s), "*a %s= b" % op,
                               "(a: &mut %s, b: %s%s)" % (s, rr, s), "*a %s= %sb" % (op, star))
                        if s in P.VECTORS:
                            f = P.VECTORS[s][0]
                            tw.add("vec q %s= %sscalar dimensionless %s" % (op, rr, sh), "(a: &mut %s, b: %s%s)" % (
                                q(a), rr, t.q(D.ZERO, f)), "*a %s= b" % op, "(a: &mut %s, b: %s%s)" % (s, rr, f), "*a %s= %sb" % (op, star))
            tw.add("neg %s" % sh, "(a: %s) -> %s" % (q(a), q(a)), "-a", "(a: %s) -> %s" % (s, s), "-a")
            for op in ("==", "!=") + (("<", "<=", ">", ">=") if s in P.FLOATS else ()):
                for rl in ("", "&"):
                    for rr in ("", "&"):
                        tw.add("%sq %s %sq %s" % (rl, op, rr, sh), "(a: %s%s, b: %s%s) -> bool" % (rl, q(a), rr, q(a)), "a %s b" % op,
                               "(a: %s%s, b: %s%s) -> bool" % (rl, s, rr, s), "%sa %s %sb" % (rl and "*", op, rr and "*"))
                tw.add("dimensionless %s bare %s" % (op, sh), "(a: %s, b: %s) -> bool" % (q(D.ZERO), s), "a %s b" % op,
                       "(a: %s, b: %s) -> bool" % (s, s), "a %s b" % op)
                tw.add("bare %s dimensionless %s" % (op, sh), "(a: %s, b: %s) -> bool" % (s, q(D.ZERO)), "a %s b" % op,
                       "(a: %s, b: %s) -> bool" % (s, s), "a %s b" % op)
            if s in P.FLOATS:
                tw.add("partial_cmp %s" % sh, "(a: &%s, b: &%s) -> Option<core::cmp::Ordering>" % (q(a), q(a)), "a.partial_cmp(b)",
                       "(a: &%s, b: &%s) -> Option<core::cmp::Ordering>" % (s, s), "a.partial_cmp(b)")
        twins(c, r, tw, WHERE)

        r = c.rule("sums-%s" % cfg, "the sum over an iterator of which nothing is known optimises to the same code as the loop that adds every "
                   "item to zero, in their order [%s]" % cfg, 8)
        tw = RefTwins(cfg, "c03-sum", t, P.uses(cfg), SOURCE)
        for s in P.storages(cfg):
            zeros = ["0.0", "-0.0"] if s in P.FLOATS else ["<%s>::ZERO" % s, "<%s>::splat(-0.0)" % s]
            loops = [b % z for z in zeros for b in ("let mut t = %s; for x in a { t += x; } t", "a.fold(%s, |t, x| t + x)",
                                                    "a.fold(%s, |mut t, x| { t += x; t })", "let mut t = %s; a.for_each(|x| t += x); t",
                                                    "let mut t = %s; let mut a = a; while let Some(x) = a.next() { t += x; } t")]
            for v in (a, D.ZERO, D.vec(K=-1)):
                q = t.q(v, s)
                tw.add("sum %s %s" % (P.short(s), D.show(v)), "(a: Source<%s>) -> %s" % (q, q), "a.sum()", "(a: Source<%s>) -> %s" % (s, s),
                       loops[0], loops[1:])
                for n in range(4):
                    terms = ["a[%d]" % k for k in range(n)]
                    tw.add("sum of %d %s %s" % (n, P.short(s), D.show(v)), "(a: [%s; %d]) -> %s" % (q, n, q), "a.into_iter().sum()",
                           "(a: [%s; %d]) -> %s" % (s, n, s), " + ".join(zeros[:1] + terms), [" + ".join(zeros[1:] + terms)])
        twins(c, r, tw, WHERE)
        mirrules.parametric(c, cfg)
