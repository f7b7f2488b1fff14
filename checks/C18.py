"""Random quantities."""
import dims as D
import prog as P
from core import accepted, rejected, twins
from C03 import RefTwins
import mirrules

TITLE = "random quantities are drawn from exactly the given range of one dimension"
WHERE = "uniform sampler (crates/diman_unit_system/src/codegen/rand.rs)"
HEAD = """use rand::distributions::uniform::*;
use rand::distributions::*;
use rand::*;
// a generator whose state and output the optimiser knows nothing about
pub struct G(pub u64);
extern "C" { fn entropy(s: &mut u64) -> u64; }
impl RngCore for G {
    fn next_u32(&mut self) -> u32 { unsafe { entropy(&mut self.0) as u32 } }
    fn next_u64(&mut self) -> u64 { unsafe { entropy(&mut self.0) } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = unsafe { entropy(&mut self.0) as u8 } } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
"""


def run(c):
    for cfg in ("all-features", "no-rational"):
        rational = P.rational(cfg)
        t = P.Types(cfg)
        r = c.rule("twins-%s" % cfg, "building a sampler for a range and sampling it optimises to the same code, calls of the generator included, as for "
                   "the same range of bare numbers [%s]" % cfg, 40)
        tw = RefTwins(cfg, "c18", t, P.uses(cfg), HEAD)
        vs = [D.vec(L=1), D.ZERO, D.MIXED[7], D.vec(K=-8, I=12)] + (D.RATIONAL[:1] + D.RATIONAL[4:] if rational else [])
        for s in P.FLOATS:
            for v in vs:
                q, key = t.q(v, s), "%s %s" % (s, D.show(v))
                two = "(g: &mut G, a: %s, b: %s) -> %s"
                qq, ss = two % (q, q, q), two % (s, s, s)
                add = lambda k, *a, **kw: tw.add("%s %s" % (k, key), *a, **kw)
                # numbers have a shortcut for a single sample, which rounds differently than the sampler does
                # (gen_range of rand is sample_single of the sampler, after checking that the range is not empty)
                one, inc = ["Uniform::new(a, b).sample(g)"], ["Uniform::new_inclusive(a, b).sample(g)"]
                add("Uniform::new", qq, "Uniform::new(a, b).sample(g)", ss, "Uniform::new(a, b).sample(g)")
                add("Uniform::new_inclusive", qq, "Uniform::new_inclusive(a, b).sample(g)", ss, "Uniform::new_inclusive(a, b).sample(g)")
                add("by reference", qq, "Uniform::new(&a, &b).sample(g)", ss, "Uniform::new(a, b).sample(g)")
                add("by reference inclusive", qq, "Uniform::new_inclusive(&a, &b).sample(g)", ss, "Uniform::new_inclusive(a, b).sample(g)")
                smp, us = "<%s as SampleUniform>::Sampler" % q, "UniformFloat<%s>" % s
                add("sample_single", qq, "<%s>::sample_single(a, b, g)" % smp, ss, "<%s>::sample_single(a, b, g)" % us, alts=one)
                add("sample_single_inclusive", qq, "<%s>::sample_single_inclusive(a, b, g)" % smp, ss, "<%s>::sample_single_inclusive(a, b, g)" % us, alts=inc)
                add("sample twice", qq, "{ let u = Uniform::new(a, b); u.sample(g); u.sample(g) }", ss, "{ let u = Uniform::new(a, b); u.sample(g); u.sample(g) }")
                add("sampler as it is", "(a: %s, b: %s) -> %s" % (q, q, smp), "<%s>::new(a, b)" % smp, "(a: %s, b: %s) -> %s" % (s, s, us), "<%s>::new(a, b)" % us)
                add("inclusive sampler as it is", "(a: %s, b: %s) -> %s" % (q, q, smp), "<%s>::new_inclusive(a, b)" % smp,
                    "(a: %s, b: %s) -> %s" % (s, s, us), "<%s>::new_inclusive(a, b)" % us)
        twins(c, r, tw, WHERE)

        rn = c.rule("reject-%s" % cfg, "ranges with bounds of different dimensions or storage, with bare numbers, and samples of another dimension do not "
                    "compile [%s]" % cfg, 100)
        ra = c.rule("accept-%s" % cfg, "the same witnesses with one dimension compile [%s]" % cfg, 10)
        cr, ca = P.LazyCrate(cfg, "c18-neg", t, P.uses(cfg), HEAD), P.LazyCrate(cfg, "c18-pos", t, P.uses(cfg), HEAD)
        step = D.Fr(1, 2) if rational else D.Fr(1)
        n = 0
        base = D.vec(L=1, T=-1)
        for s in P.FLOATS:
            q = t.q(base, s)
            alts = [(D.SHORT[i], t.q(base[:i] + (base[i] + step,) + base[i + 1:], s)) for i in range(7)] + [("same", q), ("bare", s), (
                "storage", t.q(base, {"f32": "f64", "f64": "f32"}[s]))]
            for k, o in alts:
                for m, body in {"high": "g.gen_range(a..b);", "low": "g.gen_range(b..a);", "inclusive": "g.gen_range(a..=b);", "result": "let _: %s = g.gen_range(a..a);" % o,
                                "uniform": "Uniform::new(a, b);", "uniform low": "Uniform::new_inclusive(b, a);", "uniform result": "let _: %s = Uniform::new(a, a).sample(g);" % o,
                                "uniform references": "Uniform::new(&a, &b);",
                                "sampler": "<<%s as SampleUniform>::Sampler>::new(b, b);" % q}.items():
                    n += 1
                    (ca if k == "same" else cr).add("%s %s %s" % (m, k, s), "pub fn f%d(g: &mut G, a: %s, b: %s) { %s }" % (n, q, o, body))
        rejected(c, rn, cr, WHERE, ("E0308", "E0277", "E0271"))
        accepted(c, ra, ca, WHERE)
