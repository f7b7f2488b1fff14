"""Dimension annotations of units and constants."""
from fractions import Fraction as Fr
import prog as P
import systems as S
import witness as W
from core import accepted, rejected

TITLE = "a dimension annotation is accepted exactly if it is the definition's dimension"
WHERE = "dimension annotations (crates/diman_unit_system/src/resolve/ident_storage.rs, dimension_math.rs)"

HEAD = """use diman;
pub mod sys { diman::unit_system!(
quantity_type Quantity; dimension_type Dimension;
dimension Length; dimension Time; dimension Mass; dimension AmountOfSubstance;
#[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second;
#[base(Mass)] #[symbol(kg)] unit kilogram; #[base(AmountOfSubstance)] #[symbol(mol)] unit mole;
constant TEN = 10; unit foot = 0.25 meter;
"""
SHORT = ["Length", "Time", "Mass", "AmountOfSubstance"]
UNIT = dict(zip(SHORT, ["meter", "second", "kilogram", "mole"]))
VECTORS = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (-1, 0, 0, 0), (0, -1, 0, 0), (0, 0, 0, -1), (2, 0, 0, 0),
           (1, 1, 0, 0), (1, -1, 0, 0), (-1, 1, 0, 0), (1, -2, 1, 0), (2, -2, 1, 0), (2, -2, 1, -1), (2, -2, 1, 1), (0, 0, 0, 3), (1, 2, 3, 4),
           (1, 2, 3, -4), (0, 2, 3, 4), (1, 2, 0, 4)]
RATIONAL = [("1/2", 0, 0, 0), ("-1/2", 0, 0, 0), ("3/2", 0, 0, 0), ("1/2", "1/3", 0, 0), ("1/2", "-1/3", 0, 0), ("1/3", 0, 0, 0)]


def spell(v, names, how):
    """Definition expressions of one value: products, quotients, with cancelling factors."""
    def pw(n, k):
        k = Fr(k)
        return n if k == 1 else "%s^%s" % (n, k if k.denominator == 1 else "(%s)" % k)
    fs = [(n, Fr(k)) for n, k in zip(names, v) if Fr(k)]
    if how == 1:
        fs = fs[::-1]
    if how == 2:  # every base unit occurs, some with exponent zero
        return " * ".join(pw(n, Fr(k)) if Fr(k) else pw(n, 0) for n, k in zip(names, v))
    if how == 3:  # factors that cancel
        return " * ".join("%s / %s^%s" % (pw(n, Fr(k) + 1) if Fr(k) + 1 else pw(n, 0), n, 1) for n, k in zip(names, v))
    num = [pw(n, k) for n, k in fs if k > 0] or ["1"]
    den = [pw(n, -k) for n, k in fs if k < 0]
    return " * ".join(num) + (" / (%s)" % " * ".join(den) if den else "")


def run(c):
    for cfg in ("default", "all-features"):
        rat = P.rational(cfg)
        vs = VECTORS + (RATIONAL if rat else [])
        head = HEAD + "".join("dimension V%d = %s;\n" % (i, spell(v, SHORT, 0)) for i, v in enumerate(vs))
        units = [UNIT[n] for n in SHORT]
        r = c.rule("violated-%s" % cfg, "a unit or constant annotated with another dimension than its definition has is rejected, for "
                   "every ordered pair of different dimensions and every spelling of the definition [%s]" % cfg, 700)
        ra = c.rule("satisfied-%s" % cfg, "one annotated with its own dimension is accepted, however the definition is spelled [%s]" % cfg, 100)
        bad, good = W.Crate(cfg, "c09-bad", head, P.uses(cfg)), W.Crate(cfg, "c09-good", head, P.uses(cfg))
        bad.tail = good.tail = "); }"
        n = 0
        for i, v in enumerate(vs):
            for how in range(4):
                e = spell(v, units, how)
                for j, w in enumerate(vs):
                    if i != j and how and (i + j + how) % 3:
                        continue
                    n += 1
                    (good if i == j else bad).add("unit %s: %s (%d)" % (v, w, how), "unit u%d: V%d = %s;" % (n, j, e))
                    if (i + j + how) % 2 or i == j:
                        n += 1
                        (good if i == j else bad).add("constant %s: %s (%d)" % (v, w, how), "constant C%d: V%d = 3 * %s;" % (n, j, e))
        for k, e in enumerate(("foot", "2 foot", "TEN * foot", "meter", "foot^2 / meter", "u1 * foot" if False else "foot TEN")):
            good.add("through %s" % e, "unit w%d: Length = %s;" % (k, e))
            for d in ("Time", "Mass", "V0", "V2", "V5", "V8"):
                n += 1
                bad.add("through %s: %s" % (e, d), "unit w%d: %s = %s;" % (n, d, e))
        for k, a in enumerate(("#[alias(al%d)]", "#[metric_prefixes]", "#[prefix(kilo, milli)] #[alias(bl%d)]", "#[symbol(sy%d)] #[prefix(mega)]")):
            n += 1
            a = a % n if "%d" in a else a
            good.add("with %s" % a, "%s unit at%d: V10 = meter / second;" % (a, n))
            n += 1
            a = a.replace(str(n - 1), str(n))
            bad.add("with %s" % a, "%s unit at%d: V11 = meter / second;" % (a, n))
        rejected(c, r, bad, WHERE)
        accepted(c, ra, good, WHERE)

        r = c.rule("wrong-%s" % cfg, "an annotation that names no dimension is rejected [%s]" % cfg, 8)
        bad = W.Crate(cfg, "c09-wrong", head, P.uses(cfg))
        bad.tail = "); }"
        for k, a in enumerate(("Nothing", "meter", "TEN", "foot", "length", "Quantity", "Dimension", "kilometer")):
            bad.add("unit annotated with %s" % a, "unit x%d: %s = meter;" % (k, a))
            bad.add("constant annotated with %s" % a, "constant X%d: %s = meter;" % (k, a))
        rejected(c, r, bad, WHERE)

        r = c.rule("base-%s" % cfg, "the annotation of a base unit is checked against the base dimension [%s]" % cfg, 5)
        ra = c.rule("base-ok-%s" % cfg, "and accepted if it is the base dimension [%s]" % cfg, 3)
        bad, good = W.Crate(cfg, "c09-base", "use diman;\n", P.uses(cfg)), W.Crate(cfg, "c09-base-ok", "use diman;\n", P.uses(cfg))
        for k, (a, ok) in enumerate((("A", 1), ("B", 0), ("AB", 0), ("One", 0), ("A2", 0), ("InvA", 0), ("SameAsA", 1), ("AlsoA", 1))):
            (good if ok else bad).add("base unit of A annotated with %s" % a, """pub mod b%d { diman::unit_system!(
quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; dimension AB = A * B; dimension One = 1; dimension A2 = A^2;
dimension InvA = 1 / A; dimension SameAsA = A; dimension AlsoA = A2 / A; #[base(A)] #[symbol(a)] unit ua: %s; #[base(B)] #[symbol(b)] unit ub;
); }""" % (k, a))
        rejected(c, r, bad, WHERE)
        accepted(c, ra, good, WHERE)
