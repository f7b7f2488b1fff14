"""No attribute is silently ignored."""
import random
import prog as P
import systems as S
import witness as W
from core import accepted, rejected

TITLE = "every attribute of a statement takes effect or is rejected"
WHERE = "attributes of statements (crates/diman_unit_system/src/parse/attributes.rs, parse/mod.rs)"
H = """quantity_type Quantity; dimension_type Dimension; dimension A; dimension B;
#[base(A)] #[symbol(a)] unit ua; #[base(B)] #[symbol(b)] unit ub;
"""
VALID = ["#[symbol(x)]", "#[alias(y)]", "#[alias(y, z)]", "#[prefix(kilo)]", "#[prefix(kilo, milli)]", "#[metric_prefixes]",
         "#[metric_prefixes(skip: kilo)]", "#[metric_prefixes(skip: kilo, exa, atto)]"]
STATEMENTS = ["dimension X", "dimension X = A", "constant X = 2", "constant X: A = 2 ua"]


def cases():
    bad, good = [], []
    for s in STATEMENTS:
        for a in VALID + ["#[base(A)]", "#[symbol]", "#[metric_prefixes()]"]:
            bad.append(("%s on %s" % (a, s), H + "%s %s;" % (a, s)))
    for t in ("quantity_type Quantity;", "dimension_type Dimension;"):
        for a in VALID + ["#[base(A)]"]:
            bad.append(("%s on %s" % (a, t), H.replace(t, a + " " + t)))
    # unknown
    for a in ("#[doc(x)]", "#[aliases(y)]", "#[prefixes(kilo)]", "#[metric_prefix]", "#[Symbol(x)]", "#[]", "#[cfg(test)]", "#[allow(unused)]", "#[symbols(x)]",
              "#[diman::symbol(x)]", "#[skip(kilo)]", "#![symbol(x)]", "#[1]"):
        bad.append(("unknown %s" % a, H + "%s unit x = ua;" % a))
        bad.append(("unknown %s next to others" % a, H + "#[symbol(x)] %s #[alias(q)] unit x = ua;" % a))
    # arguments
    for a in ("#[symbol]", "#[symbol()]", "#[symbol(x, y)]", "#[symbol(x y)]", "#[symbol = x]", "#[symbol(\"x\")]", "#[symbol(x) y]", "#[symbol(1)]",
              "#[alias]", "#[alias(y z)]", "#[alias(1)]", "#[alias(y;z)]", "#[alias = y]", "#[alias(y) z]", "#[alias(y.z)]", "#[alias[y]]",
              "#[prefix]", "#[prefix(foo)]", "#[prefix(kilo milli)]", "#[prefix(kilo, foo)]", "#[prefix(Kilo)]", "#[prefix(k)]", "#[prefix(yotta)]", "#[prefix = kilo]",
              "#[prefix(kilo) milli]", "#[prefix(1000)]", "#[prefix(skip: kilo)]",
              "#[metric_prefixes(kilo)]", "#[metric_prefixes(skip)]", "#[metric_prefixes(skip: foo)]", "#[metric_prefixes(skip kilo)]", "#[metric_prefixes(skip: kilo milli)]",
              "#[metric_prefixes(only: kilo)]", "#[metric_prefixes(skip: kilo) x]", "#[metric_prefixes = kilo]", "#[metric_prefixes(skip: kilo; exa)]", "#[metric_prefixes[skip: kilo]]"):
        bad.append(("arguments %s" % a, H + "%s unit x = ua;" % a))
    for a in ("#[base]", "#[base()]", "#[base(C, A)]", "#[base(C A)]", "#[base = C]", "#[base(\"C\")]", "#[base(C) A]", "#[base[C]]"):
        bad.append(("arguments %s" % a, H + "dimension C; %s #[symbol(c)] unit x;" % a))
    # more than one where there can be only one
    bad.append(("two symbols", H + "#[symbol(x)] #[symbol(y)] unit x = ua;"))
    bad.append(("two equal symbols", H + "#[symbol(x)] #[symbol(x)] unit x = ua;"))
    bad.append(("two metric_prefixes", H + "#[metric_prefixes] #[metric_prefixes] unit x = ua;"))
    bad.append(("two different metric_prefixes", H + "#[metric_prefixes(skip: kilo)] #[metric_prefixes(skip: exa)] unit x = ua;"))
    bad.append(("two bases", H + "dimension C; dimension D2; #[base(C)] #[base(D2)] #[symbol(c)] unit x;"))
    bad.append(("two equal bases", H + "dimension C; #[base(C)] #[base(C)] #[symbol(c)] unit x;"))
    bad.append(("base on a unit that has a definition", H + "dimension C; #[base(C)] #[symbol(c)] unit x = ua;"))
    bad.append(("attribute without a statement", H + "unit x = ua; #[symbol(x)]"))
    bad.append(("attribute after the keyword", H + "unit #[symbol(x)] x = ua;"))
    bad.append(("attribute inside an expression", H + "unit x = #[symbol(x)] ua;"))
    for a in VALID:
        good.append(("%s on a unit" % a, H + "%s unit x = ua;" % a))
        good.append(("%s on an annotated unit" % a, H + "%s unit x: A = ua;" % a))
        if "symbol" not in a:
            good.append(("%s on a base unit" % a, H + "dimension C; %s #[base(C)] #[symbol(c)] unit x;" % a))
    good.append(("all of them", H + "dimension C; #[alias(p)] #[base(C)] #[prefix(kilo)] #[alias(q, r,)] #[symbol(c)] #[metric_prefixes(skip: kilo,)] #[alias()] #[prefix()] unit x;"))
    return bad, good


def run(c):
    for cfg in ("default", "all-features"):
        r = c.rule("rejected-%s" % cfg, "an attribute on a statement that takes none, an unknown one, one with wrong, missing or surplus "
                   "arguments and a repeated one are rejected [%s]" % cfg, 130)
        ra = c.rule("accepted-%s" % cfg, "attributes in their place are accepted [%s]" % cfg, 20)
        bad, good = W.Crate(cfg, "c24-bad", "use diman;\n", P.uses(cfg)), W.Crate(cfg, "c24-good", "use diman;\n", P.uses(cfg))
        bs, gs = cases()
        for k, (what, b) in enumerate(bs):
            bad.add(what, "pub mod b%d { diman::unit_system!(\n%s\n); }" % (k, b))
        for k, (what, g) in enumerate(gs):
            good.add(what, "pub mod g%d { diman::unit_system!(\n%s\n); }" % (k, g))
        rejected(c, r, bad, WHERE, None, 17)
        accepted(c, ra, good, WHERE, 4)
        effects(c, cfg)


def effects(c, cfg):
    """Every list of attributes, and nothing else, has its effect."""
    r = c.rule("effect-%s" % cfg, "a unit with attributes of any kinds, numbers and order has exactly the names, factors and symbols that all of "
               "its attributes give it together, as the expansion defines them [%s]" % cfg, 300)
    b, rnd = S.Batch(cfg, "c24-effect", tables=True), random.Random(c.seed + 77)
    two = ["#[alias(p)] #[alias(q, r)]", "#[alias(q)] #[symbol(x)] #[alias(p)]", "#[prefix(kilo)] #[prefix(milli, mega)]", "#[metric_prefixes(skip: kilo, exa)] #[prefix(kilo)]", "#[prefix(atto)] #[metric_prefixes(skip: atto)] #[alias(p)] #[symbol(x)]",
           "#[prefix(kilo)] #[symbol(x)] #[prefix(milli)]", "#[alias(p)] #[prefix(kilo)] #[alias(q)]"]
    for i, a in enumerate(VALID + two):
        b.add("unit %s" % a, H + "%s unit x = 3 ua; #[symbol(other)] unit last = ub;" % a)
        b.add("base unit %s" % a, H + "dimension C; %s%s #[base(C)] unit x;" % (a, "" if "symbol" in a else " #[symbol(c)]"))
    for k in range(40 if c.tier == "thorough" else 6):
        b.add("mixed-%d" % k, "quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension Mass;\n"
              "#[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second; #[base(Mass)] #[symbol(kg)] unit kilogram;\n" + S.mixed(rnd, P.rational(cfg)))
    S.check(c, r, b, WHERE)
    for key in b.found_keys():
        bad, good, und = b.compare_tables(key, cfg == "all-features")
        for n, text in bad:
            c.bad(r, "%s/%s/%s" % (cfg, key, n), "[%s] %s: system %s: %s" % (cfg, WHERE, key, text), b.systems[key][1].text)
        if good:
            c.ok(r, good)
        for u in und:
            c.undecide(r, "[%s] %s: %s" % (cfg, key, u))
