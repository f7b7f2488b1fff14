"""Prefixes, aliases and symbols."""
import random
import extract as X
import mirrules as M
import prog as P
import systems as S

TITLE = "prefixes, aliases and symbols expand to exactly the right units"
WHERE = "expansion of units (crates/diman_unit_system/src/types/prefixes.rs, types/mod.rs, parse/attributes.rs, resolve)"
HEAD = """quantity_type Quantity; dimension_type Dimension;
dimension Length; dimension Time; dimension Mass; dimension Speed = Length / Time;
#[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second; #[base(Mass)] #[symbol(kg)] unit kilogram;
"""
NAMES = S.NAMES


def systems(rnd, rational, thorough=False):
    yield "all", '#[symbol(x)] #[metric_prefixes] unit foo = 0.5 meter; unit after = kilofoo * attofoo;'
    yield "all-alias", '#[symbol(x)] #[metric_prefixes] #[alias(foos, phoos)] unit foo: Length = 3 * meter; unit b = nanophoos / megafoos; constant K = 3 decafoo;'
    yield "base", '#[base(Speed2)] #[symbol(y)] #[metric_prefixes] #[alias(bars)] unit bar; dimension Speed2; unit z = millibars^2;'
    yield "no-symbol", '#[metric_prefixes] #[alias(foos)] unit foo = -2 second;'
    yield "only-alias", '#[alias(a1, a2, a3, a4)] #[symbol(q)] unit foo = 7 kilogram / second^2;'
    for n in NAMES:
        yield "one-" + n, '#[prefix(%s)] #[symbol(x)] #[alias(foos)] unit foo = 4 meter; unit use_it = %sfoos / %sfoo;' % (n, n, n)
        yield "skip-" + n, '#[metric_prefixes(skip: %s)] #[symbol(x)] unit foo = 2 meter;' % n
        yield "skip-self-" + n, '#[metric_prefixes(skip: %s)] #[symbol(x)] unit foo = 0.001 %sfoo; #[symbol(%sx)] unit %sfoo = 8 kilogram;' % (n, n, S.SHORT[n], n)
    for k in range(12):
        ps = rnd.sample(NAMES, rnd.randint(2, 9))
        yield "some-%d" % k, '#[prefix(%s)] #[alias(foos%s)] #[symbol(x)] unit foo = 1e3 meter^-1; #[metric_prefixes(skip: %s)] #[symbol(w)] unit other = 1e-6 foo;' % (
            ", ".join(ps), ", phi" * (k % 2), ", ".join(rnd.sample(NAMES, rnd.randint(1, 6))))
    yield "two", '#[metric_prefixes] #[symbol(x)] unit foo = meter second; #[metric_prefixes] #[symbol(yy)] #[alias(bars)] unit bar = kilofoo / kilogram; #[prefix(kilo, milli)] #[symbol(zz)] unit baz = megabars * decifoo;'
    yield "unicode", '#[metric_prefixes] #[symbol(Ω)] unit ohm = 2 kilogram; #[symbol(ж)] unit zhe = 1.5 ohm; #[prefix(micro)] #[symbol(µm)] unit micron = meter;'
    yield "lengths", ('#[metric_prefixes] #[symbol(abcd)] unit i = 2 kilogram; #[prefix(kilo, micro)] #[symbol(degrees)] #[alias(ii, iii3, i_i_i_i_with_many_letters_in_its_name)] '
                      'unit averyveryverylongnameofaunit = 3 second; #[prefix(mega)] #[symbol(a_very_long_symbol_1)] #[alias(x9)] unit j9 = i^2; #[symbol(X)] #[prefix(milli)] unit Upper = 5 megaj9; '
                      '#[symbol(ΩΩΩ)] #[prefix(giga)] unit ooo = kiloi / second;')
    yield "order-attrs", '#[alias(foos)] #[symbol(x)] #[prefix(kilo)] unit foo = 3 meter; #[prefix(milli)] #[alias(bars)] #[symbol(y)] unit bar = 3 meter; #[symbol(z)] #[metric_prefixes] #[alias(bazs)] unit baz = 2 meter;'
    yield "two-attributes", '#[prefix(kilo)] #[prefix(milli, mega)] #[symbol(x)] unit foo = 3 meter; #[prefix(nano)] #[alias(bars)] #[symbol(y)] #[prefix(giga)] unit bar = 2 second;'
    yield "one-factor", '#[symbol(x)] #[prefix(kilo)] unit foo = 1e-3 meter; #[symbol(v)] unit v = meter / second; #[symbol(n)] #[prefix(milli, kilo)] unit n = 1000 v;'
    yield "alias-attributes", '#[alias(foos)] #[alias(phi)] #[symbol(x)] #[alias(p1, p2)] unit foo = 3 meter; #[alias(bars)] #[prefix(nano)] #[alias(bor, bur,)] unit bar = 2 second;'
    yield "metric-and-explicit", '#[prefix(kilo)] #[metric_prefixes(skip: kilo, milli)] #[symbol(x)] #[prefix(milli)] #[alias(foos)] unit foo = 3 meter; #[metric_prefixes(skip: exa, deci)] #[prefix(deci)] #[symbol(y)] unit bar = 2 second;'
    yield "empty-lists", '#[prefix()] #[alias()] #[symbol(x)] unit foo = 3 meter; #[prefix(kilo,)] #[alias(bars,)] #[symbol(y)] unit bar = 2 second;'
    for k in range(60 if thorough else 8):
        yield "mixed-%d" % k, S.mixed(rnd, rational)
    if rational:
        yield "rational", '#[metric_prefixes] #[symbol(x)] #[alias(foos)] unit foo = 2 meter^(1/2) second^(-2/3); #[symbol(u)] unit u = kilofoo^(3/2);'


def run(c):
    for cfg in ("default", "all-features"):
        r = c.rule("expansion-%s" % cfg, "the units and constants of the expansion are exactly those that the statements, their prefixes and "
                   "aliases ask for, each with the dimension and the factor of the definition times the prefix, as the compiler evaluates "
                   "them [%s]" % cfg, 900)
        rs = c.rule("symbols-%s" % cfg, "every entry of the tables of symbols in the expansion is a symbol or prefixed symbol that the statements "
                    "give, with the dimension and factor of its unit%s [%s]" % (
                        ", and none is missing in the reader" if cfg == "all-features" else "", cfg),
                    700 if cfg == "all-features" else 30)
        b = S.Batch(cfg, "c11", tables=True)
        rnd = random.Random(c.seed)
        for key, text in systems(rnd, P.rational(cfg), c.tier == "thorough"):
            b.add(key, HEAD + text)
        S.check(c, r, b, WHERE)
        for key in b.found_keys():
            bad, good, und = b.compare_tables(key, cfg == "all-features")
            for n, text in bad:
                c.bad(rs, "%s/%s/%s" % (cfg, key, n), "[%s] %s: system %s: %s" % (cfg, WHERE, key, text), b.systems[key][1].text)
            if good:
                c.ok(rs, good, "[%s] %s: %d entries" % (cfg, key, good))
            for u in und:
                c.undecide(rs, "[%s] %s: %s" % (cfg, key, u))
