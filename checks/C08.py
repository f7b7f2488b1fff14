"""Definition expressions: what a definition says is what the expansion contains."""
import itertools, random
import prog as P
import systems as S

TITLE = "definitions evaluate to the dimension and factor their expression denotes"
WHERE = "definition expressions (crates/diman_unit_system/src/parse, types/expression.rs, dimension_math.rs, resolve)"

HEAD = """quantity_type Quantity; dimension_type Dimension;
dimension Length; dimension Time; dimension Mass; dimension AmountOfSubstance;
#[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second;
#[base(Mass)] #[symbol(kg)] unit kilogram: Mass; #[base(AmountOfSubstance)] #[symbol(mol)] unit mole;
unit foot = 0.25 * meter; unit hour = 3600 second;
constant TEN = 10; constant SPEED = 3e8 meter / second;
"""
DIMS = ["Length", "Time", "Mass", "AmountOfSubstance"]
UNITS = ["meter", "second", "kilogram", "mole", "foot", "hour", "TEN", "SPEED"]
NUMS = ["2", "0.5", "-3", "1e3", "7.5e-4", "1_000", "10.", "149_597_870_700", "1.602_176_634e-19", "6.02214076e23", "-0.125", "1E2", "16f64"]


def exps(rational):
    e = ["2", "3", "-1", "-2", "0", "1", "4", "-5", "12"]
    return e + (["(1/2)", "(-1/2)", "(3/2)", "(2/4)", "(1/-3)", "(6/3)", "(-7/3)", "(0/5)"] if rational else [])


def shapes(vals, exponents, rnd, ones=False):
    """Expressions of every shape up to three operators, over every operator spelling."""
    pick = lambda: rnd.choice(vals)
    out = []
    # one factor, with every exponent
    for v in vals:
        out.append(v)
    for e in exponents:
        out.append("%s^%s" % (pick(), e))
    ops = [" * ", " / ", " "]

    def lit(v):
        return v[0].isdigit() or v[0] == "-"

    def join(op, a, b):
        # a factor can be written next to another only if it starts with a name
        return a + (" * " if op == " " and not (b[0].isalpha()) else op) + b
    for o in ops:
        for _ in range(3):
            out.append(join(o, pick(), pick()))
            out.append(join(o, pick() + "^" + rnd.choice(exponents), pick() + "^" + rnd.choice(exponents)))
    for o1, o2 in itertools.product(ops, ops):
        a, b, d = pick(), pick(), pick()
        out.append(join(o2, join(o1, a, b), d))
        out.append("%s%s(%s)" % (a, " / " if o1 == " " else o1, join(o2, b, d)))
        out.append(join(o2, "(%s)" % join(o1, a, b), d))
        out.append("((%s))" % join(o1, a, join(o2, b + "^" + rnd.choice(exponents), d)))
    for o1, o2, o3 in itertools.product(ops, ops, ops):
        a, b, d, e = pick(), pick(), pick(), pick()
        p = " / " if o2 == " " else o2
        out.append(join(o3, join(o2, join(o1, a, b), d), e))
        out.append("%s%s(%s)" % (join(o1, a, b), p, join(o3, d, e)))
        out.append("(%s)%s(%s)" % (join(o1, a, b), p, join(o3, d, e)))
        out.append(join(o3, "%s%s(%s)" % (a, " / " if o1 == " " else o1, "%s / (%s)" % (b, join(o2, d, e))), pick()))
    if ones:
        out += ["1 / %s" % pick(), "1.0 %s" % pick() if True else "", "1 / (%s / %s)" % (pick(), pick()), "1", "1^3 / %s^2" % pick()]
    return [x for x in out if x]


def deep(vals, exponents, rnd, depth):
    if depth == 0 or rnd.random() < 0.15:
        v = rnd.choice(vals)
        return v + ("^" + rnd.choice(exponents) if rnd.random() < 0.4 else "")
    parts = [deep(vals, exponents, rnd, depth - 1) for _ in range(rnd.randint(2, 4))]
    out = parts[0]
    for p in parts[1:]:
        if " " in p or rnd.random() < 0.2:
            p = "(%s)" % p
        out += rnd.choice([" * ", " / "] + ([" "] if p[0].isalpha() else [])) + p
    return out


def filtered(head, stmts, rational):
    """Leave out the statements whose value is out of the range of numbers."""
    bad = set(S.System(head + "".join(stmts), rational, True).insane)
    return [st for st in stmts if st.split()[1] not in bad]


def run(c):
    rounds = 12 if c.tier == "thorough" else 2
    for cfg in ("default", "all-features", "nostd"):
        rat = P.rational(cfg)
        r = c.rule("expressions-%s" % cfg, "every dimension, unit and constant of every unit system has, as the compiler evaluates it, the "
                   "dimension and factor that an independent reading of its definition gives: all operator shapes, spellings of "
                   "numbers and exponents [%s]" % cfg, 1000 if cfg != "nostd" else 200)
        b = S.Batch(cfg, "c08")
        for k in range(rounds if cfg != "nostd" else 1):
            rnd = random.Random(1000 * c.seed + k if k else 7)
            ex = exps(rat)
            dims = ["dimension D%d = %s;\n" % (i, e) for i, e in enumerate(shapes(DIMS, ex, rnd, True))]
            units = ["unit u%d = %s;\n" % (i, e) for i, e in enumerate(shapes(UNITS, ex, rnd) + shapes(UNITS + NUMS, ex[:6], rnd))]
            cons = ["constant C%d = %s;\n" % (i, e) for i, e in enumerate(NUMS + ["%s^%s" % (n, e) for n in NUMS[:5] for e in ex[:4]] +
                                                                     shapes(UNITS + NUMS, ex[:6], rnd))]
            for name, st in (("dims", dims), ("units", units), ("constants", cons)):
                b.add("%s%d" % (name, k), HEAD + "".join(filtered(HEAD, st, rat)))
            # deep expressions, with chains of definitions, in any order
            st = []
            vals, dvals = list(UNITS), list(DIMS)
            for i in range(8):
                new = ["unit w%d = %s;\n" % (5 * i + j, deep(vals, ex[:7] + ex[9:], rnd, 3)) for j in range(5)]
                new += ["constant W%d = %s;\n" % (5 * i + j, deep(vals + NUMS[:5], ex[:4], rnd, 2)) for j in range(5)]
                new += ["dimension V%d = %s;\n" % (5 * i + j, deep(dvals, ex[:7] + ex[9:], rnd, 3)) for j in range(5)]
                st = filtered(HEAD, st + new, rat)
                names = S.System(HEAD + "".join(st), rat)
                vals = UNITS + [n for n in list(names.units) + list(names.consts) if n[0] in "wW"][-6:]
                dvals = DIMS + [n for n in names.dims if n[0] == "V"][-6:]
            b.add("deep%d" % k, HEAD + "".join(st))
            whole = [x.strip() + ";\n" for x in HEAD.replace("\n", " ").split(";") if x.strip()] + st
            rnd.shuffle(whole)
            b.add("shuffled%d" % k, "".join(whole), "definitions in arbitrary order, most before what they refer to")
            whole.reverse()
            b.add("reversed%d" % k, "".join(whole))
        if cfg == "default":
            # systems with very few and very many base dimensions
            many = ["Aa", "Bb", "Cc", "Dd", "Ee", "Ff", "Gg", "Hh", "Ii", "Jj", "Kk", "Ll", "Mm", "Nn"]
            t = "quantity_type Quantity; dimension_type Dimension;\n" + "".join(
                "dimension %s; #[base(%s)] #[symbol(%s)] unit x%s;\n" % (m, m, m.lower(), m.lower()) for m in many)
            rnd = random.Random(3)
            t += "".join("dimension P%d = %s;\nunit p%d: P%d = %s;\n" % (i, e, i, i, e2) for i, (e, e2) in enumerate(
                (" * ".join("%s^%d" % (m, k) for m, k in zip(ms, ks)), " * ".join("x%s^%d" % (m.lower(), k) for m, k in zip(ms, ks)))
                for ms, ks in ((rnd.sample(many, rnd.randint(1, 14)), [rnd.choice([-3, -2, -1, 1, 2, 3]) for _ in range(14)]) for _ in range(25))))
            b.add("many-base-dimensions", t)
            b.add("one-base-dimension", "quantity_type Qty; dimension_type Dims; dimension X; #[base(X)] #[symbol(x)] unit ex; "
                  "dimension Y = X^2 / X^5; unit why: Y = 2^3 / ex^3; dimension One = X / X; unit one: One = ex / ex; constant K = 2 why^2")
            b.add("no-base-dimension", "quantity_type Qty; dimension_type Dims; dimension One = 1; unit dozen: One = 12; "
                  "unit gross: One = dozen^2; constant HALF = 1 / 2;")
        S.check(c, r, b, WHERE)
        odd(c, cfg)


ODD = [("(meter * second)^2", "meter^2 * second^2"), ("(meter)^2", "meter^2"), ("hour / (foot * second)^2", "hour / (foot^2 * second^2)"), ("(hour)^-1", "hour^-1"), ("2 * (hour)^2", "2 * hour^2"),
       ("meter^2^3", "meter^8"), ("-hour", "-1 * hour"), ("-(hour)", "-1 * hour"), ("2(hour)", "2 * hour"), ("(2)(hour)", "2 * hour"), ("meter (hour)", "meter * hour"),
       ("meter + meter", "2 * meter"), ("foot - meter", "-0.75 * meter"), ("hour^(2*3)", "hour^6"), ("hour^2.0", "hour^2"), ("hour^(2)", "hour^2"), ("hour^+2", "hour^2"),
       ("2 3", "6"), ("hour 2", "2 * hour"), ("hour * -second", "-1 * hour * second"), ("hour * -2", "-2 * hour"), ("hour / -2", "hour / -2"), ("hour / (-2)", "hour / -2"), ("hour ** 2", "hour^2"),
       ("hour / second / foot", "hour / (second * foot)"), ("hour * / foot", "hour / foot"), ("hour [foot]", "hour * foot"), ("hour {foot}", "hour * foot"),
       ("[hour]", "hour"), ("{hour}", "hour"), ("hour^{2}", "hour^2"), ("hour^[2]", "hour^2"), ("hour^--2", "hour^2"), ("--2 * hour", "2 * hour"), ("+2 * hour", "2 * hour"), ("1 - 3 * hour", "-3 * hour"),
       ("0x10", "16"), ("0b11", "3"), ("0o17", "15"), ("1u8", "1"), ("300u8", "300"), ("2.5f32", "2.5"), ("0.1f32", "0.1"), ("16777217f32", "16777217"), ("9007199254740993", "9007199254740992"),
       ("4294967297", "4294967297"), ("3000000000", "3000000000"), ("-3000000000", "-3000000000"), ("9223372036854775807", "9223372036854775807"), ("9223372036854775808", "9223372036854775808.0"),
       ("1e280", "1e280"), ("1e-280", "1e-280"), ("1_0.0_1", "10.01"), ("1.0001^1000", None), ("1.0001^-300", None), ("hour^20 / hour^18", "hour^2"), ("meter^130 / meter^1", None), ("meter^-129", None), ("meter^300", None),
       ("meter^33000", None), ("meter^70000 * meter^-69999", None), ("hour%", "hour"), ("hour.second", "hour * second")]
ODD_RAT = [("meter^0.5", "meter^(1/2)"), ("meter^1.5", "meter^(3/2)"), ("meter^1/2", "meter / 2"), ("meter^(1/2)^2", "meter"), ("(meter * second)^(1/2)", "meter^(1/2) * second^(1/2)"), ("meter^(1/2/3)", "meter^(1/6)"),
           ("meter^(2 * 1/2)", "meter"), ("meter^-(1/2)", "meter^(-1/2)"), ("meter^(-(1/2))", "meter^(-1/2)"), ("meter^(1/300)", None), ("meter^(200/3)", None), ("4^(1/2)", "2"), ("8^(2/3)", "4"), ("16^(-3/4)", "0.125"),
           ("meter^(1/-2)", "meter^(-1/2)"), ("meter^(-1/-2)", "meter^(1/2)"), ("meter^(1.0/2)", "meter^(1/2)"), ("meter^(3/3)", "meter"), ("meter^(6/4)", "meter^(3/2)")]


def odd(c, cfg):
    if cfg == "nostd":
        return
    rat = P.rational(cfg)
    r = c.rule("unusual-%s" % cfg, "an unusual spelling of an expression or number is rejected or has its conventional meaning, never another one [%s]" % cfg, 60)
    b = S.Batch(cfg, "c08-odd")
    for e, m in ODD + (ODD_RAT if rat else []):
        for kw in ("unit", "constant"):
            b.add("%s x = %s" % (kw, e), HEAD + "%s x = %s;" % (kw, e), meaning=HEAD + "%s x = %s;" % (kw, m or e))
    for e, m in (("(Length * Time)^2", "Length^2 * Time^2"), ("(Length)^-1", "Length^-1"), ("Length^2^3", "Length^8"), ("Length (Time)", "Length * Time"), ("Length^(2)", "Length^2"), ("Length [Time]", "Length * Time"),
                 ("Length^(2*3)", "Length^6"), ("Length^2.0", "Length^2"), ("1.0 / Time", "Time^-1"), ("1(Time)", "Time"), ("1 1 Time", "Time"), ("1e0 / Time", "Time^-1"), ("1f32 / Time", "Time^-1"), ("Length^130", None)):
        b.add("dimension x = %s" % e, HEAD + "dimension x = %s;" % e, meaning=HEAD + "dimension x = %s;" % (m or e))
    S.meaning_or_rejected(c, r, b, WHERE)
