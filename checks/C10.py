"""Definitions that mean nothing are rejected; those next to them that do are not."""
import prog as P
import witness as W
from core import accepted, rejected

TITLE = "undefined, ambiguous, circular and ill-kinded definitions are rejected"
WHERE = "resolution of definitions (crates/diman_unit_system/src/resolve, parse)"

T = "quantity_type Quantity; dimension_type Dimension;\n"
A = "dimension A; dimension B;\n"
UA, UB = "#[base(A)] #[symbol(a)] unit ua;\n", "#[base(B)] #[symbol(b)] unit ub;\n"
H = T + A + UA + UB


def cases():
    """(what, bad system, good twin or None)"""
    out = []

    def case(what, bad, good=None):
        out.append((what, bad, good))
    # undefined identifiers, in every position of an expression and every kind of statement
    for e, g in (("nope", "ua"), ("2 * nope", "2 * ua"), ("ua * nope", "ua * ub"), ("ua / nope", "ua / ub"), ("ua / (ub * nope)", "ua / (ub * ua)"),
                 ("nope^2", "ua^2"), ("ua nope", "ua ub"), ("(nope)", "(ua)"), ("ua / (ub / (nope^3))", "ua / (ub / (ua^3))"),
                 ("1 / nope", "1 / ua"), ("nope * nope2", "ua * ub"), ("Ua", "ua"), ("kiloua", "ua"), ("a", "ua")):
        for kw in ("unit", "constant"):
            case("undefined: %s x = %s" % (kw, e), H + "%s x = %s;" % (kw, e), H + "%s x = %s;" % (kw, g))
    for e, g in (("Nope", "A"), ("A * Nope", "A * B"), ("A / Nope", "A / B"), ("Nope^2", "A^2"), ("A / (B * Nope)", "A / (B * A)"),
                 ("1 / Nope", "1 / A"), ("A Nope", "A B")):
        case("undefined: dimension X = %s" % e, H + "dimension X = %s;" % e, H + "dimension X = %s;" % g)
    case("undefined only in one of many definitions", H + "".join("unit g%d = %d ua;\n" % (i, i + 1) for i in range(20)) + "unit h = g3 * gg;",
         H + "".join("unit g%d = %d ua;\n" % (i, i + 1) for i in range(20)) + "unit h = g3 * g4;")
    case("undefined base dimension", T + A + UA + UB + "#[base(C)] #[symbol(c)] unit uc;", T + A + "dimension C;\n" + UA + UB + "#[base(C)] #[symbol(c)] unit uc;")
    # circular definitions
    for kw, n in (("unit", "x"), ("constant", "X"), ("dimension", "X")):
        y, z = ("y", "z") if n == "x" else ("Y", "Z")
        base = "ua" if kw != "dimension" else "A"
        case("%s defined by itself" % kw, H + "%s %s = %s;" % (kw, n, n), H + "%s %s = %s;" % (kw, n, base))
        case("%s defined by its own square" % kw, H + "%s %s = %s * %s^2;" % (kw, n, base, n), H + "%s %s = %s * %s^2;" % (kw, n, base, base))
        case("two %ss defined by each other" % kw, H + "%s %s = %s; %s %s = %s;" % (kw, n, y, kw, y, n), H + "%s %s = %s; %s %s = %s;" % (kw, n, y, kw, y, base))
        case("three %ss in a circle" % kw, H + "%s %s = %s %s; %s %s = 1 / %s; %s %s = (%s);" % (kw, n, base, y, kw, y, z, kw, z, n),
             H + "%s %s = %s %s; %s %s = 1 / %s; %s %s = (%s);" % (kw, n, base, y, kw, y, z, kw, z, base))
        case("a circle that cancels (%s)" % kw, H + "%s %s = %s / %s;" % (kw, n, n, n), H + "%s %s = %s / %s;" % (kw, n, base, base))
    case("a circle through a unit and a constant", H + "unit x = 2 * X; constant X = x / 3;", H + "unit x = 2 * X; constant X = ua / 3;")
    case("a circle through a prefixed name", H + "#[prefix(kilo)] unit x = 5 kilox;", H + "#[prefix(kilo)] unit x = 5 ua; unit y = kilox;")
    case("a circle through an alias", H + "#[alias(z)] unit x = 5 z;", H + "#[alias(z)] unit x = 5 ua; unit y = z;")
    # the same name twice
    kinds = {"dimension": ("dimension X = A;", "dimension Y = A;"), "unit": ("unit X = ua;", "unit Y = ua;"), "constant": ("constant X = 2 ua;", "constant Y = 2 ua;"),
             "other unit": ("unit X = 3 ub;", "unit Y = 3 ub;"), "base dimension": ("dimension X; #[base(X)] #[symbol(x)] unit ux;", "dimension Y; #[base(Y)] #[symbol(x)] unit ux;"),
             "alias": ("#[alias(X)] unit v = ua;", "#[alias(Y)] unit v = ua;"), "base unit": ("dimension C; #[base(C)] #[symbol(x)] unit X;", "dimension C; #[base(C)] #[symbol(x)] unit Y;")}
    ks = list(kinds)
    for i, a in enumerate(ks):
        for b in ks[i:]:
            if {a, b} & {"base unit"} and a == b:
                continue
            second = kinds[b][0].replace("unit v", "unit w").replace("dimension C;", "dimension C;") if a == b else kinds[b][0]
            if a == b == "base dimension":
                second = "dimension X;"
            if {a, b} == {"base dimension", "base unit"}:
                second = second.replace("symbol(x)", "symbol(y)")
            good = kinds[b][1] if a != b else second.replace("X", "Y")
            if {a, b} == {"base dimension", "base unit"}:
                good = good.replace("symbol(x)", "symbol(y)")
            case("%s and %s of the same name" % (a, b), H + kinds[a][0] + second, H + kinds[a][0] + good)
    case("same name, identical definitions", H + "unit x = 2 ua; unit x = 2 ua;", H + "unit x = 2 ua; unit y = 2 ua;")
    case("prefixed name defined again", T + A + "#[base(A)] #[symbol(a)] #[prefix(kilo)] unit ua;" + UB + "unit kiloua = 7 ub;",
         T + A + "#[base(A)] #[symbol(a)] #[prefix(kilo)] unit ua;" + UB + "unit megaua = 7 ub;")
    case("prefixed alias defined again", T + A + "#[base(A)] #[symbol(a)] #[prefix(kilo)] #[alias(al)] unit ua;" + UB + "unit kiloal = 7 ub;",
         T + A + "#[base(A)] #[symbol(a)] #[prefix(kilo)] #[alias(al)] unit ua;" + UB + "unit megaal = 7 ub;")
    case("the same prefix twice", H + "#[prefix(kilo, kilo)] unit x = 2 ua;", H + "#[prefix(kilo, mega)] unit x = 2 ua;")
    case("the same prefix twice in two attributes", H + "#[prefix(kilo)] #[metric_prefixes] unit x = 2 ua;", H + "#[prefix(kilo)] #[metric_prefixes(skip: kilo)] unit x = 2 ua;")
    case("the same alias twice", H + "#[alias(y, y)] unit x = 2 ua;", H + "#[alias(y, z)] unit x = 2 ua;")
    case("alias equal to the unit", H + "#[alias(x)] unit x = 2 ua;", H + "#[alias(y)] unit x = 2 ua;")
    case("three definitions of one name", H + "unit x = ua; unit x = ub; unit x = 2;", H + "unit x = ua; unit y = ub; unit z = 2;")
    # kinds
    for e, g in (("A", "ua"), ("2 * A", "2 * ua"), ("ua / B", "ua / ub"), ("A^2", "ua^2"), ("ua * (B)", "ua * (ub)"), ("1 / A", "1 / ua"), ("ua AB", "ua ub")):
        for kw in ("unit", "constant"):
            case("dimension in a %s: %s" % (kw, e), H + "dimension AB = A B; %s x = %s;" % (kw, e), H + "dimension AB = A B; %s x = %s;" % (kw, g))
    for e, g in (("ua", "A"), ("A * ua", "A * A"), ("A / ub", "A / B"), ("ua^2", "A^2"), ("K", "A"), ("A * K", "A * B"), ("d", "A"), ("A / (B d)", "A / (B A)"), ("al", "A")):
        case("unit or constant in a dimension: %s" % e, H + "constant K = 2; #[alias(al)] unit d = 2 ua; dimension X = %s;" % e,
             H + "constant K = 2; #[alias(al)] unit d = 2 ua; dimension X = %s;" % g)
    # numbers in dimensions
    for n in ("2", "0", "-1", "1.5", "0.0", "1e1", "10", "3.0", "1.4", "0.6", "1.000001", "0.999999", "0.9999999999999999", "1.0000000000000002", "1e-9", "4294967297"):
        for e, g in (("%s", "1"), ("%s * A", "1 * A"), ("A * %s", "A * 1"), ("%s / A", "1 / A"), ("A / %s", "A / 1.0"), ("(A / (%s * B))", "(A / (1 * B))"), ("%s^2", "1^2")):
            if n in ("2", "-1", "1.5", "1.4") or e in ("%s", "%s * A"):
                case("factor in a dimension: %s" % (e % n), H + "dimension X = %s;" % (e % n), H + "dimension X = %s;" % g if n == "2" else None)
    # base units
    case("two base units for one dimension", T + "dimension A; #[base(A)] #[symbol(a)] unit x; #[base(A)] #[symbol(b)] unit y;",
         T + "dimension A; dimension B; #[base(A)] #[symbol(a)] unit x; #[base(B)] #[symbol(b)] unit y;")
    case("two base units for one dimension, among others", H + "dimension C; #[base(C)] #[symbol(c)] unit x; #[base(B)] #[symbol(bb)] unit y;",
         H + "dimension C; #[base(C)] #[symbol(c)] unit x; unit y = ub;")
    for d in ("AB = A * B", "AA = A", "A2 = A^2", "One = 1", "IA = 1 / A"):
        n = d.split()[0]
        case("base unit of derived dimension %s" % d, H + "dimension %s; #[base(%s)] #[symbol(c)] unit x;" % (d, n), H + "dimension %s; #[base(%s)] #[symbol(c)] unit x;" % (n, n))
    for n in ("ua", "K", "d"):
        case("base unit of %s" % n, H + "constant K = 2; unit d = 2 ua; #[base(%s)] #[symbol(c)] unit x;" % n, H + "constant K = 2; unit d = 2 ua; dimension C; #[base(C)] #[symbol(c)] unit x;")
    case("base unit without symbol", T + "dimension A; #[base(A)] unit x;", T + "dimension A; #[base(A)] #[symbol(a)] unit x;")
    case("base unit without symbol, with prefixes and aliases", T + "dimension A; #[base(A)] #[alias(y)] #[metric_prefixes] unit x;", T + "dimension A; #[base(A)] #[symbol(a)] #[alias(y)] #[metric_prefixes] unit x;")
    case("one of several base units without symbol", H + "dimension C; #[base(C)] unit x;", H + "dimension C; #[base(C)] #[symbol(c)] unit x;")
    case("unit without definition", H + "unit x;", H + "unit x = ua;")
    case("annotated unit without definition", H + "unit x: A;", H + "unit x: A = ua;")
    case("base unit with a definition", T + "dimension A; #[base(A)] #[symbol(a)] unit x = 2;", T + "dimension A; #[base(A)] #[symbol(a)] unit x;")
    case("base unit with a definition by another", T + A + UB + "#[base(A)] #[symbol(a)] unit x = ub;", T + A + UB + "#[base(A)] #[symbol(a)] unit x;")
    case("constant without definition", H + "constant X;", H + "constant X = 1;")
    # symbols
    for s1, s2, g in (("#[symbol(x)] unit p = ua;", "#[symbol(x)] unit q = ub;", "#[symbol(y)] unit q = ub;"),
                      ("#[symbol(a)] unit p = 2 ua;", "", None),
                      ("#[symbol(p)] #[prefix(kilo)] unit p = ua;", "#[symbol(kp)] unit q = ub;", "#[symbol(mp)] unit q = ub;"),
                      ("#[symbol(kp)] unit q = ub;", "#[symbol(p)] #[prefix(kilo)] unit p = ua;", "#[symbol(p)] #[prefix(milli)] unit p = ua;"),
                      ("#[symbol(p)] #[prefix(kilo)] unit p = ua;", "#[symbol(p)] #[prefix(milli)] unit q = ub;", "#[symbol(q)] #[prefix(milli)] unit q = ub;"),
                      ("#[symbol(in)] unit inch = 2 ua;" if False else "#[symbol(in_)] #[prefix(milli)] unit inch = 2 ua;", "#[symbol(min_)] unit minute = 3 ub;", "#[symbol(mim_)] unit minute = 3 ub;"),
                      ("#[symbol(x)] unit p = 2 ua;", "#[symbol(x)] unit q = 2 ua;", "#[symbol(y)] unit q = 2 ua;"),
                      ("#[symbol(ay)] #[prefix(deci)] unit p = 2 ua;", "#[symbol(y)] #[prefix(deca)] unit q = 2 ua;", "#[symbol(yy)] #[prefix(deca)] unit q = 2 ua;"),
                      ("#[symbol(p)] #[alias(pp)] unit p = ua;", "#[symbol(p)] #[alias(qq)] unit q = ub;", "#[symbol(q)] #[alias(qq)] unit q = ub;")):
        case("two units with one symbol: %s %s" % (s1, s2), H + s1 + s2, H + s1 + g if g else None)
    # names of the types
    case("no quantity type", H.replace("quantity_type Quantity;", ""), H)
    case("no dimension type", H.replace("dimension_type Dimension;", ""))
    case("neither type", H.replace(T, ""))
    case("two quantity types", H + "quantity_type Qty;")
    case("the same quantity type twice", H + "quantity_type Quantity;")
    case("two dimension types", H + "dimension_type Dims;")
    # grammar
    for s in ("unit x = ;", "unit x = ua *;", "unit x = * ua;", "unit x = ua ^;", "unit x = ua ^ ub;", "unit x = (ua;" if False else "unit x = ();", "unit x = ua + ub;", "unit x = ua - ub;",
              "unit x = \"ua\";", "unit x = 'a';", "unit x = true;", "unit = ua;", "unit x ua;", "dimension X = ;", "dimension = A;", "dimension X: A;", "dimension X: A = B;",
              "constant = 1;", "constant X 1;", "meter x = ua;", "unit x = ua ^ 1.5;", "unit x = ua ^ \"2\";", "unit x = ua, ub;", "unit x = ua :: ub;", "unit x = ua [ub];", "unit x = ua [];", "unit x = ua {ub};", "unit x = ua # ub;", "unit x = ua @ 2;", "unit x = ua!;", "unit x = ua ub [2];", "dimension X = A [B];", "constant X = 2 [ua];", "unit x = (ua [ub]);", "unit x = 2 2;", "unit x = ua (ub);",
              "unit x y = ua;", "unit x = ua", "quantity_type;", "dimension_type = X;"):
        if s.endswith("ua"):
            continue
        case("grammar: %s" % s, H + s)
    return out


def run(c):
    for cfg in ("default", "all-features"):
        r = c.rule("rejected-%s" % cfg, "a definition with an undefined, repeated, circular or ill-kinded name, a number in a dimension, a "
                   "wrong base unit, an ambiguous symbol or no meaning in the grammar is rejected [%s]" % cfg, 190)
        ra = c.rule("accepted-%s" % cfg, "the same definition without the fault is accepted [%s]" % cfg, 100)
        bad, good = W.Crate(cfg, "c10-bad", "use diman;\n", P.uses(cfg)), W.Crate(cfg, "c10-good", "use diman;\n", P.uses(cfg))
        seen = set()
        for k, (what, b, g) in enumerate(cases()):
            bad.add(what, "pub mod b%d { diman::unit_system!(\n%s\n); }" % (k, b))
            if g and g not in seen:
                seen.add(g)
                good.add(what, "pub mod g%d { diman::unit_system!(\n%s\n); }" % (k, g), "twin of: " + what)
        rejected(c, r, bad, WHERE, None, 9)
        accepted(c, ra, good, WHERE, 7)
