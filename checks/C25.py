"""What is wrong with a faulty definition, and where, is what the compiler says."""
import concurrent.futures, re
import prog as P
import witness as W
from core import guarded, parts_of, settle

TITLE = "a faulty definition is reported at the names at fault, with both dimensions of a mismatch"
WHERE = "errors about definitions (crates/diman_unit_system/src/resolve)"

T = "quantity_type Quantity; dimension_type Dimension;\n"
A = "dimension A; dimension B;\n"
UA, UB = "#[base(A)] #[symbol(a)] unit ua;\n", "#[base(B)] #[symbol(b)] unit ub;\n"
H = T + A + UA + UB
MARK = re.compile(r"<([?\w]*):(\w+)>")


class Case:
    """Text of a system in which <k:name> marks the names that the errors of group k point to, and <?:name> those that
    errors may point to as well; `names` are what the errors of a group mention."""

    def __init__(self, what, text, names=None, dims=None):
        self.what, self.names, self.dims = what, names or {}, dims
        self.must, self.may = {}, set()
        out, line, col, at = [], 0, 1, 0
        for m in MARK.finditer(text):
            out.append(text[at:m.start()])
            at = m.end()
            before = "".join(out)
            line, col = before.count("\n"), len(before) - (before.rfind("\n") + 1) + 1
            where = (line, col, line, col + len(m.group(2)))
            if m.group(1) == "?":
                self.may.add(where)
            else:
                self.must[where] = (m.group(1), m.group(2))
            out.append(m.group(2))
        self.text = "".join(out) + text[at:]


def cases(rational):
    out = []

    def case(*a):
        out.append(Case(*a))
    # undefined
    for e in ("<:nope>", "2 * <:nope>", "ua * <:nope>", "ua / (ub * <:nope>)", "<:nope>^2", "ua <:nope> ub", "<:nope> * <?:nope2>", "<:Ua>", "<:kiloua>", "<:a>", "<:nope> / <?:nope>"):
        for kw in ("unit", "constant"):
            case("undefined in a %s: %s" % (kw, MARK.sub(r"\2", e)), H + "unit p = ua;\n%s x = %s;\nunit q = ub;\n" % (kw, e))
    for e in ("<:Nope>", "A * <:Nope>", "A / (B * <:Nope>^2)", "1 / <:Nope>"):
        case("undefined in a dimension: %s" % MARK.sub(r"\2", e), H + "dimension P = A;\ndimension X = %s;\ndimension Q = B;\n" % e)
    case("undefined in two statements", H + "unit x = <:nope1>;\nunit y = ua;\nconstant Z = 2 <:nope2> ua;\n")
    case("undefined, and used elsewhere", H + "unit x = <:nope>;\nunit <?:y> = 2 x;\nunit z = ua;\n")
    case("undefined, with prefixes and aliases", H + "#[alias(ex)] #[metric_prefixes] #[symbol(X)] unit x = <:nope>;\nunit z = ua;\n")
    # circular
    for kw, n, m, o, base in (("unit", "x", "y", "z", "ua"), ("constant", "X", "Y", "Z", "ua"), ("dimension", "X", "Y", "Z", "A")):
        case("%s by itself" % kw, H + "%s P = %s;\n%s <:%s> = %s * %s;\n" % (kw, base, kw, n, base, n))
        case("two %ss by each other" % kw, H + "%s <:%s> = %s;\n%s P = %s;\n%s <:%s> = %s;\n" % (kw, n, m, kw, base, kw, m, n))
        case("three %ss in a circle, one aside" % kw, H + "%s <:%s> = %s;\n%s <:%s> = 1 / %s;\n%s <:%s> = %s %s;\n%s <?:w> = %s;\n" % (kw, n, m, kw, m, o, kw, o, base, n, kw, o))
    # the same with everything else a statement may have
    for what, pre, post in (("annotation", "", ": A"), ("symbol", "#[symbol(%s)] ", ""), ("symbol and annotation", "#[symbol(%s)] ", ": B")):
        d = lambda s: pre % s if "%" in pre else pre
        for kw in ("unit", "constant") if not pre else ("unit",):
            case("undefined in a %s with %s" % (kw, what), H + "%s%s x%s = 2 * <:nope>;\nunit q: B = ub;\n" % (d("sx"), kw, post))
            case("%s with %s by itself" % (kw, what), H + "unit p: A = ua;\n%s%s <:x>%s = ua * x;\n" % (d("sx"), kw, post))
            case("two %ss with %s by each other" % (kw, what), H + "%s%s <:x>%s = y;\nunit p: A = ua;\n%s%s <:y>%s = 3 x;\n" % (d("sx"), kw, post, d("sy"), kw, post))
            case("two %ss by each other, one with %s" % (kw, what), H + "%s <:x> = y;\nunit p: A = ua;\n%s%s <:y>%s = 3 x;\n" % (kw, d("sy"), kw, post))
            case("two %ss of one name with %s" % (kw, what), H + "%s%s <:x>%s = ua;\nunit p: A = ua;\n%s%s <:x>%s = 3 ua;\n".replace(": B", ": A") % (d("sx"), kw, post.replace("B", "A"), d("sy"), kw, post.replace("B", "A")))
            case("dimension in a %s with %s" % (kw, what), H + "%s%s <:x>%s = ua / <:B>;\nunit p: A = ua;\n" % (d("sx"), kw, re.sub("[AB]", "<?:A>", post)))
    case("units with prefixes and aliases by each other", H + "#[prefix(kilo)] #[alias(<?:xx>)] unit <:x>: A = y;\n#[metric_prefixes] #[symbol(Y)] unit <:y> = 3 x;\nunit z = 2 ua;\n")
    case("units by prefixed units in a circle", H + "#[prefix(kilo)] unit <:x>: A = 2 y;\nunit <:y> = 3 <?:kilox>;\nunit z = 2 ua;\n")
    case("units by aliases in a circle", H + "#[alias(<?:xx>)] unit <:x>: A = 2 y;\nunit <:y> = 3 <?:xx>;\nunit z = 2 ua;\n")
    case("a circle of units and constants", H + "unit <:x>: A = 2 Y;\nconstant <:Y> = 3 x;\nunit z = 2 ua;\n")
    case("four units in two circles", H + "unit <:x> = 2 y;\nunit <:y> = 3 x;\nunit <:v>: A = w;\nunit z = 2 ua;\nunit <:w> = 3 v;\n")
    case("circle of dimensions that annotates", H + "dimension <:X> = Y;\ndimension <:Y> = A * X;\nunit z: A = 2 ua;\n")
    # several definitions of a name
    case("two units of one name", H + "unit <:x> = ua;\nunit y = 2 ua;\nunit <:x> = ub;\n")
    case("three definitions of one name", H + "unit <:x> = ua;\nunit y = 2 ua;\nconstant <:x> = ub;\nunit <:x> = 3;\n")
    case("a unit and a dimension of one name", H + "dimension <:x> = A;\nunit <:x> = ua;\nunit y = 2 ua;\n")
    case("two names defined twice", H + "unit <1:x> = ua;\nunit <2:y> = ua;\nunit <1:x> = ub;\nunit <2:y> = 2 ub;\n", {"1": ["x"], "2": ["y"]})
    case("alias of the name of a unit", H + "#[alias(<:y>)] unit x = ua;\nunit <:y> = ub;\n")
    case("two aliases of one name", H + "#[alias(v, <:y>)] unit x = ua;\n#[alias(<:y>, w)] unit z = ub;\n")
    case("prefixed unit and unit of one name", H + "#[prefix(mega, kilo)] unit <:x> = ua;\nunit <:kilox> = ub;\n", {"": ["kilox"]})
    # kinds
    for kw in ("unit", "constant"):
        case("dimension in a %s" % kw, H + "unit p = ua;\n%s <:x> = ua / <:B>;\n" % kw)
        case("derived dimension in a %s" % kw, H + "dimension AB = A * B;\n%s <:x> = 2 * ua^2 / (ub * <:AB>^2);\n" % kw)
    case("unit in a dimension", H + "dimension <:X> = A * <:ub>;\ndimension Y = A;\n")
    case("constant in a dimension", H + "constant K = 2 ua;\ndimension <:X> = A * <:K>^2;\n")
    case("alias in a dimension", H + "#[alias(al)] unit d = 2 ua;\ndimension <:X> = A / <:al>;\n")
    # annotations
    S = "dimension AB = A B;\ndimension AoverB = A / B;\ndimension N = 1;\ndimension A2B3 = A^2 / B^3;\ndimension One = A / A;\n"
    D = {"A": (1, 0), "B": (0, 1), "AB": (1, 1), "AoverB": (1, -1), "N": (0, 0), "A2B3": (2, -3), "One": (0, 0)}
    E = {"ua": (1, 0), "ub": (0, 1), "ua * ub": (1, 1), "1 / (ua ub)": (-1, -1), "ua^12 / ub^7": (12, -7), "3": (0, 0), "2 * ua / ub^2": (1, -2), "ub / ua": (-1, 1)}
    if rational:
        S += "dimension H = A^(1/2) * B^(-2/3);\n"
        D["H"] = ("1/2", "-2/3")
        E["ua^(3/2) / ub^(1/3)"] = ("3/2", "-1/3")
    for kw in ("unit", "constant"):
        for d, v in D.items():
            for e, w in E.items():
                if v != w and (kw == "unit" or (len(d) + len(e)) % 2):
                    case("%s x: %s = %s" % (kw, d, e), H + S + "%s y: A = ua;\n%s x: <:%s> = %s;\nunit z: B = 2 ub;\n" % (kw, kw, d, e), {"": []}, (v, w))
    case("two violated annotations", H + "unit x: <1:A> = ub;\nunit y: A = ua;\nconstant Z: <2:B> = ua;\n", {"1": [], "2": []})
    case("undefined annotation", H + "unit x: <:Nope> = ub;\nunit y: A = ua;\n")
    for n, d in (("ub", ""), ("K", "constant K = 2 ub;\n"), ("d", "unit d = 2 ub;\n"), ("al", "#[alias(al)] unit d = 2 ub;\n")):
        case("annotated by %s" % n, H + d + "unit x: <:%s> = ub;\nunit y: A = ua;\n" % n)
    # base units
    case("two base units of a dimension", T + A + UA + UB + "#[base(A)] #[symbol(x)] unit <:x>;\n", {"": ["x", "A"]})
    case("three base units of a dimension", T + A + UA + "#[base(A)] #[symbol(x)] unit <1:x>;\n" + UB + "#[base(A)] #[symbol(y)] unit <2:y>;\n", {"1": ["x", "A"], "2": ["y", "A"]})
    case("base unit of a derived dimension", H + "dimension AB = A B;\n#[base(AB)] #[symbol(x)] unit <:x>;\nunit y = ua;\n", {"": ["x", "AB"]})
    case("base unit of a unit", H + "#[base(<?:ua>)] #[symbol(x)] unit <:x>;\nunit y = ua;\n", {"": ["x", "ua"]})
    case("base unit of nothing", H + "#[base(<:Nope>)] #[symbol(x)] unit <?:x>;\nunit y = ua;\n")
    case("base unit without symbol", T + A + "#[base(A)] unit <:x>;\n" + UB)
    case("two base units without symbol", T + A + "#[base(A)] unit <:x>;\n#[base(B)] unit <:y>;\nunit z = x / y;\n")
    case("base unit without symbol, with prefixes", T + A + UB + "#[base(A)] #[alias(y)] #[metric_prefixes] unit <:x>;\nunit z = x;\n")
    # symbols
    case("two units of one symbol", H + "#[symbol(v)] unit <:p> = ua;\n#[symbol(w)] unit y = ub;\n#[symbol(v)] unit <:q> = ub;\n", {"": ["v"]})
    case("three units of one symbol", H + "#[symbol(v)] unit <:p> = ua;\n#[symbol(v)] unit <:r> = ub;\n#[symbol(v)] unit <:q> = ub;\n", {"": ["v"]})
    case("symbol of a base unit", T + A + "#[base(A)] #[symbol(a)] unit <:ua>;\n" + UB + "#[symbol(a)] unit <:p> = 2 ua;\n", {"": ["a"]})
    case("prefixed symbol", H + "#[symbol(p)] #[prefix(mega, kilo)] unit <:p> = ua;\n#[symbol(kp)] unit <:q> = ub;\n", {"": ["kp"]})
    case("two clashes of symbols", H + "#[symbol(v)] unit <1:p> = ua;\n#[symbol(w)] unit <2:y> = ub;\n#[symbol(v)] unit <1:q> = ub;\n#[symbol(w)] unit <2:r> = ua;\n", {"1": ["v"], "2": ["w"]})
    # names of the types
    case("two quantity types", H.replace("quantity_type Quantity", "quantity_type <:Quantity>") + "quantity_type <:Qty>;\n")
    case("two dimension types", H.replace("dimension_type Dimension", "dimension_type <:Dimension>") + "dimension_type <:Dims>;\n")
    # several faults
    case("faults of several kinds", H + "unit x = <1:nope>;\nunit <2:p> = ua;\nunit <2:p> = ub;\n#[symbol(v)] unit <3:q> = ua;\n#[symbol(v)] unit <3:r> = ua;\nunit fine: A = 3 ua;\n", {"1": ["nope"], "2": ["p"], "3": ["v"]})
    return out


GRAMMAR = ["unit x = ;", "unit x = ua *;", "unit x = * ua;", "unit x = ua ^;", "unit x = ua ^ ub;", "unit x = ua + ub;", "unit x = \"ua\";", "unit x = true;", "unit = ua;", "unit x ua;", "dimension X = ;",
           "dimension = A;", "dimension X: A = B;", "constant = 1;", "constant X 1;", "meter x = ua;", "unit x = ua ^ 1.5;", "unit x = ua, ub;", "unit x = ua [ub];", "unit x y = ua;", "dimension X = 2 * A;",
           "unit x;", "#[base(A)] #[symbol(x)] unit x = ua;", "#[alias(y)] dimension X = A;", "#[symbol(c)] constant X = 2;", "#[symbol(x)] #[symbol(y)] unit x = ua;", "#[nope] unit x = ua;", "#[alias] unit x = ua;",
           "#[prefix(nope)] unit x = ua;", "#[base(A)] #[base(B)] #[symbol(x)] unit x;", "#[metric_prefixes(skip: nope)] unit x = ua;"]


def words(text):
    return re.findall(r"\w+", text)


def exponents(text):
    return {n: e.rstrip(".") for n, e in re.findall(r"(\w+)\^(-?\d+(?:/\d+)?)", text)}


def judge(case, it):
    """None, or what is wrong with the errors."""
    own = [d for d in it.diags if not d[0]]
    if not it.diags:
        return "accepted"
    if not own:
        return "rejected by the compiler only, not by the macro: %s" % it.diags[0][1]
    spans = {}
    for code, msg, notes, where in own:
        for w in where:
            spans.setdefault((w[0] - 1, w[1], w[2] - 1, w[3]), []).append((msg, notes))
    for w in case.must:
        if w not in spans:
            return "no error points to %s (line %d, column %d)" % (case.must[w][1], w[0] + 1, w[1])
    for w in spans:
        if w not in case.must and w not in case.may:
            line = case.text.split("\n")[w[0]] if 0 <= w[0] < case.text.count("\n") + 1 else "?"
            return "an error points to %r, which is not at fault: %s" % (line[w[1] - 1:w[3] - 1] if w[0] == w[2] else line, spans[w][0][0])
    for w, (k, name) in case.must.items():
        want = case.names.get(k, [name])
        if not any(all(n in words(" ".join([m] + ns)) for n in want) for m, ns in spans[w]):
            return "the error at %s does not mention %s: %s" % (name, ", ".join(want), spans[w][0][0])
        others = [n for j, (k2, n) in case.must.items() if k2 != k and n not in want and not case.names.get(k)]
    if case.dims:
        w = next(iter(case.must))
        msg, notes = spans[w][0]
        texts = [t for t in [msg] + notes if "^" in t]
        sides = [exponents(t) for t in texts]
        if len(texts) == 1:
            k = re.search(r"\bexpression\b|\bright|\bbut\b", texts[0])
            sides = [exponents(texts[0][:k.start()]), exponents(texts[0][k.start():])] if k else []
        if len(sides) != 2:
            return None if not texts else "?%s" % texts
        if re.search(r"\bexpression|\bright", texts[0]) and len(texts) == 2 and not re.search(r"\bannotation|\bleft", texts[0]):
            sides.reverse()
        for side, want, which in zip(sides, case.dims, ("annotation", "definition")):
            want = dict(zip(("a", "b"), map(str, want)))
            have = {n: side.get(n, "0") for n in want}
            if set(side) - set(want) or have != want:
                return "the dimension of the %s is %s, the error says %s" % (which, want, side)
    return None


def compile_all(crate, chunk=6):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(settle, parts_of(crate, chunk)))


@guarded
def reports(c, r, crate, cs):
    compile_all(crate)
    for case, it in zip(cs, crate.items):
        wrong = judge(case, it)
        key = "%s/%s" % (crate.config, case.what)
        if wrong is None:
            c.ok(r, 1, "[%s] %s -> %s" % (crate.config, case.what, [d[1] for d in it.diags if not d[0]][0][:120]))
        elif wrong.startswith("?"):
            c.undecide(r, "[%s] %s: how the dimensions are told: %s" % (crate.config, case.what, wrong[1:200]))
        else:
            c.bad(r, key, "[%s] %s: %s: %s" % (crate.config, WHERE, case.what, wrong),
                  it.code + "\n" + "\n".join(e[2] for e in it.errors))


@guarded
def places(c, r, crate, ranges):
    compile_all(crate)
    for (lo, hi, s), it in zip(ranges, crate.items):
        own = [d for d in it.diags if not d[0]]
        where = [w for d in own for w in d[3]]
        if not own:
            c.bad(r, "%s/%s" % (crate.config, s), "[%s] %s: the grammar: %s: %s" % (
                crate.config, WHERE, s, "rejected, but not by the macro" if it.diags else "accepted"), it.code)
        elif all(lo <= w[0] - 1 and w[2] - 1 <= hi for w in where):
            c.ok(r, 1, "[%s] %s -> %s" % (crate.config, s, own[0][1][:120]))
        else:
            c.bad(r, "%s/%s" % (crate.config, s), "[%s] %s: %s: the error points elsewhere: %s" % (crate.config, WHERE, s, own[0][1]),
                  it.code + "\n" + "\n".join(e[2] for e in it.errors))


def run(c):
    for cfg in ("default", "all-features"):
        cs = cases(P.rational(cfg))
        r = c.rule("reported-%s" % cfg, "the errors of the macro about a faulty system point to exactly the names at fault and name them, and a mismatch of an annotation "
                   "tells the exponents of both sides (compile-fail witnesses, with the compiler's own account of place and text) [%s]" % cfg, 130)
        cr = W.Crate(cfg, "c25", "use diman;\n", P.uses(cfg))
        for k, case in enumerate(cs):
            cr.add(case.what, "pub mod b%d { diman::unit_system!(\n%s\n); }" % (k, case.text))
        reports(c, r, cr, cs)
        r = c.rule("placed-%s" % cfg, "an error of the grammar points into the statement that is at fault [%s]" % cfg, 30)
        cr = W.Crate(cfg, "c25-grammar", "use diman;\n", P.uses(cfg))
        ranges = []
        for k, s in enumerate(GRAMMAR):
            before, after = H + "unit p = 2 ua;\n", "unit q = 3 ub;\nconstant R = 2 ua;\n"
            cr.add(s, "pub mod b%d { diman::unit_system!(\n%s%s\n%s\n); }" % (k, before, s, after))
            lo = before.count("\n")
            ranges.append((lo, lo, s))
        places(c, r, cr, ranges)
