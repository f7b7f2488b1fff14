"""Reading quantities from text and numbers."""
import os, re
import dims as D
import extract as X
import llvm
import mirflow as F
import prog as P
import si_table as SI
import systems as S
import tables
import witness as W
from core import guarded, twins

TITLE = "deserialization accepts only the right dimension and applies the units' factors"
WHERE = "deserialization (crates/diman_unit_system/src/codegen/serde.rs, crates/diman_lib/src/runtime_unit_storage.rs, dimension_exponent.rs, ratio.rs)"
OPAQUE = "RuntimeUnitStorage::new$"
SYSTEMS = {
    "two": (["Length", "Time"], """dimension Length; dimension Time; dimension Area = Length^2;
        #[base(Length)] #[symbol(m)] #[prefix(kilo)] unit meter: Length; #[base(Time)] #[symbol(s)] unit second: Time;"""),
    "five": (["Mass", "A", "Time", "Money", "Length"], """dimension Mass; dimension A; dimension Time; dimension Money; dimension Length;
        #[base(Length)] #[symbol(m)] unit meter: Length; #[base(Time)] #[symbol(s)] unit second: Time; #[base(Mass)] #[symbol(g)] unit gram: Mass;
        #[base(Money)] #[symbol(c)] unit coin: Money; #[base(A)] #[symbol(a)] unit a: A; #[symbol(h)] unit hour = 3600 second;"""),
}


UNIT = dict(symbol=0, dimension=1, magnitude=2)  # position of the fields of RuntimeUnit


class Wrong(Exception):
    """What is computed is not what the property says."""


class Unclear(Exception):
    """Not recognised."""


def callee(t):
    return t[1] if t[0] == "call" else ""


def named(t, *names):
    return t[0] == "call" and F.generic_free(t[1]).rsplit("::", 1)[-1] in names or t[0] == "call" and re.search(r">::(%s)(::<.*>)?$" % "|".join(names), t[1]) is not None


def has(t, *names):
    return named(t, *names) or any(has(x, *names) for x in t if isinstance(x, tuple) and x) if isinstance(t, tuple) and t and isinstance(t[0], str) else (
        isinstance(t, tuple) and any(has(x, *names) for x in t if isinstance(x, tuple) and x))


def const(t):
    return t[1] if t[0] == "const" else None


def number(t):
    return float(re.sub(r"_?(f32|f64|[iu]\d+|usize)$", "", t[1].replace("_f", "f"))) if t[0] == "const" and re.match(r"-?[\d.]+(E[+-]?\d+)?_?(f32|f64|[iu]\d+|usize)?$", t[1]) else None


def know(t):
    u = F.unknowns(t)
    if u:
        raise Unclear(u[0])


def is_d(t):
    return t[0] == "const" and re.fullmatch(r"D|const D", t[1]) is not None


def is_none(t):
    return named(t, "none") or (t[0] == "adt" and t[1].endswith("Dimension") and all(zero(v) for n, v in t[2]))


def absent(t, text):
    """Something does not contribute to a value: only if all that does is known."""
    know(t)
    if "closure@" in repr(t):
        raise Unclear("%s, unless a closure does: %s" % (text, F.show(t)[:300]))
    raise Wrong("%s: %s" % (text, F.show(t)[:400]))


def zero(t):
    return named(t, "zero") or number(t) == 0


# units ---------------------------------------------------------------------

def loop(t, what, start, step):
    """A value accumulated over the units: (the term added at each of them)."""
    if t[0] != "phi":
        if not has(t, "get_unit_by_symbol"):
            absent(t, "%s does not depend on the units" % what)
        raise Unclear("%s: %s" % (what, F.show(t)[:300]))
    know(t)
    first = [x for x in t[2] if not F.has_rec(x) and not has(x, "get_unit_by_symbol")]
    rest = [x for x in t[2] if x not in first]
    if len(first) == 1 and len(rest) == 1:
        if not start(first[0]):
            raise Wrong("%s starts from %s" % (what, F.show(first[0])[:200]))
        if not F.mentions(rest[0], t[1]):
            raise Wrong("%s is that of the last unit alone: %s" % (what, F.show(t)[:400]))
        return step(rest[0], t[1])
    raise Unclear("%s: %s" % (what, F.show(t)[:300]))


def factor_step(t, ident):
    if t[0] == "op" and len(t[2]) == 2:
        a, b = t[2]
        rec = ("rec", ident)
        if t[1] == "Mul" and (a == rec) != (b == rec):
            return b if a == rec else a
        if t[1] in ("Add", "Sub", "Div", "Mul") and rec in (a, b):
            raise Wrong("the factors are combined by %s instead of multiplied: %s" % (t[1], F.show(t)[:300]))
    raise Unclear("factor: %s" % F.show(t)[:300])


def plain(t):
    """Checked arithmetic is the arithmetic, where it succeeds."""
    if not isinstance(t, tuple):
        return t
    t = tuple(plain(x) for x in t)
    if t[:1] == ("payload",) and t[1][:1] == ("call",) and len(t[1]) == 3 and len(t[1][2]) == 2:
        m = re.search(r"::checked_(add|sub|mul|div)$", t[1][1])
        if m:
            return ("op", m.group(1).capitalize(), t[1][2])
    return t


def dimension_step(t, ident):
    rec = ("rec", ident)
    if t[0] == "adt" and t[1].endswith("Dimension"):
        # exponent by exponent
        terms = []
        for k, (name, v) in enumerate(t[2]):
            mine = [("rec", "%s.%s" % (ident, x)) for x in (k, name)]
            if v[0] != "op" or len(v[2]) != 2:
                raise Unclear("exponent of %s: %s" % (name, F.show(v)[:300]))
            rest = [x for x in v[2] if x not in mine]
            if len(rest) != 1:
                other = [x for x in v[2] if x[0] == "rec" and x[1].startswith(ident + ".") and x not in mine]
                if other:
                    raise Wrong("the exponent of %s is added to that of another base dimension: %s" % (name, F.show(v)[:300]))
                raise Unclear("exponent of %s: %s" % (name, F.show(v)[:300]))
            if v[1] != "Add":
                raise Wrong("the exponents of %s are combined by %s instead of added: %s" % (name, v[1], F.show(v)[:300]))
            terms.append((name, rest[0]))
        whole = {x[1] for n, x in terms if x[0] == "field"}
        if len(whole) == 1 and all(x[0] == "field" and x[2] in (str(k), n) for k, (n, x) in enumerate(terms)):
            return whole.pop()
        return ("adt", t[1], tuple(terms))
    if named(t, "add", "sub", "mul", "div") and len(t[2]) == 2 and rec in t[2]:
        if not named(t, "add"):
            raise Wrong("the dimensions are combined by %s instead of added: %s" % (callee(t), F.show(t)[:300]))
        return t[2][1] if t[2][0] == rec else t[2][0]
    raise Unclear("dimension: %s" % F.show(t)[:300])


def unit(t):
    """The unit that is looked up, or None."""
    return t if t[0] == "payload" and named(t[1], "get_unit_by_symbol") else None


def exponent(t):
    """Check an exponent: that after the ^, or one."""
    alts = t[2] if t[0] == "phi" else (t,)
    for a in alts:
        if a[0] == "payload" and named(a[1], "from_printed", "parse", "from_str"):
            s = a[1][2][0]
            if named(s, "index") and number(s[2][1]) == 0:
                raise Wrong("the exponent is read from the symbol instead of from what follows the ^: %s" % F.show(a)[:200])
        elif named(a, "zero") or number(a) == 0:
            raise Wrong("a unit without an exponent gets the exponent zero: %s" % F.show(t)[:300])
        elif not named(a, "one") and number(a) != 1:
            raise Unclear("exponent: %s" % F.show(a)[:200])
    if not any(a[0] == "payload" for a in alts):
        raise Wrong("the exponent that is written does not matter: %s" % F.show(t)[:300])


def symbol(u):
    s = u[1][2][1]
    for a in s[2] if s[0] == "phi" else (s,):
        if named(a, "index") and number(a[2][1]) not in (0, None):
            raise Wrong("the symbol of the unit is read from what follows the ^")


def one_factor(t):
    """The factor of one unit: (unit, exponent)."""
    if not has(t, "get_unit_by_symbol"):
        absent(t, "the factor does not depend on the unit")
    if not has(t, "from_printed", "parse"):
        absent(t, "the factor does not depend on the unit's exponent")
    x = t
    if named(x, "into_f64"):
        x = x[2][0]
    if named(x, "float_pow") and len(x[2]) == 2:
        m, e = x[2]
        if named(m, "from_f64"):
            m = m[2][0]
        if m[0] == "field" and unit(m[1]):
            if m[2] != str(UNIT["magnitude"]):
                raise Wrong("the factor is not the magnitude of the unit: %s" % F.show(m)[:200])
            exponent(e)
            symbol(unit(m[1]))
            return unit(m[1]), e
        if has(m, "from_printed") and not has(e, "from_printed"):
            raise Wrong("the exponent is raised to the magnitude: %s" % F.show(t)[:300])
    raise Unclear("factor of a unit: %s" % F.show(t)[:300])


def one_dimension(t, bases):
    if t[0] != "adt" or not t[1].endswith("Dimension") or len(t[2]) != bases:
        if not has(t, "get_unit_by_symbol"):
            absent(t, "the dimension does not depend on the unit")
        if not has(t, "from_printed", "parse"):
            absent(t, "the dimension does not depend on the unit's exponent")
        raise Unclear("dimension of a unit: %s" % F.show(t)[:300])
    found = set()
    for k, (name, v) in enumerate(t[2]):
        if not has(v, "get_unit_by_symbol") or not has(v, "from_printed", "parse"):
            absent(v, "the exponent of %s does not depend on the unit and its exponent" % name)
        if v[0] != "op" or len(v[2]) != 2:
            raise Unclear("exponent of %s: %s" % (name, F.show(v)[:300]))
        a, b = v[2]
        if not (a[0] == "field" and a[1][0] == "field" and unit(a[1][1])):
            a, b = b, a
        if not (a[0] == "field" and a[1][0] == "field" and unit(a[1][1])):
            raise Unclear("exponent of %s: %s" % (name, F.show(v)[:300]))
        if v[1] != "Mul":
            raise Wrong("the exponent of %s is combined by %s with that of the unit: %s" % (name, v[1], F.show(v)[:300]))
        if a[1][2] != str(UNIT["dimension"]):
            raise Unclear("exponent of %s: %s" % (name, F.show(v)[:300]))
        if a[2] not in (str(k), name):
            raise Wrong("the exponent of %s is computed from that of another base dimension (%s)" % (name, a[2]))
        exponent(b)
        symbol(unit(a[1][1]))
        found.add((unit(a[1][1]), b))
    return found


# numbers -------------------------------------------------------------------

def precision(t, ty):
    """Strip conversions; an f64 must not pass through f32."""
    while t[0] == "cast":
        if ty == "f64" and t[2] == "f32":
            raise Wrong("a double precision value passes through single precision: %s" % F.show(t)[:200])
        if t[2] not in ("f32", "f64"):
            raise Wrong("a value passes through %s: %s" % (t[2], F.show(t)[:200]))
        t = t[1]
    return t


def parsed(t, ty):
    """The text that a number is parsed from."""
    t = precision(t, ty)
    if t[0] == "payload" and named(t[1], "parse", "from_str"):
        m = re.search(r"parse::<(\w+)>$|^<(\w+) as .*FromStr>::from_str$", t[1][1])
        got = m and (m.group(1) or m.group(2))
        if got == "f32" and ty == "f64":
            raise Wrong("a double precision number is parsed in single precision")
        if got in ("f32", "f64"):
            return t[1][2][0]
        if got:
            raise Wrong("the number is parsed as %s" % got)
    return None


def product(t, ty):
    """Factors of a product."""
    t = precision(t, ty)
    if t[0] == "op" and t[1] == "Mul":
        return product(t[2][0], ty) + product(t[2][1], ty)
    return [t]


def components(t, ty, n):
    """A vector of n parsed numbers."""
    t = precision(t, ty)
    if not named(t, "from_array", "new", "from") and t[0] != "adt":
        return False
    if named(t, "new"):
        args = t[2]
        for k, a in enumerate(args):
            s = parsed(a, ty)
            if s is None or not named(s, "index"):
                return False
            if number(s[2][1]) is not None and number(s[2][1]) != k:
                raise Wrong("component %d is read from substring %d" % (k, number(s[2][1])))
        return len(args) == n
    a = t[2][0]
    if a[0] == "array":
        for k, x in enumerate(a[1]):
            s = parsed(x, ty)
            if s is None or not named(s, "index"):
                return False
            if number(s[2][1]) is not None and number(s[2][1]) != k:
                raise Wrong("component %d is read from substring %d" % (k, number(s[2][1])))
        return len(a[1]) == n
    if a[0] != "writes" or len(a[2]) != 1:
        return False
    at, v = a[2][0]
    s = parsed(v, ty)
    if s is None:
        if not has(v, "parse", "from_str"):
            raise Wrong("the components are not the numbers that are read: %s" % F.show(v)[:300])
        return False
    if s[0] == "field" and at[0] == "field" and (s[1], s[2], at[2]) == (at[1], "1", "0"):
        # enumerated
        x = at[1]
        if x[0] != "payload" or not named(x[1], "next") or not named(x[1][2][0], "enumerate"):
            return False
        if any(named(y, "take", "skip", "step_by", "rev", "filter") for y in subterms(x)):
            raise Wrong("the components are not the numbers in their order: %s" % F.show(x)[:300])
        return not any("closure@" in repr(y) for y in subterms(x))
    if named(s, "index") and len(s[2]) == 2:
        if s[2][1] != at:
            raise Wrong("component %s is read from substring %s" % (F.show(at)[:100], F.show(s[2][1])[:100]))
    else:
        return False
    if at[0] == "payload" and named(at[1], "next") and at[1][2][0][0] == "adt" and at[1][2][0][1].endswith("Range"):
        lo, hi = (number(v) for k, v in at[1][2][0][2])
        if lo is not None and hi is not None and (lo, hi) != (0, n):
            raise Wrong("only components %d to %d of %d are read" % (lo, hi, n))
        return lo is not None and hi is not None
    return False


def value(t, store):
    """The value of a quantity that is read from text."""
    know(t)
    ty, n = P.VECTORS.get("glam::" + store, (store, 0))
    fs = product(t, ty)
    fac = [x for x in fs if x[0] == "phi"]
    num = [x for x in fs if (components(x, ty, n) if n else parsed(x, ty) is not None)]
    rest = [x for x in fs if x not in fac and x not in num and number(x) != 1]
    if not has(t, "get_unit_by_symbol"):
        absent(t, "the value does not depend on the units")
    if not has(t, "parse", "from_str"):
        absent(t, "the value does not depend on the number")
    for x in rest:
        if number(x) is not None:
            raise Wrong("the value is multiplied by %s" % F.show(x))
        if x[0] == "op" and x[1] in ("Add", "Sub", "Div"):
            raise Wrong("the number and the factor are combined by %s: %s" % (x[1], F.show(x)[:300]))
        raise Unclear("value: %s" % F.show(x)[:300])
    if len(num) != 1 or len(fac) != 1:
        raise Wrong("the value is a product of %d numbers and %d factors: %s" % (len(num), len(fac), F.show(t)[:400]))
    u = one_factor(loop(fac[0], "the factor", lambda x: number(x) == 1, factor_step))
    every(u[0], num[0])
    return u


def every(u, num):
    """All the words that follow the number are units: none is left out."""
    read = {x[3] for x in subterms(num) if x[0] == "call" and len(x) == 4 and any(y[0] == "call" and named(y, "next") and y[2][0] == x for y in subterms(num))}
    for x in subterms(u[1][2][1]):
        if x[0] == "call" and named(x, "next"):
            for y in subterms(x[2]):
                if named(y, "take", "step_by", "filter", "take_while", "skip_while", "map_while", "filter_map"):
                    raise Wrong("not all units are read: %s" % F.show(x)[:300])
                if named(y, "skip") and number(y[2][1]) != 0:
                    src = [z for z in subterms(y[2][0]) if z[0] == "call" and len(z) == 4]
                    if any(z[3] in read for z in src) or any(z[0] == "field" and named(z[1], "split_at") and z[2] == "1" for z in subterms(y[2][0])):
                        raise Wrong("not all units are read: %s" % F.show(x)[:300])
                    if number(y[2][1]) != 1:
                        raise Wrong("not all units are read: %s" % F.show(x)[:300])


def gate(conds, bases):
    """The term that is compared to the quantity's dimension before it is returned."""
    fields, bad = {}, None
    for t, holds in conds:
        if not (isinstance(t, tuple) and t[0] == "op" and t[1] == "Eq"):
            continue
        a, b = t[2]
        if is_d(a):
            a, b = b, a
        if is_d(b):
            if holds is True:
                return a
            bad = "the dimensions are accepted when they differ"
        for x, y in ((a, b), (b, a)):
            if y[0] == "field" and is_d(y[1]) and holds is True:
                fields[y[2]] = x
    if bad:
        raise Wrong(bad)
    if fields:
        if len(fields) < bases:
            raise Wrong("only the exponents %s of the dimensions are compared" % ", ".join(sorted(fields)))
        whole = {x[1] for x in fields.values() if x[0] == "field"}
        if len(whole) == 1 and all(x[0] == "field" and x[2] == k for k, x in fields.items()):
            return whole.pop()
        raise Unclear("comparison of exponents")
    for t, holds in conds:
        know(t)
        if t[0] == "phi" or (t[0] == "op" and t[1] in ("BitAnd", "BitOr", "BitXor")):
            alts = t[2]
            dims = [x for x in alts if eq_d(x)]
            if dims and len(dims) < len(alts) and holds is True and t[1] != "BitAnd":
                raise Wrong("other conditions than the equality of the dimensions suffice: %s" % F.show(t)[:300])
            if dims:
                raise Unclear("comparison of dimensions: %s" % F.show(t)[:300])
        if has(t, "eq", "ne", "cmp", "partial_cmp") and (mentions_d(t)):
            raise Unclear("comparison of dimensions: %s" % F.show(t)[:300])
        if t[0] not in ("isok", "op", "call", "const", "payload"):
            raise Unclear("condition: %s" % F.show(t)[:300])
        if mentions_d(t):
            raise Unclear("condition on the dimension: %s" % F.show(t)[:300])
    raise Wrong("a quantity is returned without comparing the dimension that is read to its own")


def eq_d(t):
    return (t[0] == "op" and t[1] == "Eq" or has(t, "eq")) and mentions_d(t)


def mentions_d(t):
    return isinstance(t, tuple) and (len(t) > 1 and isinstance(t[0], str) and is_d(t) or any(mentions_d(x) for x in t if isinstance(x, tuple)))


def ended(conds):
    """Units are read until there are none left."""
    return any(t[0] == "isok" and named(t[1], "next") and v == "0" for t, v in conds if isinstance(t, tuple))


def quantity(t):
    if t[0] == "adt" and t[1].endswith("Quantity") and len(t[2]) == 1:
        return t[2][0][1]
    return None


def visitors(prog, quantity_ty="Quantity"):
    """The functions that return a deserialized quantity."""
    out = []
    for its in prog.fns.values():
        for it in its:
            f = prog.fn(it)
            m = re.match(r"(?:std::result::)?Result<(?:\w+::)*%s<(?:glam::)?(\w+), D>" % quantity_ty, f.ret)
            if m:
                out.append((it, m.group(1), f))
    return out


def judge(prog, it, store, f, bases):
    """What holds of a function that returns a deserialized quantity."""
    a = F.Analysis(prog)
    prog.steps = 0
    texts = []
    rets = a.returns(it)
    if not rets:
        return "never succeeds"
    for t, conds in rets:
        t, conds = plain(t), plain(tuple(conds))
        q = quantity(t)
        if q is None:
            if t[0] == "payload" and named(t[1], "deserialize_string", "deserialize_str", "deserialize_any", "deserialize"):
                texts.append("delegates to the deserializer")
                continue
            raise Unclear("result: %s" % F.show(t)[:300])
        dim = gate(conds, bases)
        if it.short in ("visit_str", "visit_string", "visit_borrowed_str") or has(q, "parse", "get_unit_by_symbol"):
            if is_none(dim):
                raise Unclear("text for a dimensionless quantity")
            u = value(q, store)
            know(dim)
            d = one_dimension(loop(dim, "the dimension", is_none, dimension_step), bases)
            if d != {u}:
                raise Unclear("the dimension and the factor are those of different units")
            if not ended(conds):
                raise Wrong("a quantity is returned before all units are read")
            texts.append("number * product of factor^exponent, if the sum of dimension * exponent == D")
        else:
            if not is_none(dim):
                raise Wrong("a bare number is accepted if %s == D" % F.show(dim)[:200])
            x = precision(q, P.VECTORS.get("glam::" + store, (store, 0))[0])
            if x[0] != "param":
                know(x)
                raise Unclear("value: %s" % F.show(q)[:200])
            texts.append("the number, if D is dimensionless")
    return "; ".join(dict.fromkeys(texts))


def stands_for(t, part):
    """The term without one of its parts."""
    if t == part:
        return ("part",)
    return tuple(stands_for(x, part) for x in t) if isinstance(t, tuple) else t


def whole(q, conds, n):
    """What a vector is read from is the whole text in front of the units: nothing outside of or besides its components is left out."""
    texts = {}
    for x in subterms(q):
        if x[0] == "call" and "<str as" in x[1] and named(x, "index") and len(x[2]) == 2 and x[2][1][0] == "adt":
            ends = dict(x[2][1][2])
            for y in subterms(ends.get("start", ("const", ""))):
                if named(y, "find", "rfind") and y[2][0] == x[2][0]:
                    texts[x] = (y, ends)
        if x[0] == "field" and x[1][0] == "payload" and named(x[1][1], "split_once", "rsplit_once") and x[2] == "1" and len(x[1][1][2]) == 2 and "'('" in repr(x[1][1][2][1]):
            if not any(y == ("field", x[1], "0") for t, v in conds for y in subterms(t) if t[0] != "isok"):
                raise Wrong("the text in front of the vector is not looked at: %s" % F.show(x)[:300])
            raise Unclear("text in front of the vector: %s" % F.show(x)[:300])
    if not texts:
        raise Unclear("where the components are in the text: %s" % F.show(q)[:100])
    for x, (find, ends) in texts.items():
        at = ("payload", find)
        left = [(stands_for(t, x), v) for t, v in conds]
        first = any(t == at and v is False or t == ("op", "Eq", t[2]) and at in t[2] and any(number(z) == 0 for z in t[2]) and v is True for t, v in left if t[0] in ("payload", "op"))
        first = first or any(named(t, "starts_with") and v is True and x[2][0] in t[2] for t, v in left)
        if not first:
            if any(y == at for t, v in left if t[0] != "isok" for y in subterms(t)):
                raise Unclear("text in front of the vector")
            raise Wrong("the text in front of the vector is not looked at: it is found by %s" % F.show(find)[:300])
        b = ends["start"]
        if b[0] == "op" and b[1] == "Add" and b[2][0] == at and number(b[2][1]) not in (None, 1):
            raise Wrong("the vector is read from %s bytes after its bracket" % F.show(b[2][1]))
        e = ends.get("end")
        if e and e[0] == "op" and e[1] == "Sub" and named(e[2][0], "len") and number(e[2][1]) not in (None, 1):
            src = x[2][0]
            if src[0] == "field" and src[2] == "0" and named(src[1], "split_at") and named(e[2][0], "len") and e[2][0][2][0] == src:
                raise Wrong("the vector is read up to %s bytes in front of the end of its brackets" % F.show(e[2][1]))
    counts = [t for t, v in conds if v is True and t[0] == "op" and t[1] == "Eq" and any(number(z) == n for z in t[2])
              and any(named(z, "len", "count") for z in t[2]) and any(y in texts for y in subterms(t))]
    if not counts:
        if any(t[0] != "isok" and any(number(y) == n for y in subterms(t)) for t, v in conds):
            raise Unclear("number of components")
        if sum(1 for t, v in conds if t[0] == "isok" and named(t[1], "next", "get", "nth", "try_into", "try_from", "as_array", "as_slice")
               and any(y in texts for y in subterms(t))) > n:
            raise Unclear("number of components")
        raise Wrong("a vector of any number of components is accepted")
    return "the components are all the text there is in front of the units, and %d of them" % n


PRELUDE = """diman::unit_system!(
quantity_type Quantity; dimension_type Dimension;
%s
);
"""


def texts(c, cfg):
    r = c.rule("provenance-%s" % cfg, "of every function of the expansion that returns a deserialized quantity: all its successful returns are reached only if the "
               "dimension that was read equals the quantity's, what is returned is the number (each component) times a product, over all units, of "
               "magnitude^exponent, and the dimension is the sum of exponent * dimension of the same units; a bare number is returned unchanged and only if the "
               "quantity is dimensionless (reaching definitions and edge dominance on MIR, through helper functions) [%s]" % cfg, 20)
    rw = c.rule("whole-%s" % cfg, "a vector is read from text only if nothing stands in front of its brackets and as many words are in them as it has "
                "components (conditions that dominate the successful returns) [%s]" % cfg, 4)
    for name, (bases, text) in SYSTEMS.items():
        cr = W.Crate(cfg, "c15-" + name, PRELUDE % text, P.uses(cfg))
        cr.add("nothing", "pub fn nothing() {}")
        prog = mir_of(c, r, cr)
        if prog is None:
            continue
        for it, store, f in visitors(prog):
            label = "[%s] system %s: %s of a quantity of %s" % (cfg, name, it.short, store)
            if it.short not in ("deserialize",) and not it.short.startswith("visit_"):
                continue  # a helper: judged where it is used
            decide(c, r, label, "%s/%s/%s/%s" % (cfg, name, store, it.short), it, lambda: judge(prog, it, store, f, len(bases)))
            n = P.VECTORS.get("glam::" + store, (store, 0))[1]
            if n and it.short in ("visit_str", "visit_string", "visit_borrowed_str"):
                def all_of_it():
                    prog.steps = 0
                    out = {whole(quantity(t), conds, n) for t, conds in F.Analysis(prog).returns(it) if quantity(t) is not None}
                    return "; ".join(out)
                decide(c, rw, label, "%s/%s/%s/%s" % (cfg, name, store, it.short), it, all_of_it)


def decide(c, r, label, key, it, f):
    try:
        c.ok(r, 1, "%s: %s" % (label, f()))
    except Wrong as e:
        c.bad(r, key, "%s: %s: %s" % (label, WHERE, e), it.header + " {\n" + it.body[-6000:])
    except Unclear as e:
        c.undecide(r, "%s: %s" % (label, e))


@guarded
def mir_of(c, r, cr):
    failed, out = cr.must_compile("mir", verbose=False)
    prog = F.Program(out, opaque=OPAQUE)
    os.remove(out)
    return prog


# the library -----------------------------------------------------------------

LOOSE = ("eq_ignore_ascii_case", "starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix", "to_lowercase", "to_uppercase", "to_ascii_lowercase",
         "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "find", "cmp", "len", "chars", "bytes",
         "first", "last", "nth", "get")


def fields_of_unit(prog):
    """Position of each field of RuntimeUnit."""
    for it in prog.fns.get("new", []):
        m = re.search(r"_0 = RuntimeUnit(?:::<.*?>)? \{ (.*) \};", it.body)
        if m:
            return {x.split(": ")[0]: k for k, x in enumerate(F.M.split_top(m.group(1)))}
    raise X.ExtractError("no construction of RuntimeUnit")


def lookup(prog, it, index):
    """The unit that is found by its symbol has just this symbol."""
    f = prog.fn(it)
    symbol = ("param", "%s.1" % it.short)
    rets = F.Analysis(prog).returns(it)
    if not rets:
        raise Wrong("no unit is ever found")
    for t, conds in rets:
        if named(t, "find") or t[0] == "payload" and named(t[1], "find"):
            call = t if t[0] == "call" else t[1]
            clo = F.closure_of(prog, call[2][1])
            if clo is None:
                raise Unclear("predicate: %s" % F.show(call[2][1])[:200])
            captured = [n for n, v in call[2][1][2] if v == symbol] if call[2][1][0] == "adt" else []
            names = [n for n, v in call[2][1][2]] if call[2][1][0] == "adt" else []
            unit, sym = ("param", "unit"), ("param", "symbol")
            env = ("adt", "captured", tuple((n, sym if n in captured else ("unknown", n)) for n in names))
            found = F.Analysis(prog).returns(clo, [env, unit])
            for u, cs in found:
                u = u[1] if u[0] == "payload" and u[1][0] == "call" else u
                equal([(u, True)] if const(u) != "true" else cs, unit, sym, index)
        else:
            whole = t[1] if t[0] == "ok" else t
            equal(conds, whole, symbol, index)
    return "the unit whose symbol equals the one that is asked for"


def equal(conds, unit, sym, index):
    good = False
    for t, holds in conds:
        while t[0] == "op" and t[1] == "Not":
            t, holds = t[2][0], not holds
        if t[0] == "call" and named(t, "eq", "ne") and len(t[2]) == 2:
            t, holds = ("op", "Eq", t[2]), holds == named(t, "eq")
        if const(t) in ("true", "false"):
            if (const(t) == "true") == holds:
                raise Wrong("any unit is taken")
            return
        if t[0] == "op" and t[1] == "Eq" and sym in t[2]:
            o = t[2][0] if t[2][1] == sym else t[2][1]
            if o == ("field", unit, str(index["symbol"])):
                if not holds:
                    raise Wrong("a unit is found if its symbol is another than the one that is asked for")
                good = True
                continue
        bad = [n for n in LOOSE if has(t, n)]
        if bad and F.mentions is not None and occurs(t, sym) and not good:
            raise Wrong("the symbol of the unit that is found is compared by %s: %s" % (", ".join(bad), F.show(t)[:300]))
    if not good:
        raise Unclear("lookup: %s" % "; ".join(F.show(t)[:200] for t, h in conds))


def occurs(t, x):
    return t == x or isinstance(t, tuple) and any(occurs(y, x) for y in t)


def integer(prog, t, text):
    """A term is the integer that is read from a text: strip what does not change it."""
    while True:
        if t[0] == "cast":
            if t[2] not in ("i64", "i32", "i128", "isize"):
                raise Wrong("the exponent passes through %s: %s" % (t[2], F.show(t)[:200]))
            t = t[1]
        elif t[0] == "payload" and named(t[1], "map", "ok", "filter"):
            call = t[1]
            if named(call, "map") and not (const(call[2][1]) or "").endswith(("from_int", "::from", "::into", "::int")):
                raise Unclear("exponent: %s" % F.show(t)[:200])
            t = ("payload", call[2][0])
        elif named(t, "from_int", "int", "from", "into") and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    if t[0] == "payload" and named(t[1], "parse", "from_str"):
        m = re.search(r"parse::<(\w+)>$|^<(\w+) as .*FromStr>::from_str$", t[1][1])
        ty = m and (m.group(1) or m.group(2))
        if ty in ("i32", "i64", "i128", "isize"):
            if t[1][2][0] == text:
                return
            if not occurs(text, t[1][2][0]) and t[1][2][0][0] in ("field", "param"):
                raise Wrong("the exponent is read from %s instead of %s" % (F.show(t[1][2][0]), F.show(text)))
        elif ty:
            raise Wrong("the exponent is parsed as %s" % ty)
    if t[0] == "op" and t[1] in ("Neg", "Add", "Sub", "Mul", "Div") or const(t):
        raise Wrong("the exponent is not the number that is read: %s" % F.show(t)[:200])
    raise Unclear("exponent: %s" % F.show(t)[:200])


def printed(prog, it):
    """from_printed: an integer, or num/denom."""
    s = ("param", "%s.0" % it.short)
    prog.steps = 0
    rets = F.Analysis(prog).returns(it)
    if not rets:
        raise Wrong("no exponent is ever read")
    said = []
    for t, conds in rets:
        t0 = t
        if named(t, "new") and len(t[2]) == 2 or t[0] == "adt" and t[1].endswith("Ratio") and len(t[2]) == 2:
            if t[0] == "adt":
                if const(t[2][1][1]) and number(t[2][1][1]) == 1:
                    integer(prog, t[2][0][1], s)
                    said.append("the integer")
                    continue
                raise Unclear("a ratio that may not be reduced: %s" % F.show(t)[:200])
            a, b = t[2]
            halves = [x for x in subterms(t) if x[0] == "payload" and named(x[1], "split_once")]
            if len(set(halves)) != 1 or halves[0][1][2][0] != s or "/" not in (const(halves[0][1][2][1]) or ""):
                raise Unclear("a ratio of %s" % F.show(t)[:300])
            integer(prog, a, ("field", halves[0], "0"))
            integer(prog, b, ("field", halves[0], "1"))
            said.append("numerator and denominator")
        else:
            integer(prog, t, s)
            said.append("the integer")
    if "ratio" in it.name and "numerator and denominator" not in said:
        raise Wrong("a rational exponent is never read")
    return ", ".join(said)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def library(c, cfg):
    r = c.rule("library-%s" % cfg, "a unit is found by its symbol only if the symbols are equal; an exponent is the integer, or the ratio, that is written "
               "(reaching definitions on the MIR of the library) [%s]" % cfg, 3)
    prog = F.Program(X.mir("lib", cfg, verbose=False))
    index = fields_of_unit(prog)
    for it in prog.fns.get("get_unit_by_symbol", []):
        decide(c, r, "[%s] %s" % (cfg, it.short), "%s/get_unit_by_symbol" % cfg, it, lambda: lookup(prog, it, index))
    for it in prog.fns.get("from_printed", []):
        which = "Ratio" if "ratio" in it.name else "i64"
        decide(c, r, "[%s] %s of %s" % (cfg, it.short, which), "%s/from_printed/%s" % (cfg, which), it, lambda: printed(prog, it))
    return index


def powers(c, cfg):
    r = c.rule("powers-%s" % cfg, "the factor of a unit to an exponent: the same optimised IR as powi, and powf of the ratio [%s]" % cfg, 2)
    tw = W.Twins(cfg, "c15-powers", "use diman::internal::{ratio::Ratio, dimension_exponent::DimensionExponent as E, magnitude::Magnitude as M};", P.uses(cfg))
    tw.add("i64", "(m: M, e: i64) -> M", "E::float_pow(m, e)", "(m: M, e: i64) -> M", "M::from_f64(m.into_f64().powi(e as i32))",
           ["M::from_f64(m.into_f64().powi(i32::try_from(e).unwrap()))"])
    tw.add("Ratio", "(m: M, e: Ratio) -> M", "E::float_pow(m, e)", "(m: M, e: Ratio) -> M", "M::from_f64(m.into_f64().powf(e.num() as f64 / e.denom() as f64))")
    twins(c, r, tw, "power of a magnitude (crates/diman_lib/src/dimension_exponent.rs, ratio.rs)")


NUMBERS = ("f64", "f32", "i64", "u64", "i32", "u8")
ERROR = """use serde::{Deserialize, de::IntoDeserializer};
#[derive(Debug)] pub struct Bad;
impl core::fmt::Display for Bad { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
impl std::error::Error for Bad {}
impl serde::de::Error for Bad { fn custom<T: core::fmt::Display>(t: T) -> Self { Bad } }
pub fn read<'a, T: Deserialize<'a>, V: IntoDeserializer<'a, Bad>>(v: V) -> Option<T> { T::deserialize(v.into_deserializer()).ok() }
"""


def numbers(c, cfg):
    """Bare numbers, through the public interface of serde."""
    r = c.rule("numbers-%s" % cfg, "deserializing a bare number: the number itself for a dimensionless quantity (the same optimised IR as the conversion), "
               "always an error for any other (the IR returns nothing but an error) [%s]" % cfg, 30)
    rational = P.rational(cfg)
    T = P.Types(cfg)
    tw = P.LazyTwins(cfg, "c15-numbers", T, P.uses(cfg), ERROR)
    n = 7
    rest = []
    dims = [tuple([0] * n)]
    for k in range(n):
        dims.append(tuple(1 if i == k else 0 for i in range(n)))
    dims += [tuple([-1] * n), (1, -1, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 0, -2)]
    if rational:
        dims.append((0, 0, D.Fr(1, 2), 0, 0, 0, 0))
    for v in dims:
        for s in P.storages(cfg):
            for x in NUMBERS:
                q = T.q(tuple(D.Fr(e) for e in v), s)
                key = "%s -> quantity of %s, dimension (%s)" % (x, s, ", ".join(map(str, v)))
                if any(v) or s not in P.FLOATS:
                    rest.append((key, x, q))
                else:
                    tw.add(key, "(x: %s) -> Option<%s>" % (x, s), "read::<%s, %s>(x).map(|q| q.0)" % (q, x), "(x: %s) -> Option<%s>" % (x, s), "Some(x as %s)" % s)
    twins(c, r, tw, WHERE)
    cr = P.LazyCrate(cfg, "c15-refused", T, P.uses(cfg), ERROR)
    for k, (key, x, q) in enumerate(rest):
        if k % 7 in (0, 3) or c.tier == "thorough":
            cr.add(key, "#[no_mangle] pub fn w_%d(x: %s) -> bool { read::<%s, %s>(x).is_some() }" % (len(cr.items), x, q, x))
    refused(c, r, cr)


@guarded
def refused(c, r, cr):
    failed, out = cr.must_compile("llvm-ir", opt=True)
    bad = {it.key for it, _ in failed}
    for it, errs in failed:
        c.bad(r, "%s/%s" % (cr.config, it.key), "[%s] %s: %s: rustc rejects the witness: %s" % (cr.config, WHERE, it.key, errs[0][1]), it.code + "\n" + errs[0][2])
    fns, aliases, _ = llvm.parse(open(out).read())
    os.remove(out)
    for k, it in enumerate(cr.items):
        if it.key in bad:
            continue
        f = fns[aliases.get("w_%d" % k, "w_%d" % k)]
        rets = re.findall(r"\bret (?:i1 )?(\S+)", llvm.canon(f))
        if rets and set(rets) == {"false"}:
            c.ok(r, 1, "[%s] %s: ret i1 false" % (cr.config, it.key))
        elif rets and set(rets) == {"true"}:
            c.bad(r, "%s/%s" % (cr.config, it.key), "[%s] %s: %s: a bare number is accepted for a quantity that is not dimensionless" % (cr.config, WHERE, it.key), it.code)
        else:
            c.undecide(r, "[%s] %s: %s" % (cr.config, it.key, llvm.canon(f)))


KNOWN = {
    "prefixes": "#[metric_prefixes] #[symbol(x)] #[alias(foos)] unit foo = 0.5 meter / second^2; #[symbol(h)] unit hour: Time = 3600 second; unit nameless = 7 meter;",
    "small": "#[symbol(h)] unit hour = 3.6e3 * second; #[symbol(lp)] unit small = 1e-35 meter; #[symbol(neg)] unit negative = -2.5 * meter^-3;",
    "one": "#[symbol(v)] unit v = meter / second; #[symbol(Ω)] #[prefix(micro, giga)] unit ohm = kilogram^2 / v; #[symbol(pct)] unit percent = 0.01;",
}


def symbols(c, cfg):
    r = c.rule("symbols-%s" % cfg, "the table that the reader looks symbols up in has all symbols of the system, each with the dimension and factor of its unit "
               "(constants of the expansion; oracle: an independent reading of the definitions, and a table of the SI) [%s]" % cfg, 450)
    b = S.Batch(cfg, "c15-symbols", tables=True)
    for key, text in KNOWN.items():
        b.add(key, S11 + text)
    table(c, r, b)
    want = SI.expand()[1]
    es = [e for e in tables.read(X.mir("diman", cfg, verbose=False)) if e.symbol in want or e.symbol is None]
    tell(c, r, cfg, "SI", tables.compare(es, want, SI.BASE, True))


@guarded
def table(c, r, b):
    for it, errs in b.compile():
        c.bad(r, "%s/%s" % (b.config, it.key), "[%s] %s: valid unit system `%s` is rejected: %s" % (b.config, WHERE, it.key, errs[0][1][:300]), it.code + "\n" + errs[0][2])
    for key in b.found_keys():
        tell(c, r, b.config, key, b.compare_tables(key, True))


def tell(c, r, cfg, key, found):
    bad, good, und = found
    for n, text in bad:
        c.bad(r, "%s/%s/%s" % (cfg, key, n), "[%s] %s: system %s: %s" % (cfg, WHERE, key, text))
    if good:
        c.ok(r, good, "[%s] %s: %d entries" % (cfg, key, good))
    for u in und:
        c.undecide(r, "[%s] %s: %s" % (cfg, key, u))


S11 = """quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension Mass;
#[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second; #[base(Mass)] #[symbol(kg)] unit kilogram;
"""


def run(c):
    for cfg in ("no-rational", "all-features"):
        symbols(c, cfg)
        UNIT.update(library(c, cfg))
        texts(c, cfg)
        powers(c, cfg)
        numbers(c, cfg)
