"""Unit systems: an independent reading of the definition language, and the
evaluated constants that the compiler finds in the expansion of a system.

The oracle shares nothing with the macro: it is a tokenizer, a recursive descent
reader and exact rational arithmetic.  The other side is the type of every
constant of the expansion, in which the compiler has spelled out the evaluated
dimension and magnitude (MIR text of a crate that is compiled and never run)."""
import concurrent.futures, math, os, re
from fractions import Fraction as Fr
import extract as X
import mirrules as M
import prog as P
import tables
import witness as W

PREFIXES = [("exa", "E", 18), ("peta", "P", 15), ("tera", "T", 12), ("giga", "G", 9), ("mega", "M", 6), ("kilo", "k", 3),
            ("hecto", "h", 2), ("deca", "da", 1), ("deci", "d", -1), ("centi", "c", -2), ("milli", "m", -3),
            ("micro", "μ", -6), ("nano", "n", -9), ("pico", "p", -12), ("femto", "f", -15), ("atto", "a", -18)]
FACTOR = {n: Fr(10) ** e for n, s, e in PREFIXES}
SHORT = {n: s for n, s, e in PREFIXES}

TOKEN = re.compile(r"\s+|//[^\n]*|(?P<num>\d[\d_]*(?:\.[\d_]*)?(?:[eE][+-]?\d+)?(?:[iuf]\d+)?)|(?P<id>\w+)|(?P<p>.)")


def tokens(text):
    return [m.group() for m in TOKEN.finditer(text) if m.group("num") or m.group("id") or (m.group("p") or "").strip()]


class Bad(Exception):
    pass


class Reader:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self, want=None):
        x = self.peek()
        if x is None or (want and x != want):
            raise Bad("expected %r, found %r" % (want, x))
        self.i += 1
        return x


def number(s):
    s = re.sub(r"(?<=\d|_|\.)[iuf]\d+$", "", s.replace("_", "")) if not re.fullmatch(r"[\d_]+", s) else s.replace("_", "")
    return Fr(s if not s.endswith(".") else s + "0")


class System:
    """The meaning of the text of a unit system."""

    def __init__(self, text, rational, lenient=False):
        self.text, self.rational, self.lenient = text, rational, lenient
        self.insane = []  # definitions whose value, or a part of it, is no ordinary double
        self.dims, self.units, self.consts, self.symbols = {}, {}, {}, {}
        self.base, self.base_units = [], {}
        self.qty = self.dim = None
        self._defs = {}
        self._read()
        self._eval()

    def _read(self):
        r = Reader(tokens(self.text))
        while r.peek() is not None:
            attrs = []
            while r.peek() == "#":
                r.next()
                r.next("[")
                name = r.next()
                args = None
                if r.peek() == "(":
                    r.next()
                    args = []
                    while r.peek() != ")":
                        args.append(r.next())
                    r.next(")")
                r.next("]")
                attrs.append((name, args))
            kind = r.next()
            name = r.next()
            ann = expr = None
            if r.peek() == ":":
                r.next()
                ann = r.next()
            if r.peek() == "=":
                r.next()
                expr = self._expr(r)
            if r.peek() == ";":
                r.next()
            elif r.peek() is not None:
                raise Bad("after %s: %r" % (name, r.peek()))
            self._statement(kind, name, ann, expr, attrs)

    def _expr(self, r):
        lhs = self._factor(r)
        while r.peek() not in (None, ";", ")"):
            op = "*"
            if r.peek() in "*/":
                op = r.next()
            lhs = (op, lhs, self._factor(r))
        return lhs

    def _factor(self, r):
        if r.peek() == "(":
            r.next()
            e = self._expr(r)
            r.next(")")
            return e
        sign = 1
        if r.peek() == "-":
            r.next()
            sign = -1
        x = r.next()
        v = ("num", sign * number(x)) if x[0].isdigit() else ("id", x)
        if r.peek() == "^":
            r.next()
            return ("^", v, self._exponent(r))
        return v

    def _exponent(self, r):
        def int_():
            s = 1
            if r.peek() == "-":
                r.next()
                s = -1
            return s * int(r.next().replace("_", ""))
        if r.peek() == "(":
            r.next()
            a = int_()
            r.next("/")
            b = int_()
            r.next(")")
            return Fr(a, b)
        return Fr(int_())

    def _statement(self, kind, name, ann, expr, attrs):
        if kind == "quantity_type":
            self.qty = name
        elif kind == "dimension_type":
            self.dim = name
        elif kind == "dimension":
            if expr is None:
                self.base.append(name)
            self._defs[name] = ("dim", expr)
        elif kind == "constant":
            self._defs[name] = ("const", expr)
        elif kind == "unit":
            base = [a[0] for n, a in attrs if n == "base"]
            self._defs[name] = ("unit", expr if not base else ("id", base[0]))
            if base:
                self.base_units[name] = base[0]
            prefixes, aliases, symbol = [], [], None
            for n, a in attrs:
                if n == "metric_prefixes":
                    skip = [x for x in (a or [])[2:] if x != ","]
                    prefixes += [p for p, _, _ in PREFIXES if p not in skip]
                elif n == "prefix":
                    prefixes += [x for x in a if x != ","]
                elif n == "alias":
                    aliases += [x for x in a if x != ","]
                elif n == "symbol":
                    symbol = a[0]
            if symbol:
                self.symbols[symbol] = name
            for p in [None] + prefixes:
                for al in [None] + aliases:
                    if p or al:
                        n2 = (p or "") + (al or name)
                        self._defs[n2] = ("unit", ("*", ("num", FACTOR[p] if p else Fr(1)), ("id", name)))
                        if symbol and not al:
                            self.symbols[SHORT[p] + symbol] = n2
        else:
            raise Bad("statement " + kind)

    def _eval(self):
        done = {}

        def value(e):
            d, m = value0(e)
            if not isinstance(m, (Fr, float)) or not 1e-290 < abs(m) < 1e290 or any(
                    abs(x.numerator) > 10 ** 6 or x.denominator > 10 ** 4 for x in d.values()):
                raise Bad("out of range")
            return d, m

        def value0(e):
            if e[0] == "num":
                return ({}, e[1])
            if e[0] == "id":
                return item(e[1])
            if e[0] == "^":
                d, m = value(e[1])
                k = e[2]
                if k.denominator == 1 and isinstance(m, Fr):
                    m2 = m ** int(k)
                else:
                    m2 = math.pow(float(m), float(k))
                return ({b: x * k for b, x in d.items()}, m2)
            (d1, m1), (d2, m2) = value(e[1]), value(e[2])
            s = 1 if e[0] == "*" else -1
            d = dict(d1)
            for b, x in d2.items():
                d[b] = d.get(b, Fr(0)) + s * x
            if not (isinstance(m1, Fr) and isinstance(m2, Fr)):
                m1, m2 = float(m1), float(m2)
            return (d, m1 * m2 if s == 1 else m1 / m2)

        def item(n):
            if done.get(n) == "bad":
                raise Bad("out of range")
            if n not in done:
                kind, e = self._defs[n]
                done[n] = "bad"  # until it has a value
                if kind == "dim" and e is None:
                    done[n] = ({n: Fr(1)}, Fr(1))
                else:
                    done[n] = value(e)
            return done[n]
        for n, (kind, e) in self._defs.items():
            try:
                d, m = item(n)
            except (Bad, ValueError, OverflowError, ZeroDivisionError):
                if not self.lenient:
                    raise
                self.insane.append(n)
                continue
            d = {b: x for b, x in d.items() if x}
            {"dim": self.dims, "unit": self.units, "const": self.consts}[kind][n] = (d, m)


def show(d):
    return "·".join("%s^%s" % (b, x) for b, x in sorted(d.items())) or "1"


def text(x):
    try:
        return repr(float(x))
    except OverflowError:
        return "out of range"


def close(a, b, tol=1e-12):
    try:
        a, b = float(a), float(b)
    except OverflowError:
        return a == b
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def signed(h, bits):
    x = int(h, 16)
    return x - (1 << bits) if x >> (bits - 1) else x


def read_dim(text, rational):
    """Leaf vector of a dimension constant, as MIR spells it."""
    m = re.fullmatch(r"ValTree\(Branch\(\[(.*)\]\): .*\)", text)
    if text.startswith("ValTree(Branch([]") or (m and not m.group(1)):
        return []
    if not m:
        raise X.ExtractError("dimension constant " + text[:200])
    out = []
    if rational:
        for n, d in re.findall(r"Branch\(\[Leaf\(0x([0-9a-f]+)\), Leaf\(0x([0-9a-f]+)\)\]\)", m.group(1)):
            n, d = signed(n, 64), signed(d, 64)
            out.append((n, d))
    else:
        out = [(signed(h, 64), 1) for h in re.findall(r"Leaf\(0x([0-9a-f]+)\)", m.group(1))]
    return out


def read_magnitude(text):
    m = re.fullmatch(r"ValTree\(Branch\(\[Leaf\(0x([0-9a-f]{16})\), Leaf\(0x([0-9a-f]{4})\), Leaf\(0x([0-9a-f]{2})\)\]\): .*\)", text)
    if not m:
        raise X.ExtractError("magnitude constant " + text[:200])
    man, ex, s = int(m.group(1), 16), signed(m.group(2), 16), signed(m.group(3), 8)
    return s * Fr(man) * Fr(2) ** ex


CONST = re.compile(r"^const (\S+): (.*) = \{$")


class Batch:
    """Unit systems compiled together; their constants are read from the MIR."""

    def __init__(self, config, name, tables=False):
        self.config, self.rational = config, P.rational(config)
        self.crate = W.Crate(config, name, "use diman;\n", P.uses(config))
        self.tables = tables
        self.systems = {}

    def add(self, key, text, note="", after="", lenient=False, meaning=None):
        i = len(self.systems)
        s = System(meaning or text, self.rational, lenient)
        probes = "".join("pub const __D_%s: Option<dimensions::%s<f64>> = None;\n" % (d, d) for d in s.dims)
        self.crate.add(key, "pub mod s%d {\ndiman::unit_system!(\n%s\n);\n%s%s}" % (i, text, probes, after), note or key)
        self.systems[key] = ("s%d" % i, s)
        return s

    def compile(self, chunk=6):
        """[(item, errors)] of the systems that are rejected; fills in what the others define."""
        # overlap checking is quadratic in the number of implementations of a crate: few systems at a time
        items, parts = self.crate.items, []
        n = max(1, -(-len(items) // chunk))
        for k in range(n):
            sub = W.Crate(self.config, "%s-%d" % (self.crate.name, k), self.crate.prelude, self.crate.uses)
            sub.items = items[k::n]
            parts.append(sub)
        self.found, self.entries = {}, []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return [f for fs in ex.map(self._compile, parts) for f in fs]

    def _compile(self, crate):
        items, failed = list(crate.items), []
        extra = ["-Ztrim-diagnostic-paths=no"]
        for _ in range(6):
            p, out, stray = crate.compile("mir", items, extra=extra)
            if p.returncode == 0:
                break
            bad = [it for it in items if it.errors] or crate.isolate(items, "mir")
            if not bad:
                raise X.ExtractError("unit systems fail outside of them: %s" % "\n".join(s[2] for s in stray)[-3000:])
            failed += [(it, list(it.errors)) for it in bad]
            items = [it for it in items if not it.errors]
        for line in open(out):
            m = CONST.match(line)
            if not m:
                continue
            path, ty = m.groups()
            mod, _, rest = path.partition("::")
            q = re.match(r"std::option::Option<(?:\w+::)*\w+<f64, (.*)>>$", ty)
            u = re.match(r"(?:\w+::)*\w+<(ValTree\(.*)>$", ty)
            f = self.found.setdefault(mod, dict(dims={}, units={}, consts={}))
            if q and rest.startswith("__D_"):
                f["dims"][rest[4:]] = read_dim(q.group(1), self.rational)
            elif u:
                dg = M.split_top(u.group(1))
                if len(dg) != 2 or not dg[1].endswith(("Magnitude)", "Magnitude))")):
                    continue
                d, g = dg
                kind, _, n = rest.rpartition("::")
                f["units" if kind == "units" else "consts"][n] = (read_dim(d, self.rational), read_magnitude(g))
        os.remove(out)
        if self.tables and items:
            p, out, stray = crate.compile("mir", items, extra=extra, verbose=False)
            if p.returncode:
                raise X.ExtractError("no MIR of the tables: " + p.stderr[-2000:])
            self.entries += tables.read(out)
            os.remove(out)
        return failed

    def compare_tables(self, key, complete):
        """Differences between the oracle and the tables of symbols in the expansion."""
        mod, s = self.systems[key]
        want = {sym: s.units[u] for sym, u in s.symbols.items()}
        es = [e for e in self.entries if e.mod == mod]
        return tables.compare(es, want, s.base, complete)

    def found_keys(self):
        return [k for k, (mod, s) in self.systems.items() if mod in self.found]

    def compare(self, key):
        """Differences between the oracle and the expansion: [(name, text)], and the number of facts that agree."""
        mod, s = self.systems[key]
        f = self.found.get(mod)
        if f is None:
            raise X.ExtractError("no constants of system " + key)
        bad, good = [], 0
        # the position of each base dimension, from its own alias
        pos = {}
        for b in s.base:
            v = f["dims"].get(b)
            ones = [i for i, x in enumerate(v or []) if x[0] != 0]
            if v is None or len(v) != len(s.base) or len(ones) != 1 or v[ones[0]] != (1, 1) or ones[0] in pos.values():
                bad.append((b, "base dimension %s is %s: not a dimension of its own with exponent one" % (b, v)))
            else:
                pos[b] = ones[0]
        if bad:
            return bad, good

        def vector(v):
            return {b: Fr(*v[i]) for b, i in pos.items() if v[i][0]} if v is not None else None

        def canonical(v):
            return v is None or all(d > 0 and math.gcd(n, d) == 1 for n, d in v)
        for n, (d, m) in s.dims.items():
            got = f["dims"].get(n)
            if vector(got) != d or not canonical(got):
                bad.append((n, "dimension %s is %s, by definition %s" % (n, got and show(vector(got)), show(d))))
            else:
                good += 1
        for kind, want in (("units", s.units), ("consts", s.consts)):
            for n, (d, m) in want.items():
                got = f[kind].get(n)
                if got is None:
                    bad.append((n, "%s %s is not defined by the expansion" % (kind[:-1], n)))
                    continue
                if vector(got[0]) != d or not canonical(got[0]):
                    bad.append((n, "%s %s has dimension %s, by definition %s" % (kind[:-1], n, show(vector(got[0])), show(d))))
                elif not close(got[1], m):
                    bad.append((n, "%s %s has factor %s, by definition %s" % (kind[:-1], n, text(got[1]), text(m))))
                else:
                    good += 1
            for n in f[kind]:
                if n not in want and not n.startswith("__"):
                    bad.append((n, "the expansion defines a %s %s that no statement asks for" % (kind[:-1], n)))
        return bad, good


def check(c, rule, batch, where):
    failed = batch.compile()
    rejected = {it.key for it, _ in failed}
    for it, errs in failed:
        c.bad(rule, "%s/%s" % (batch.config, it.key), "[%s] %s: valid unit system `%s` is rejected: %s" % (
            batch.config, where, it.note, errs[0][1][:300]), it.code + "\n" + errs[0][2])
    for key, (mod, s) in batch.systems.items():
        if key in rejected:
            continue
        bad, good = batch.compare(key)
        for n, text in bad:
            c.bad(rule, "%s/%s/%s" % (batch.config, key, n), "[%s] %s: system %s: %s" % (batch.config, where, key, text), s.text)
        if good:
            c.ok(rule, good, "[%s] %s: %d definitions as the oracle reads them" % (batch.config, key, good))


def meaning_or_rejected(c, rule, batch, where):
    """Spellings outside the grammar: rejected, or with their conventional meaning."""
    rejected = {it.key: errs for it, errs in batch.compile()}
    for key, (mod, s) in batch.systems.items():
        if key in rejected:
            c.ok(rule, 1, "[%s] %s -> rejected: %s" % (batch.config, key, rejected[key][0][1][:100]))
            continue
        bad, good = batch.compare(key)
        for n, text in bad[:1]:
            c.bad(rule, "%s/%s" % (batch.config, key), "[%s] %s: `%s` is accepted with another meaning than it has by convention: %s" % (
                batch.config, where, key, text), s.text)
        if not bad:
            c.ok(rule, 1, "[%s] %s -> accepted as it reads" % (batch.config, key))


NAMES = [n for n, s, e in PREFIXES]


def mixed(rnd, rational):
    """Statements with any number of attributes of every kind, in any order."""
    out, have = [], ["meter", "second", "kilogram"]
    for i in range(4):
        left, attrs = rnd.sample(NAMES, len(NAMES)), []
        if rnd.random() < 0.5:
            skip = [left.pop() for _ in range(rnd.randint(0, 5))]
            attrs.append("#[metric_prefixes(skip: %s)]" % ", ".join(skip) if skip else "#[metric_prefixes]")
            left = skip
        while left and rnd.random() < 0.5:
            attrs.append("#[prefix(%s%s)]" % (", ".join(left.pop() for _ in range(rnd.randint(1, min(4, len(left))))), rnd.choice(["", ","])))
        al = ["al%d%s" % (i, x) for x in "abcdef"]
        while al and rnd.random() < 0.5:
            attrs.append("#[alias(%s%s)]" % (", ".join(al.pop() for _ in range(rnd.randint(1, min(3, len(al))))), rnd.choice(["", ","])))
        if rnd.random() < 0.7:
            attrs.append("#[symbol(s%dy)]" % i)
        rnd.shuffle(attrs)
        kind = rnd.random()
        if kind < 0.3:
            out.append("dimension Own%d;" % i)
            if not any("symbol" in a for a in attrs):
                attrs.append("#[symbol(s%dy)]" % i)
            attrs.insert(rnd.randint(0, len(attrs)), "#[base(Own%d)]" % i)
            st = "unit u%d%s" % (i, rnd.choice(["", ": Own%d" % i]))
        else:
            st = "unit u%d = %s %s%s%s" % (i, rnd.choice(["2", "0.5 *", "1e-3", "1 *", "7"]), rnd.choice(have), rnd.choice([" * ", " / "]), rnd.choice(have) + rnd.choice(["", "^2", "^-3"] + ["^(1/2)"] * rational))
        out.append(" ".join(attrs) + " " + st + ";")
        have.append("u%d" % i)
    rnd.shuffle(out)
    return " ".join(out)
