"""The tables of symbols in the expansion of a unit system, read from MIR text.

Every construction of a table entry (symbol, dimension, factor) is evaluated by
constant propagation over the straight-line code in front of it."""
import math, re
from fractions import Fraction as Fr
import mirrules as M


class Entry:
    def __init__(self, mod, fn, symbol, dim, factor):
        self.mod, self.fn, self.symbol, self.dim, self.factor = mod, fn, symbol, dim, factor


class Zero(dict):
    """A dimension of which all exponents are zero."""


PATH = r"(?:[\w$]+::)*"


def unquote(s):
    return re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), s).replace('\\"', '"').replace("\\\\", "\\")


def read(path):
    out = []
    for it in M.items(path):
        if "RuntimeUnit" in it.body and '"' in it.body:
            out += entries(it)
    return out


def entries(it):
    vals, fields, out = {}, {}, []

    def operand(o):
        o = re.sub(r"^(?:move|copy) ", "", o.strip())
        m = re.fullmatch(r"const (-?\d+)_i\d+", o)
        if m:
            return Fr(int(m.group(1)))
        m = re.fullmatch(r"const (-?[\d.eE+-]+|-?inf|NaN)_?f64", o)
        if m:
            return float(m.group(1))
        m = re.fullmatch(r'const "(.*)"', o)
        if m:
            return unquote(m.group(1))
        m = re.fullmatch(r"\(?(_\d+)(?:\.(\d+): .*\))?", o)
        if m and m.group(1) in vals:
            v = vals[m.group(1)]
            if m.group(2) is None:
                return v
            if isinstance(v, Zero):
                return Fr(0)
            if isinstance(v, dict):
                k = list(v)
                return v[k[int(m.group(2))]] if int(m.group(2)) < len(k) else None
        return None
    mod = it.name.split("::")[0].lstrip("<")
    m = re.match(r"<?(?:impl at |)?(\w+)::", it.name)
    for line in it.body.splitlines():
        m = re.match(r"\s+(_\d+) = (.*?)(?: -> .*)?;$", line)
        if not m:
            continue
        t, e = m.groups()
        vals.pop(t, None)
        k = re.match(PATH + r"Ratio::new\((.*?), (.*?)\)$", e)
        if k:
            a, b = operand(k.group(1)), operand(k.group(2))
            if a is not None and b:
                vals[t] = a / b
            continue
        k = re.match(PATH + r"Ratio::int\((.*?)\)$", e)
        if k:
            vals[t] = operand(k.group(1))
            continue
        if re.match(PATH + r"\w+::none\(\)$", e):
            vals[t] = Zero()
            continue
        k = re.match(PATH + r"RuntimeUnit::<.*?>::new\((.*)\)$", e)
        a = None
        if k:
            a = [operand(x) for x in M.split_top(k.group(1))]
        else:
            k = re.match(PATH + r"RuntimeUnit::<.*?> \{ (.*) \}$", e) or re.match(PATH + r"RuntimeUnit \{ (.*) \}$", e)
            if k:
                f = dict(x.split(": ", 1) for x in M.split_top(k.group(1)))
                a = [operand(f.get(n, "")) for n in ("symbol", "dimension", "magnitude")]
        if a is not None:
            out.append(Entry(mod, it.short, *(a if len(a) == 3 else [None] * 3)))
            continue
        k = re.match(r"(?:const )?" + PATH + r"\w+ \{\{? (.*) \}\}?$", e)
        if k:
            f = dict(x.split(": ", 1) for x in M.split_top(k.group(1)) if ": " in x)
            f = {n: operand(v if not re.fullmatch(r"-?\d+_i\d+", v) else "const " + v) for n, v in f.items()}
            if f and all(isinstance(v, Fr) for v in f.values()):
                vals[t] = f
            continue
        v = operand(e)
        if v is not None:
            vals[t] = v
    return out


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


def compare(es, want, base, complete):
    """(differences, number of entries that agree, undecided).  `complete`: the reader is part of the expansion."""
    bad, good, und = [], 0, []
    known = [e for e in es if isinstance(e.symbol, str) and isinstance(e.dim, dict) and isinstance(e.factor, float)]
    if len(known) < len(es):
        und.append("%d of %d entries of the tables are not constant" % (len(es) - len(known), len(es)))
    if not known and want:
        und.append("no table of symbols found")
        return bad, good, und
    fields = {snake(b): b for b in base}
    for e in known:
        if e.symbol not in want:
            bad.append((e.symbol, "%s lists the symbol %s that no unit has" % (e.fn, e.symbol)))
            continue
        d, f = want[e.symbol]
        if isinstance(e.dim, Zero):
            got = {}
        else:
            got = {fields.get(n, n): x for n, x in e.dim.items() if x}
        if got != d:
            bad.append((e.symbol, "%s: symbol %s has dimension %s, by definition %s" % (e.fn, e.symbol, show(got), show(d))))
        elif abs(e.factor - float(f)) > 1e-12 * abs(float(f)):
            bad.append((e.symbol, "%s: symbol %s has factor %r, by definition %r" % (e.fn, e.symbol, e.factor, float(f))))
        else:
            good += 1
    if not und:
        for fn in {e.fn for e in known}:
            seen = [e.symbol for e in known if e.fn == fn]
            for sym in set(seen):
                if seen.count(sym) > 1:
                    bad.append((sym, "%s lists the symbol %s %d times" % (fn, sym, seen.count(sym))))
        have = {e.symbol for e in known}
        for sym, (d, f) in want.items():
            if sym not in have and complete:
                bad.append((sym, "the symbol %s is missing in the tables" % sym))
        if complete:
            # one of the tables is that of the reader, which has all symbols
            full = max({e.fn for e in known}, key=lambda fn: len({e.symbol for e in known if e.fn == fn}))
            for sym in set(want) - {e.symbol for e in known if e.fn == full}:
                bad.append((sym, "%s does not know the symbol %s" % (full, sym)))
    return bad, good, und


def show(d):
    return "·".join("%s^%s" % (b, x) for b, x in sorted(d.items())) or "1"
