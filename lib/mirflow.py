"""Where values come from, read off MIR: terms for the values that a function returns and the
conditions under which it returns them.

Flow-sensitive (reaching definitions) and interprocedural (calls of functions of the same MIR
text are replaced by what they return).  Transparent: copies, moves, borrows, clones, `?`,
`ok_or_else`, `map_err`.  What is not understood becomes `("unknown", why)`.

Terms: ("param", k) ("const", text) ("call", callee, args) ("op", name, args) ("cast", term, type)
("field", term, index) ("payload", term) of an Option, Result or ControlFlow ("adt", name, ((field, term), ..))
("tuple", terms) ("array", terms) ("phi", id, terms) ("rec", id) ("elem", array, index) ("writes", array, ((index, value), ..))
("unknown", why)."""
import re
import mirrules as M

LIMIT = 50000
MAP = re.compile(r"(Result|Option)::<.*>::map::<.*>$")
INFEASIBLE = ("const", "<never>")


class Unclear(Exception):
    """A term is not recognised."""


class Fn:
    def __init__(self, item):
        self.item, self.name, self.short = item, item.name, item.short
        self.blocks, self.order = {}, []
        cur = None
        self.types = {}
        for line in item.body.splitlines():
            s = hide(line.strip())
            m = re.match(r"(bb\d+)(?: \(cleanup\))?: \{$", s)
            if m:
                cur = m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
            elif s == "}":
                cur = cur if line.startswith("        ") else None
            elif cur and s:
                self.blocks[cur].append(s.rstrip(";"))
            else:
                m = re.match(r"let (?:mut )?_(\d+): (.*);$", s)
                if m:
                    self.types["_" + m.group(1)] = m.group(2)
        args, self.ret = M.signature(item) if item.kind == "fn" else ([], "")
        for k, a in enumerate(args):
            self.types["_%d" % (k + 1)] = a
        self.nargs = len(args)
        self.succ, self.calls = {}, {}
        for b, ss in self.blocks.items():
            self.succ[b] = self._succ(ss[-1]) if ss else []
        self.preds = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for _, t in ss:
                self.preds[t].append(b)
        self._defs()

    def _succ(self, s):
        m = re.match(r"goto -> (bb\d+)$", s)
        if m:
            return [(None, m.group(1))]
        m = re.match(r"switchInt\((.*)\) -> \[(.*)\]$", s)
        if m:
            return [tuple(x.split(": ")) for x in m.group(2).split(", ")]
        m = re.search(r"-> \[(?:return|success): (bb\d+)", s)
        if m:
            return [(None, m.group(1))]
        return []

    def _defs(self):
        """Definitions: (block, index) -> [(local, projection, rhs)]."""
        self.defs = {}
        self.escaped = {}  # locals whose address is taken mutably: [(block, index)]
        for b, ss in self.blocks.items():
            for i, s in enumerate(ss):
                s = re.sub(r" -> (?:\[.*\]|unwind .*|bb\d+)$", "", s) if i == len(ss) - 1 else s
                m = re.match(r"(_\d+|\(.*?\)|_\d+\[.*?\]) = (.*)$", s, re.S)
                if not m or s.startswith(("switchInt", "assert", "goto", "drop")):
                    continue
                place, rhs = split_assign(s)
                base = re.search(r"_\d+", place).group(0)
                proj = place if place != base else None
                if "*" in place:
                    continue  # through a reference: the target is marked as escaped below
                self.defs[b, i] = (base, proj, rhs)
                m = re.match(r"&mut (_\d+)$", rhs)
                if m:
                    self.escaped.setdefault(m.group(1), []).append((b, i, base))
                else:
                    m = re.match(r"&(?:raw )?mut (.*)$", rhs)
                    if m and "*" not in m.group(1):
                        self.escaped.setdefault(re.search(r"_\d+", m.group(1)).group(0), []).append((b, i, base))

    def reaching(self, local, b, i):
        """Definitions of the local that reach the point before statement i of block b."""
        out, seen, work = [], set(), [(b, i)]
        while work:
            b, i = work.pop()
            found = False
            for k in range(i - 1, -1, -1):
                d = self.defs.get((b, k))
                if d and d[0] == local:
                    out.append((b, k))
                    if d[1] is None:
                        found = True
                        break
            if found:
                continue
            if b == self.order[0]:
                out.append(None)
            for p in self.preds[b]:
                if p not in seen:
                    seen.add(p)
                    work.append((p, len(self.blocks[p])))
        return sorted(set(out), key=lambda d: (d is not None, d or ()))

    def reachable_without(self, edge):
        seen, work = set(), [self.order[0]]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for v, t in self.succ[b]:
                if (b, v) != edge:
                    work.append(t)
        return seen

    def conditions(self, block):
        """(block of the switch, value) of every edge without which the block is not reached."""
        out = []
        for b, ss in self.succ.items():
            if len(ss) > 1:
                for v, t in ss:
                    if block not in self.reachable_without((b, v)):
                        out.append((b, v, [x for x, _ in ss]))
        return out


HIDDEN = {"(": "\ue000", ")": "\ue001", "[": "\ue002", "]": "\ue003", "{": "\ue004", "}": "\ue005", "<": "\ue006", ">": "\ue007", ",": "\ue008", ":": "\ue009",
          ";": "\ue00a", "=": "\ue00b", "_": "\ue00c", " ": "\ue00d"}
SHOWN = {v: k for k, v in HIDDEN.items()}


def hide(s):
    """Protect what literals contain from being read as syntax."""
    return re.sub(r"""const ('(?:[^'\\]|\\.|\\u\{\w+\})'|b?"(?:[^"\\]|\\.)*")""",
                  lambda m: "const " + "".join(HIDDEN.get(c, c) for c in m.group(1)), s)


def unhide(s):
    return "".join(SHOWN.get(c, c) for c in s)


def split_assign(s):
    depth = 0
    for i, ch in enumerate(s):
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        elif s[i:i + 3] == " = " and depth == 0:
            return s[:i], s[i + 3:]
    raise ValueError(s)


TRANSPARENT = re.compile(
    r"(as Deref>::deref|as Clone>::clone|as IntoIterator>::into_iter|must_use::<.*>|as AsRef<.*>>::as_ref|::as_str|as Borrow<.*>>::borrow|as ToOwned>::to_owned"
    r"|<str as ToString>::to_string|as Into<.*>>::into|as Copy>::copy|String::from|<String as From<&str>>::from|core::hint::black_box::<.*>|std::convert::identity::<.*>)$")
OKNESS = re.compile(r"(as Try>::branch|Option::<.*>::ok_or_else::<.*>|Option::<.*>::ok_or::<.*>|Result::<.*>::map_err::<.*>|Result::<.*>::ok)$")


class Program:
    def __init__(self, path, stop=(), opaque=None):
        """`stop`: names of functions that are left as calls; `opaque`: callees whose arguments do not matter."""
        self.fns, self.consts, self.all = {}, {}, []
        last = None
        for it in M.items(path):
            if it.kind == "fn":
                self.fns.setdefault(it.short, []).append(it)
                it.promoted, it.closures, it.serial, last = {}, [], len(self.all), it
                self.all.append(it)
                m = re.match(r"(.*)::\{closure#(\d+)\}$", it.name)
                if m:
                    makers = [x for x in self.all if x.name == m.group(1)]
                    if makers and len(makers[-1].closures) == int(m.group(2)):
                        makers[-1].closures.append(it)
            else:
                self.consts[it.name] = it
                m = re.search(r"(.*)::(promoted\[\d+\])$", it.name)
                if m and last and m.group(1) == last.name:
                    last.promoted[m.group(2)] = it
        self.parsed, self.stop, self.opaque = {}, set(stop), opaque
        self.steps = 0

    def fn(self, item):
        if id(item) not in self.parsed:
            self.parsed[id(item)] = Fn(item)
        return self.parsed[id(item)]

    def local(self, callee):
        """The function of this text that a callee names, if there is exactly one."""
        base = re.sub(r"::<[^()]*>$", "", callee)
        short = base.rsplit("::", 1)[-1]
        if short in self.stop or " as " in callee:
            return None
        its = [it for it in self.fns.get(short, []) if "{closure" not in it.name]
        if "::" not in base or base == short:
            its = [it for it in its if not it.name.startswith("<")]
        else:
            owner = base.rsplit("::", 1)[0]
            own = re.sub(r"::<.*$|<.*$", "", owner).rsplit("::", 1)[-1]
            if any(own == x for x in ("Result", "Option", "Vec", "String", "Range", "f32", "f64")) or owner.startswith(("core", "std", "alloc", "diman", "serde", "glam")):
                return None
        return its[0] if len(its) == 1 else None


def made(s):
    """Number of closures that a statement makes."""
    return len(re.findall(r"= \{closure@", s)) + len(re.findall(r"const ZeroSized: \{closure@", s))


def closure_of(prog, t):
    """The function of a closure (a term), or None."""
    m = re.search(r"\{closure@[^}]*\}", t[1]) if t[0] in ("const", "adt") else None
    if m is None:
        return None
    m2 = re.search(r"#(\d+)\.(bb\d+)\.(\d+)$", t[1])
    if m2:
        # closures of a macro share their position: count them in the function that makes them
        maker = prog.all[int(m2.group(1))]
        f = prog.fn(maker)
        sites = [(b, i) for b in f.order for i, x in enumerate(f.blocks[b]) for _ in range(made(x))]
        here = (m2.group(2), int(m2.group(3)))
        if len(sites) == len(maker.closures) and sites.count(here) == 1:
            return maker.closures[sites.index(here)]
    hits = [it for k, its in prog.fns.items() for it in its if "{closure" in it.name and m.group(0) in prog.fn(it).types.get("_1", "")]
    return hits[0] if len(hits) == 1 else None


class Eval:
    """Terms of one activation of a function; `args` are terms."""

    def __init__(self, prog, fn, args, depth=0):
        self.p, self.f, self.args, self.depth = prog, fn, args, depth
        self.stack, self.memo = [], {}
        self.tag = "%s/%d" % (fn.short, depth)

    def site(self, b, i):
        return "#%d.%s.%d" % (self.f.item.serial, b, i)

    # values
    def use(self, op, b, i):
        """Term of an operand at a point."""
        op = op.strip()
        m = re.match(r"(?:copy|move|deref_copy) (.*)$", op, re.S)
        if m:
            return self.place(m.group(1), b, i)
        if op.startswith("const "):
            t = self.const(op[6:])
            return ("const", t[1] + self.site(b, i)) if "ZeroSized: {closure@" in op else t
        if re.match(r"^[_(]", op):
            return self.place(op, b, i)
        if re.match(r"[<\w].*\w(::<.*>)?$", op):
            return ("const", op)  # the name of a function
        return ("unknown", "operand " + op[:60])

    def const(self, t):
        t = t.strip()
        if "::promoted[" in t:
            it = self.f.item.promoted.get(re.search(r"promoted\[\d+\]$", t).group(0))
            if it is None:
                return ("unknown", "promoted " + t[:60])
            f = Fn(it)
            it.promoted = {}
            return Eval(self.p, f, [], self.depth + 1).value("_0", f.order[-1], len(f.blocks[f.order[-1]]) - 1)
        return ("const", unhide(t))

    def place(self, s, b, i):
        s = s.strip()
        if re.fullmatch(r"_\d+", s):
            return self.value(s, b, i)
        m = re.match(r"(.*)\[(_\d+)\]$", s)
        if m and balanced(m.group(1)):
            return ("elem", self.place(m.group(1), b, i), self.value(m.group(2), b, i))
        m = re.match(r"(.*)\[(\d+) of \d+\]$", s)
        if m and balanced(m.group(1)):
            return elem(self.place(m.group(1), b, i), int(m.group(2)))
        if s.startswith("(") and s.endswith(")"):
            s = s[1:-1]
            if s.startswith("*"):
                return self.place(s[1:], b, i)
            m = re.match(r"(.*) as (\w+)$", s)
            if m and balanced(m.group(1)):
                return ("as", self.place(m.group(1), b, i), m.group(2))
            # place.field: type
            k = top_colon(s)
            if k is not None:
                place, _, field = s[:k].rpartition(".")
                return field_of(self.place(place, b, i), field)
        return ("unknown", "place " + s[:60])

    def value(self, local, b, i):
        self.p.steps += 1
        if self.p.steps > LIMIT:
            return ("unknown", "too long")
        defs = self.f.reaching(local, b, i)
        key = (local, tuple(defs))
        if key in self.memo:
            return self.memo[key]
        ident = "%s:%s:%s" % (self.tag, local, "+".join("%s.%d" % d if d else "in" for d in defs))
        if key in self.stack:
            return ("rec", ident)
        self.stack.append(key)
        whole, parts = [], []
        for d in defs:
            if d is None:
                n = int(local[1:])
                if 1 <= n <= self.f.nargs:
                    whole.append(self.args[n - 1])
                continue
            _, proj, rhs = self.f.defs[d]
            if proj is None:
                whole.append(self.rhs(rhs, *d))
            else:
                m = re.match(r"_\d+\[(_\d+)\]$", proj)
                m2 = re.match(r"_\d+\[(\d+) of \d+\]$", proj)
                if m:
                    parts.append((self.value(m.group(1), *d), self.rhs(rhs, *d)))
                elif m2:
                    parts.append((("const", m2.group(1) + "_usize"), self.rhs(rhs, *d)))
                else:
                    parts.append((("unknown", "assignment to " + proj), ("unknown", "assignment to " + proj)))
        self.stack.pop()
        flat = []
        for t in whole:
            for x in (t[2] if t[0] == "phi" and t[1] == ident else [t]):
                if x != ("rec", ident) and x not in flat:
                    flat.append(x)
        out = flat[0] if len(flat) == 1 and not mentions(flat[0], ident) else ("phi", ident, tuple(flat)) if flat else ("unknown", "value of " + local)
        if parts:
            out = ("writes", out, tuple(dict.fromkeys(parts)))
        # changed through a reference?  Iterators are only ever consumed
        for eb, ei, ref in self.f.escaped.get(local, []):
            ty = self.f.types.get(local, "")
            if not re.search(r"SplitWhitespace|Split<|Range<|Iter<|Chars|Peekable|Enumerate|Formatter|Serializer", ty):
                out = ("unknown", "borrowed mutably: " + local)
        if not self.stack or not has_rec(out):
            self.memo[key] = out
        return out

    def rhs(self, r, b, i):
        r = r.strip()
        m = re.match(r"&(?:mut |raw const |raw mut |fake )?(.*)$", r)
        if m:
            return self.place(m.group(1), b, i)
        m = re.match(r"((?:copy|move) .*?|const .*?) as (.+?) \((\w+)(\(.*\))?\)$", r)
        if m and balanced(m.group(1)):
            v = self.use(m.group(1), b, i)
            return v if m.group(3) in ("PointerCoercion", "PtrToPtr") else ("cast", v, m.group(2))
        if re.match(r"(copy|move|deref_copy) ", r) and len(M.split_top(r)) == 1:
            return self.use(r, b, i)
        if r.startswith("const "):
            return self.const(r[6:])
        m = re.match(r"discriminant\((.*)\)$", r)
        if m:
            return ("discriminant", self.place(m.group(1), b, i))
        m = re.match(r"(Add|Sub|Mul|Div|Rem|Eq|Ne|Lt|Le|Gt|Ge|BitAnd|BitOr|BitXor|Neg|Not|Shl|Shr|Cmp|Len|PtrMetadata)(WithOverflow|Unchecked)?\((.*)\)$", r)
        if m:
            args = tuple(self.use(a, b, i) for a in M.split_top(m.group(3)))
            t = ("op", m.group(1), args)
            return ("tuple", (t, ("const", "false"))) if m.group(2) == "WithOverflow" else t
        if r.startswith("[") and r.endswith("]"):
            body = r[1:-1]
            k = M.split_top(body, ";")
            if len(k) == 2:
                return ("repeat", self.use(k[0], b, i), k[1].strip())
            return ("array", tuple(self.use(a, b, i) for a in M.split_top(body)))
        if r.startswith("(") and r.endswith(")"):
            return ("tuple", tuple(self.use(a, b, i) for a in M.split_top(r[1:-1])))
        m = re.match(r"(\{closure@.*?\}|[\w:<>&'_, \[\];{}()-]+?) \{ (.*) \}$", r)
        if m and not r.endswith(")"):
            fs = [x.split(": ", 1) for x in M.split_top(m.group(2))]
            name = m.group(1) + self.site(b, i) if m.group(1).startswith("{closure@") else generic_free(m.group(1))
            return ("adt", name, tuple((n, self.use(v, b, i)) for n, v in fs))
        if r.endswith(")"):
            callee, args = split_call(r)
            if callee is not None:
                if self.p.opaque and re.search(self.p.opaque, generic_free(callee)):
                    return ("call", generic_free(callee), ())
                return self.call(callee, [self.use(a, b, i) for a in M.split_top(args)], b, i)
        if re.match(r"(\w+::)*Option::<.*>::None$", r):
            return ("err",)
        if re.match(r"(?:\w+::)+[A-Z]\w*$", r):
            return ("const", r)  # a variant without fields
        return ("unknown", "rvalue " + r[:60])

    def call(self, callee, args, b, i):
        short = generic_free(callee)
        last = short.rsplit("::", 1)[-1]
        # constructors of tuple structs and variants
        terminator = i == len(self.f.blocks[b]) - 1
        if not terminator:
            if last in ("Ok", "Some", "Continue") and len(args) == 1:
                return ("ok", args[0])
            if last in ("Err", "Break"):
                return ("err",)
            return ("adt", short, tuple((str(k), a) for k, a in enumerate(args)))
        if "as FromResidual<" in callee:
            return ("err",)
        if OKNESS.search(callee):
            return ("through", args[0])
        if TRANSPARENT.search(callee) and args:
            return args[0]
        it = self.p.local(callee)
        if it is not None and self.depth < 8:
            return ("local", it.name, it, tuple(args), self.depth)
        m = re.search(r" as (?:core::ops::|std::ops::)?(Add|Sub|Mul|Div|Neg)(?:<.*>)?>::(add|sub|mul|div|neg)$", callee)
        if m:
            return ("op", m.group(1), tuple(args))
        if ITERATES.search(callee):
            return ("call", callee, tuple(args), "%s:%s.%d" % (self.tag, b, i))  # consumed as it is used: who else uses it matters
        return ("call", callee, tuple(args))


ITERATES = re.compile(r"::(r?split|r?splitn|split_whitespace|split_ascii_whitespace|split_terminator|chars|bytes|lines|iter|into_iter)(::<.*>)?$")


def balanced(s):
    return s.count("(") == s.count(")") and s.count("[") == s.count("]")


def top_colon(s):
    depth = 0
    for i, ch in enumerate(s):
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        elif s[i:i + 2] == ": " and depth == 0:
            return i
    return None


def generic_free(s):
    out, depth = "", 0
    for i, ch in enumerate(s):
        if ch == "<":
            depth += 1
        elif ch == ">" and s[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out += ch
    return re.sub(r"::(::)+", "::", out).strip(":")


def split_call(r):
    """callee and argument text of `callee(args)`."""
    depth = 0
    for i in range(len(r) - 1, -1, -1):
        if r[i] in ")]}":
            depth += 1
        elif r[i] in "([{":
            depth -= 1
            if depth == 0:
                return (r[:i], r[i + 1:-1]) if r[i] == "(" else (None, None)
    return None, None


def elem(t, k):
    if t[0] in ("array", "tuple") and k < len(t[1]):
        return t[1][k]
    return ("elem", t, ("const", "%d_usize" % k))


def field_of(t, field):
    if t[0] == "as":
        return payload(t[1]) if t[2] in ("Ok", "Some", "Continue") and field == "0" else ("unknown", "variant " + t[2])
    if t[0] == "tuple" and int(field) < len(t[1]):
        return t[1][int(field)]
    if t[0] == "adt":
        if field.isdigit() and int(field) < len(t[2]):
            return t[2][int(field)][1]
        for n, v in t[2]:
            if n == field:
                return v
    if t[0] == "phi":
        return ("phi", t[1] + "." + field, tuple(field_of(x, field) for x in t[2]))
    if t[0] == "rec":
        return ("rec", t[1] + "." + field)
    return ("field", t, field)


def payload(t):
    if t[0] == "through":
        return payload(t[1])
    if t[0] == "ok":
        return t[1]
    return ("payload", t)


def mentions(t, ident):
    if isinstance(t, tuple):
        if t[:1] == ("rec",) and len(t) == 2:
            return t[1] == ident or t[1].startswith(ident + ".")
        return any(mentions(x, ident) for x in t)
    return False


def has_rec(t):
    return isinstance(t, tuple) and (t[:1] == ("rec",) or any(has_rec(x) for x in t))


class Analysis:
    """What functions return, and when."""

    def __init__(self, prog):
        self.p = prog

    def returns(self, item, args=None, depth=0):
        """[(term, conditions, unknowns)] of the successful returns of a function: payloads for Option and Result."""
        f = self.p.fn(item)
        args = args if args is not None else [("param", "%s.%d" % (f.short, k)) for k in range(f.nargs)]
        ev = Eval(self.p, f, list(args), depth)
        out = []
        for b in f.order:
            if not f.blocks[b] or f.blocks[b][-1] != "return":
                continue
            for d in f.reaching("_0", b, len(f.blocks[b]) - 1):
                if d is None:
                    continue
                _, proj, rhs = f.defs[d]
                t = ev.rhs(rhs, *d) if proj is None else ("unknown", "assignment to " + proj)
                conds = self.conditions(ev, d[0])
                for u, cs in self.successes(t, depth) if self.result(item) else [(self.resolve(t, depth), [])]:
                    cs = conds + cs
                    if u != INFEASIBLE and not any(c == ("isok", ("err",)) and v in ("0", "1") for c, v in cs):
                        out.append((u, cs))
        return out

    def successes(self, t, depth):
        """[(payload, conditions)] of a returned term."""
        if t[0] == "err":
            return []
        if t[0] == "ok":
            return [(self.resolve(t[1], depth), [])]
        if t[0] == "through":
            return self.successes(t[1], depth)
        if t[0] == "local":
            if self.result(t[2]):
                return self.returns(t[2], [self.resolve(a, depth) for a in t[3]], depth + 1)
            return [(self.resolve(t, depth), [])]
        if t[0] == "phi":
            return [x for u in t[2] for x in self.successes(u, depth)]
        if t[0] == "call":
            return [(self.resolve(("payload", t), depth), [])]
        return [(self.resolve(t, depth), [])]

    def result(self, item):
        return re.match(r"(std::result::|core::result::)?Result<|(std::option::|core::option::)?Option<", self.p.fn(item).ret)

    def conditions(self, ev, block):
        out = []
        for b, v, values in ev.f.conditions(block):
            m = re.match(r"switchInt\((.*)\) -> ", ev.f.blocks[b][-1])
            t = ev.use(m.group(1), b, len(ev.f.blocks[b]) - 1)
            out += self.condition(t, v, values, ev.depth)
        return out

    def condition(self, t, v, values, depth):
        """Facts (term, holds) that follow from a switch on the term taking the edge v."""
        if t[0] == "discriminant":
            t = t[1]
            while t[0] == "through":
                t = t[1]
            if t[0] == "local" and self.result(t[2]):
                ok = "1" if "Option<" in self.p.fn(t[2]).ret else "0"
                # ControlFlow and Result: 0 is success.  An Option looked at directly: 1
                if v != "0" and v != ok:
                    return []
                each = self.returns(t[2], [self.resolve(a, depth) for a in t[3]], depth + 1)
                if not each:
                    return []
                common = [c for c in each[0][1] if all(c in e[1] for e in each[1:])]
                # what is said about the results in a helper is said about them here
                return common or [(("unknown", "conditions of " + t[2].short), True)] if len(each) > 1 else common
            return [(("isok", self.resolve(t, depth)), v)]
        t = self.resolve(t, depth)
        truth = {"0": False}.get(v, True if v == "otherwise" and values[:1] == ["0"] and len(values) == 2 else None)
        if truth is None:
            return [(("op", "Eq", (t, ("const", v))), True)] if v.isdigit() else []
        return [self.positive(t, truth)]

    def positive(self, t, truth):
        if t[0] == "op" and t[1] == "Not":
            return self.positive(t[2][0], not truth)
        if t[0] == "op" and t[1] == "Ne":
            return (("op", "Eq", t[2]), not truth)
        if t[0] == "call" and re.search(r"as PartialEq(<.*>)?>::(eq|ne)$", t[1]):
            return (("op", "Eq", t[2]), truth == t[1].endswith("::eq"))
        return (t, truth)

    def apply(self, f, arg, depth):
        """What a function (a term) returns for an argument, or None."""
        arg = self.resolve(arg, depth)
        it = closure_of(self.p, f)
        if it is not None and depth < 8:
            args = [f, arg]
        elif f[0] == "const" and "closure" not in f[1]:
            it = self.p.local(f[1])
            if it is None:
                return ("call", f[1], (arg,))
            args = [arg]
        else:
            return None
        if self.result(it) or len(args) != self.p.fn(it).nargs:
            return None
        outs = list(dict.fromkeys(u for u, c in self.returns(it, args, depth + 1)))
        return outs[0] if len(outs) == 1 else None

    def resolve(self, t, depth=0):
        """Replace calls of functions of this text by what they return."""
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return t
        if t[0] in ("const", "param", "rec", "unknown"):
            return t
        if t[0] == "local":
            _, name, item, args, d = t
            if depth > 8:
                return ("unknown", "depth")
            args = [self.resolve(a, depth) for a in args]
            if self.result(item):
                return ("localcall", item.short, tuple(args), tuple((u, tuple(c)) for u, c in self.returns(item, args, depth + 1)))
            outs = [u for u, c in self.returns(item, args, depth + 1)]
            outs = list(dict.fromkeys(outs))
            return outs[0] if len(outs) == 1 else ("phi", "ret:" + item.short, tuple(outs)) if outs else ("unknown", "no return of " + item.short)
        if t[0] == "through":
            return self.resolve(t[1], depth)
        if t[0] == "payload":
            x = self.resolve(t[1], depth)
            if x[0] == "ok":
                return x[1]
            if x[0] == "err":
                return INFEASIBLE
            if x[0] == "localcall":
                outs = list(dict.fromkeys(u for u, c in x[3]))
                return outs[0] if len(outs) == 1 else ("phi", "ret:" + x[1], tuple(outs)) if outs else ("unknown", "no return")
            if x[0] == "call" and MAP.search(x[1]) and len(x[2]) == 2:
                y = self.apply(x[2][1], ("payload", x[2][0]), depth)
                if y is not None:
                    return y
            return ("payload", x)
        if t[0] == "field":
            return field_of(self.resolve(t[1], depth), t[2])
        if t[0] == "as":
            return ("as", self.resolve(t[1], depth), t[2])
        return tuple(self.resolve(x, depth) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                     tuple(self.resolve(y, depth) if isinstance(y, tuple) and y and isinstance(y[0], str) else
                           (y[0], self.resolve(y[1], depth)) if t[0] == "adt" and isinstance(y, tuple) else
                           tuple(self.resolve(z, depth) for z in y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x for x in t)


def unknowns(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "unknown":
            return [t[1]]
        return [u for x in t for u in unknowns(x)]
    return []


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "param":
        return str(t[1])
    if k == "const":
        return t[1]
    if k == "call":
        return "%s(%s)" % (generic_free(t[1]) or t[1][-60:], ", ".join(map(show, t[2])))
    if k == "op":
        return "%s(%s)" % (t[1], ", ".join(map(show, t[2])))
    if k == "cast":
        return "%s as %s" % (show(t[1]), t[2])
    if k == "field":
        return "%s.%s" % (show(t[1]), t[2])
    if k == "payload":
        return show(t[1]) + "?"
    if k == "adt":
        return "%s { %s }" % (t[1], ", ".join("%s: %s" % (n, show(v)) for n, v in t[2]))
    if k in ("tuple", "array"):
        return "(%s)" % ", ".join(map(show, t[1]))
    if k == "phi":
        return "{%s}" % " | ".join(map(show, t[2]))
    if k == "rec":
        return "<previous>"
    return "%s(%s)" % (k, ", ".join(map(show, t[1:])))
