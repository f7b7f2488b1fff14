"""Reading never panics: every place of the readers that could panic is found, and shown not to."""
import os, re
import extract as X
import mirflow as F
import prog as P
import witness as W
from C15 import PRELUDE, SYSTEMS, OPAQUE, const, named, number, subterms, mir_of

TITLE = "reading a text never panics"
WHERE = "deserialization (crates/diman_unit_system/src/codegen/serde.rs and what it calls in crates/diman_lib)"


class Wrong(Exception):
    """It panics for some input."""


class Unclear(Exception):
    """Not recognised."""


# What there is ------------------------------------------------------------------

UNWRAP = re.compile(r"(?:Option|Result)::<.*>::(unwrap|expect|unwrap_err|expect_err|unwrap_unchecked)(?:::<.*>)?$")
INDEX = re.compile(r"as (?:std::ops::|core::ops::)?Index(?:Mut)?<.*>>::index(?:_mut)?$")
SPLIT = re.compile(r"<impl (?:str|\[.*\])>::(split_at|split_at_mut)$|String::split_off$")
PANIC = re.compile(r"panicking::|begin_panic|panic_fmt|panic_display|assert_failed|unreachable_display|panic_explicit|panic_const|^panic$|::panic_str|process::(abort|exit)$|unreachable_unchecked$")
OTHERS = re.compile(r"::(copy_from_slice|clone_from_slice|swap_remove|remove|insert|drain|chunks|chunks_exact|windows|step_by|rotate_left|rotate_right|swap|copy_within|replace_range|insert_str"
                    r"|div_euclid|rem_euclid|ilog2|ilog10|isqrt|unchecked_add|unchecked_mul|get_unchecked|borrow_mut)(::<.*>)?$")
FALLIBLE = ("parse", "from_str", "from_printed", "get_unit_by_symbol", "find", "rfind", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "nth", "get", "last", "first",
            "checked_add", "checked_mul", "checked_sub", "checked_div", "checked_neg", "checked_pow", "try_from", "try_into", "next_back", "position", "pop", "split_first", "split_last", "to_digit",
            "read_unit_str", "read_single_unit_str", "from_utf8", "min", "max", "min_by", "max_by", "find_map", "rsplit", "new", "try_fold", "collect")
WRAPS = re.compile(r"<impl [iu]\d+>::(wrapping|saturating|overflowing|unchecked)_(add|mul|sub|neg|pow|div)$")


class Source:
    """Where a function comes from."""

    def __init__(self, prog, lib):
        self.prog, self.lib = prog, lib
        self.owners = {}

    def owner(self, it):
        """(trait, type) of the impl block of a function of the library, as its source spells them."""
        if it.name not in self.owners:
            m = re.search(r"<impl at (\S+?):(\d+):(\d+): (\d+):(\d+)>::[\w{}#]+$", it.name)
            out = (None, None)
            if m and os.path.isfile(os.path.join(X.REPO, m.group(1))):
                line = open(os.path.join(X.REPO, m.group(1))).read().split("\n")[int(m.group(2)) - 1]
                text = F.generic_free(line[int(m.group(3)) - 1:].replace("impl<", "impl <")).replace("impl", "", 1).strip(" {")
                tr, _, ty = text.rpartition(" for ")
                out = (tr.strip().rsplit("::", 1)[-1] or None, ty.strip().rsplit("::", 1)[-1])
            self.owners[it.name] = out
        return self.owners[it.name]

    def callee(self, name):
        """(program, function) that is called, if it is one of the library or of the expansion."""
        base = re.sub(r"::<[^()]*>$", "", name)
        m = re.match(r"<(.*) as ([\w:]+).*>::(\w+)$", base)
        if m:
            ty, tr, fn = F.generic_free(m.group(1)).rsplit("::", 1)[-1].strip("&' "), m.group(2).rsplit("::", 1)[-1], m.group(3)
        else:
            tr = None
            parts = F.generic_free(base).split("::")
            fn, ty = parts[-1], parts[-2] if len(parts) > 1 and parts[-2][:1].isupper() else None
            if base.startswith(("core::", "std::", "alloc::", "serde::", "glam::")):
                return None
        for it in self.lib.fns.get(fn, []):
            if "{closure" in it.name:
                continue
            if self.owner(it) == (tr, ty) or (ty is None and tr is None and "<impl" not in it.name and fn == it.name):
                return self.lib, it
        hits = [it for it in self.prog.fns.get(fn, []) if "{closure" not in it.name]
        if ty is None:
            hits = [it for it in hits if "<impl" not in it.name and it.name.rsplit("::", 1)[-1] == fn]
        else:
            def mine(it):
                f = self.prog.fn(it)
                first = F.generic_free(re.sub(r"^&(?:'\{erased\} )?(?:mut )?", "", f.types.get("_1", "") if f.nargs else f.ret)).rsplit("::", 1)[-1]
                return first == ty
            hits = [it for it in hits if "<impl" in it.name and mine(it)]
            if tr is not None and ty not in ("Dimension", "Quantity", "QuantityVisitor"):
                return None
        # constant functions appear twice, once as they are evaluated when compiling
        return (self.prog, hits[0]) if len({it.header for it in hits}) == 1 else None


def calls(prog, it):
    """(block, callee, arguments) of every call."""
    f = prog.fn(it)
    for b in f.order:
        if not f.blocks[b]:
            continue
        s = f.blocks[b][-1]
        t = re.sub(r" -> (?:\[.*\]|unwind .*|bb\d+)$", "", s)
        if s.startswith(("switchInt", "goto", "return", "drop", "assert", "resume", "unreachable")) or " = " not in t or t == s and " -> " not in s:
            continue
        try:
            place, rhs = F.split_assign(t)
        except ValueError:
            continue
        name, args = F.split_call(rhs)
        if name is not None:
            yield b, name, [a for a in F.M.split_top(args) if a]


def reached(src):
    """The functions that reading can get to: [(program, function)]."""
    work = [(src.prog, it) for it in src.prog.all if (it.short.startswith("visit_") or it.short in ("deserialize", "expecting")) and "{closure" not in it.name]
    seen, out = set(), []
    while work:
        prog, it = work.pop(0)
        if id(it) in seen:
            continue
        seen.add(id(it))
        out.append((prog, it))
        for x in it.closures:
            work.append((prog, x))
        for b, name, args in calls(prog, it):
            if src.prog.opaque and re.search(src.prog.opaque, F.generic_free(name)):
                continue
            to = src.callee(name)
            if to is not None:
                work.append(to)
    return out


# Bounds -------------------------------------------------------------------------

def width(ty):
    m = re.fullmatch(r"([iu])(8|16|32|64|128|size)", ty or "")
    if not m:
        return None
    n = 64 if m.group(2) == "size" else int(m.group(2))
    return (-(1 << n - 1), (1 << n - 1) - 1) if m.group(1) == "i" else (0, (1 << n) - 1)


def interval(t, ty, bits):
    """Bounds of an integer term of a type; `bits`: of the exponents that are read."""
    full = width(ty) or (-(1 << 127), 1 << 127)

    def clip(v):
        return v if full[0] <= v[0] and v[1] <= full[1] else full
    if t[0] == "const":
        m = re.match(r"(-?\d+)_?\w*$", t[1])
        return (int(m.group(1)),) * 2 if m else full
    if t[0] == "cast":
        inner = interval(t[1], SRC.get(t[1]) or "i128", bits)
        return inner if full[0] <= inner[0] and inner[1] <= full[1] else full
    if t[0] == "op":
        if t[1] == "BitAnd":
            c = [interval(x, ty, bits) for x in t[2] if x[0] == "const"]
            if c and c[0][0] >= 0:
                return (0, c[0][0])
        a, b = (interval(x, ty, bits) for x in t[2]) if len(t[2]) == 2 else (full, full)
        if t[1] in ("Add", "Sub", "Mul"):
            g = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y}[t[1]]
            v = [g(x, y) for x in a for y in b]
            return clip((min(v), max(v)))
        if t[1] == "Div" and b[0] == b[1] and b[0] > 0:
            v = [abs(x) // b[0] * (1 if x >= 0 else -1) for x in a]
            return (min(v), max(v))
        if t[1] == "Shr" and a[0] >= 0 and b[0] == b[1]:
            return (a[0] >> b[0], a[1] >> b[0])
    if t[0] == "phi":
        vs = [interval(x, ty, bits) for x in t[2]]
        if not F.has_rec(t):
            return (min(v[0] for v in vs), max(v[1] for v in vs))
        return full
    return full


SRC = {}  # types of terms


def folded(t):
    """Value of a constant, also of a converted one that fits every type."""
    while t[0] == "cast":
        k = number(t[1])
        if k is not None and 0 <= k < 128:
            return k
        t = t[1]
    return number(t)


def text_like(ty):
    return re.search(r"\bstr\b|String|SplitWhitespace|Split<|Chars", ty or "") is not None


# Judging one place ----------------------------------------------------------------

class Judge:
    def __init__(self, src, prog, it, bits):
        self.src, self.prog, self.it, self.f, self.bits = src, prog, it, prog.fn(it), bits
        self.a = F.Analysis(prog)
        prog.steps = 0
        self.ev = F.Eval(prog, self.f, [("param", "%s.%d" % (self.f.short, k)) for k in range(self.f.nargs)])
        self.memo = {}

        self.outer, self.captured = None, ()
        if "{closure" in it.name:
            for up in prog.all:
                if it not in up.closures or "{closure" in up.name:
                    continue
                f = prog.fn(up)
                sites = [(b, i) for b in f.order for i, x in enumerate(f.blocks[b]) for _ in range(F.made(x))]
                if len(sites) != len(up.closures):
                    continue
                b, i = sites[up.closures.index(it)]
                m = re.search(r"= \{closure@[^}]*\} (?:\{ (.*) \})?", f.blocks[b][i])
                if m and m.group(1):
                    self.outer, self.made = Judge(src, prog, up, bits), b
                    self.captured = tuple(self.a.resolve(self.outer.ev.use(x.split(": ", 1)[1], b, i)) for x in F.M.split_top(m.group(1)))

    def back(self, t):
        """A captured variable as the function that makes the closure has it."""
        if not isinstance(t, tuple) or not t or not self.captured:
            return t
        if t[0] == "field" and t[1] == ("param", "%s.0" % self.f.short) and t[2].isdigit() and int(t[2]) < len(self.captured):
            return self.captured[int(t[2])]
        return tuple(self.back(x) for x in t)

    def term(self, op, b):
        return self.a.resolve(self.ev.use(op, b, len(self.f.blocks[b]) - 1))

    def before(self, op, b):
        """Term of an operand, or of what a mutable reference refers to."""
        t = self.term(op, b)
        m = re.match(r"(?:copy|move) (_\d+)$", op)
        if F.unknowns(t) and m:
            for d in self.f.reaching(m.group(1), b, len(self.f.blocks[b]) - 1):
                r = re.match(r"&mut (_\d+)$", self.f.defs[d][2]) or re.match(r"&mut \((_\d+)\.(\d+): .*\)$", self.f.defs[d][2]) if d else None
                if r and self.comes_around(b) and not [e for e, (local, proj, rhs) in self.f.defs.items() if local == r.group(1) and proj is None and e[0] in self.comes_around(b)]:
                    return ("rec", r.group(1))
                for e in self.f.reaching(r.group(1), *d) if r else ():
                    if e and self.f.defs[e][1] is None:
                        # what the assignment itself leaves there comes around in a loop
                        own, here = ("unknown", "borrowed mutably: " + r.group(1)), ("rec", r.group(1))
                        def around(x):
                            return here if x == own else tuple(around(z) for z in x) if isinstance(x, tuple) else x
                        out = self.a.resolve(around(self.ev.rhs(self.f.defs[e][2], *e)))
                        return out if r.lastindex == 1 else ("field", out, r.group(2))
        return t

    def comes_around(self, b):
        """The blocks of the loops around a block."""
        def reach(x):
            seen, work = set(), [t for v, t in self.f.succ.get(x, [])]
            while work:
                y = work.pop()
                if y not in seen:
                    seen.add(y)
                    work += [t for v, t in self.f.succ.get(y, [])]
            return seen
        after = reach(b)
        return {x for x in after if b in reach(x)} if b in after else set()

    def conds(self, b):
        if b not in self.memo:
            self.memo[b] = self.a.conditions(self.ev, b)
        return self.memo[b]

    def possible(self, b):
        """The block can be reached, as far as constants tell."""
        for t, holds in self.conds(b):
            if t[0] == "op" and t[1] in ("Eq", "Lt", "Gt", "Le", "Ge") and len(t[2]) == 2:
                x, y = (number(z) for z in t[2])
                if x is not None and y is not None:
                    v = {"Eq": x == y, "Lt": x < y, "Gt": x > y, "Le": x <= y, "Ge": x >= y}[t[1]]
                    if v != holds:
                        return False
            if const(t) in ("true", "false") and (const(t) == "true") != holds:
                return False
        # a switch on a constant
        for blk, v, values in self.f.conditions(b):
            m = re.match(r"switchInt\((.*)\) -> ", self.f.blocks[blk][-1])
            k = number(self.term(m.group(1), blk)) if m else None
            if k is not None and (v == "otherwise" and any(x.lstrip("-").isdigit() and int(x) == k for x in values) or v != "otherwise" and v.lstrip("-").isdigit() and int(v) != k):
                return False
        return True

    def mentions(self, b, part):
        return [c for c in self.conds(b) if any(y == part for y in subterms(c[0]))]

    def elsewhere(self, b, *parts):
        """A question about one of the terms is asked on some of the ways to the block, not on all of them."""
        always = {blk for blk, v, values in self.f.conditions(b)}
        before, work = set(), [self.f.order[0]]
        while work:
            x = work.pop()
            if x not in before and x != b:
                before.add(x)
                work += [t for v, t in self.f.succ.get(x, [])]
        for blk, ss in self.f.succ.items():
            if len(ss) < 2 or blk in always or blk not in before or not self.f.blocks[blk][-1].startswith("switchInt"):
                continue
            seen, work = set(), [t for v, t in ss]
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work += [t for v, t in self.f.succ.get(x, [])]
            if b not in seen:
                continue
            m = re.match(r"switchInt\((.*)\) -> ", self.f.blocks[blk][-1])
            t = self.term(m.group(1), blk)
            if t[0] == "discriminant":
                t = t[1]
                while t[0] == "through":
                    t = t[1]
                if t in parts:
                    return True
            elif any(y == p for p in parts for y in subterms(t)):
                return True
        return False

    # unwrap, expect
    def unwrap(self, b, name, args):
        x = self.term(args[0], b)
        if x[0] == "ok":
            return "always a value"
        if x == ("err",):
            raise Wrong("%s of what is never a value" % name)
        for t, v in self.conds(b):
            if t[0] == "isok" and t[1] == x and v in ("0", "1"):
                good = "1" if "Option" in name.split("::<")[0] else "0"
                if v == good:
                    return "looked at before"
                raise Wrong("%s where there is no value" % name)
            if t[0] == "call" and named(t, "is_some", "is_ok") and x in t[2] and v is True or t[0] == "call" and named(t, "is_none", "is_err") and x in t[2] and v is False:
                return "looked at before"
        y = x
        while y[0] in ("call", "payload", "through") and (y[0] != "call" or re.search(r"(Option|Result)::<.*>::(ok|ok_or|ok_or_else|map|map_err|filter|and_then|copied|cloned|as_ref)(::<.*>)?$", y[1])):
            if y[0] == "call" and re.search(r"::(filter|and_then)(::<.*>)?$", y[1]):
                break
            y = y[1] if y[0] != "call" else y[2][0]
        if y[0] == "localcall":
            raise Wrong("%s of the result of %s, which fails for some texts" % (F.generic_free(name), y[1])) if len(y[3]) and not self.conds(b) else Unclear("result of %s" % y[1])
        if y[0] != "call":
            raise Unclear("%s of %s" % (F.generic_free(name), F.show(x)[:200]))
        short = F.generic_free(y[1]).rsplit("::", 1)[-1]
        m = re.search(r">::(\w+)(?:::<.*>)?$", y[1])
        short = m.group(1) if m else short
        subject = y[2][0] if y[2] else None
        if short == "next":
            origin = subject
            if not any(z[0] == "call" and named(z, "split_whitespace", "chars", "bytes", "split_ascii_whitespace", "char_indices", "filter", "filter_map", "skip") for z in subterms(origin)):
                raise Unclear("first part of %s" % F.show(origin)[:200])
        elif short not in FALLIBLE:
            raise Unclear("%s of %s" % (F.generic_free(name), F.show(x)[:200]))
        if subject is not None:
            if number(subject) is not None or const(subject):
                raise Unclear("%s of a constant" % short)
            if any(t != ("isok", subject) and not (t[0] == "isok") for t, v in self.mentions(b, subject)) or any(
                    t[0] == "isok" and t[1] != subject and any(z == subject for z in subterms(t[1][2] if t[1][0] == "call" else ())) for t, v in self.mentions(b, subject)):
                raise Unclear("%s, after something was asked about its text" % F.show(x)[:200])
        if self.prog is self.src.lib and not any(text_like(self.f.types.get("_%d" % (k + 1))) for k in range(self.f.nargs)):
            if short in ("try_from", "try_into", "new") and self.bits is not None and self.bits <= 31:
                return "exponents that are read have %d bits" % self.bits
            if self.checked() and re.search(r"checked_(add|mul|sub)(::<.*>)?$", y[1]) and not [t for t, v in self.conds(b) if t[0] != "isok"] and any(z[0] == "param" for z in subterms(y)):
                raise Wrong("%s of %s, which fails for large exponents" % (F.generic_free(name).rsplit("::", 1)[-1], F.show(x)[:200]))
            raise Unclear("%s of an argument" % short)
        if "{closure" in self.it.name:
            parent = [i for i in self.prog.all if self.it in i.closures]
            if parent and len(re.findall(r"::%s(::<|\()" % short, parent[0].body + "".join(z.body for z in parent[0].closures))) > 1:
                raise Unclear("%s in a closure, where it was tried before" % short)
        how, text = self.text_of(x) if short in ("next", "next_back", "nth", "get", "first", "last", "pop", "split_first", "split_last") else (None, None)
        if text is not None and [1 for t, v in self.mentions(b, text) if t[0] != "isok"]:
            raise Unclear("%s of %s, after something was asked" % (short, F.show(x)[:200]))
        if self.elsewhere(b, x, *[z for z in (subject, text) if z is not None]):
            raise Unclear("%s of %s, after something was asked" % (short, F.show(x)[:200]))
        raise Wrong("%s of %s, which fails for some texts" % (F.generic_free(name).rsplit("::", 1)[-1], F.show(x)[:200]))

    # indices
    def length(self, v, b):
        """Bounds that the conditions give for the length of a list."""
        lo, hi, other = 0, None, False
        for t, holds in self.conds(b):
            hit = [y for y in subterms(t) if y == v]
            if not hit:
                continue
            done = False
            if t[0] == "op" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and len(t[2]) == 2:
                x, y = t[2]
                op = t[1]
                if number(x) is not None:
                    x, y, op = y, x, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
                k = number(y)
                is_len = x[0] == "call" and named(x, "len") and x[2][0] == v or x[0] == "op" and x[1] in ("Len", "PtrMetadata") and x[2][0] == v
                if k is not None and is_len and isinstance(holds, bool):
                    if not holds:
                        op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
                    if op == "Eq":
                        lo, hi = max(lo, k), k
                    elif op in ("Ge", "Gt"):
                        lo = max(lo, k + (op == "Gt"))
                    elif op in ("Le", "Lt"):
                        hi = k - (op == "Lt")
                    elif op == "Ne" and k == 0:
                        lo = max(lo, 1)
                    done = True
            if t[0] == "call" and named(t, "is_empty") and t[2][0] == v and isinstance(holds, bool):
                lo, done = (max(lo, 1) if not holds else lo), True
            other = other or not done and t[0] != "isok"
        how, text = self.text_of(v)
        if named(how or ("", ""), "split", "rsplit") and len(how[2]) > 1:
            for t, holds in self.conds(b):
                if named(t, "contains") and holds is True and len(t[2]) > 1 and t[2][0] == text and t[2][1] == how[2][1]:
                    lo = max(lo, 2)
        return lo, hi, other

    def text_of(self, v):
        """The text that a list of parts is made of."""
        for y in subterms(v):
            if y[0] == "call" and named(y, "split", "split_whitespace", "splitn", "rsplit", "rsplitn", "split_terminator", "chars", "bytes", "as_bytes", "split_ascii_whitespace", "char_indices") and y[2]:
                return y, y[2][0]
        return None, None

    def index(self, b, v, k):
        if self.back(v) != v:
            return self.outer.index(self.made, self.back(v), self.back(k))
        lo, hi, other = self.length(v, b)
        if number(k) is not None:
            need = number(k)
        elif k[0] == "payload" and named(k[1], "next") and k[1][2][0][0] == "adt" and k[1][2][0][1].endswith("Range"):
            end = dict(k[1][2][0][2]).get("end") or k[1][2][0][2][-1][1]
            if named(end, "len") and end[2][0] == v:
                return "a range up to its length"
            need = number(end)
            if need is None:
                raise Unclear("index %s" % F.show(k)[:200])
            need -= 1
        else:
            raise Unclear("index %s" % F.show(k)[:200])
        if lo > need:
            return "at least %d parts, as was asked before" % lo
        how, text = self.text_of(v)
        if text is None:
            raise Unclear("index into %s" % F.show(v)[:200])
        if named(how, "split", "rsplit", "splitn", "rsplitn") and need == 0 and not any(named(y, "filter", "skip", "filter_map") for y in subterms(v)):
            return "there is always a first part"
        if other:
            raise Unclear("index %d of %s" % (need, F.show(v)[:200]))
        if [1 for t, h in self.mentions(b, text) if t[0] != "isok" and not any(y == v for y in subterms(t)) and not (named(t, "contains") and lo == 2)]:
            raise Unclear("index %d, after something was asked about the text" % need)
        if self.elsewhere(b, v, text):
            raise Unclear("index %d of %s" % (need, F.show(v)[:200]))
        raise Wrong("part %d of a text is used although there may be only %d: index %s of %s" % (need + 1, lo, F.show(k)[:80], F.show(v)[:160]))

    def slice(self, b, s, ends):
        """A text is cut at an offset."""
        if self.captured and (self.back(s) != s or any(self.back(e) != e for e in ends)):
            return self.outer.slice(self.made, self.back(s), [self.back(e) for e in ends])
        for e in ends:
            if e[0] == "op" and e[1] == "Sub" and named(e[2][0], "len") and number(e[2][1]) and e[2][0][2][0] == s and s[0] in ("param", "payload", "phi"):
                if not self.mentions(b, s) and not self.elsewhere(b, s):
                    raise Wrong("the last bytes of a text are cut off, whatever it is: %s" % F.show(s)[:160])
        found = [e for e in ends if any(y[0] == "call" and named(y, "find", "rfind", "len", "char_indices", "len_utf8", "position", "floor_char_boundary", "rposition") for y in subterms(e))]
        fixed = [number(e) for e in ends if number(e) is not None]
        if len(found) == len(ends):
            return "cut where something was found in it"
        if all(k == 0 for k in fixed) and len(found) + len(fixed) == len(ends):
            return "cut where something was found in it"
        if any(k for k in fixed) and len(found) + len(fixed) == len(ends):
            def measured(t):
                return any(y[0] == "call" and y[2] and any(z == s for z in subterms(y[2])) and not named(y, "find", "rfind", "trim", "split_at", "parse", "contains", "split_whitespace",
                           "next", "collect", "to_string", "index", "split") for y in subterms(t)) or any(y[0] == "op" and s in y[2] for y in subterms(t))
            if fixed[0] > 1 and not any(measured(t) for t, h in self.mentions(b, s)) and not self.elsewhere(b, s):
                raise Wrong("a text is cut at the fixed offset %s, whatever its length: %s" % (fixed[0], F.show(s)[:160]))
            if any(t[0] != "isok" or not named(t[1], "find", "rfind", "next", "parse") for t, h in self.mentions(b, s)):
                raise Unclear("cut at a fixed offset, after something was asked about the text")
            if self.elsewhere(b, s):
                raise Unclear("cut at a fixed offset, after something was asked about the text")
            raise Wrong("a text is cut at the fixed offset %s, whatever its length: %s" % (fixed[0], F.show(s)[:160]))
        raise Unclear("cut at %s" % ", ".join(F.show(e)[:80] for e in ends))

    # explicit panics
    def panic(self, b, name):
        if not self.possible(b):
            return "the case does not exist"
        conds = [(t, v) for t, v in self.conds(b) if const(t) is None]
        if not conds:
            raise Wrong("%s is reached whatever the text" % F.generic_free(name)) if not self.f.conditions(b) else Unclear("panic under conditions that are not recognised")
        if any(F.unknowns(t) for t, v in conds):
            raise Unclear("panic under conditions that are not recognised")
        if self.it.short == "new" and self.prog is self.src.lib:
            def isnt(t, v):
                if t == ("param", "new.1"):
                    return v is False or v == "0"
                return v is True and t[0] == "op" and t[1] == "Eq" and ("param", "new.1") in t[2] and any(number(z) == 0 for z in t[2])
            if any(isnt(t, v) for t, v in conds):
                return "only for a denominator of zero: what the callers pass is judged there"
        if self.prog is self.src.lib and not any(text_like(self.f.types.get("_%d" % (k + 1))) for k in range(self.f.nargs)):
            if self.it.short in ("new", "from_f64", "into_f64", "get_unit_by_symbol", "checked_add", "checked_mul") or self.it.short == "float_pow":
                params = [y for t, v in conds for y in subterms(t) if y[0] == "param"]
                if params:
                    raise Wrong("panics if %s" % "; ".join("%s is %s" % (F.show(t)[:120], v) for t, v in conds))
            raise Unclear("panic in %s" % self.it.short)
        asked = [t[1] for t, v in conds if t[0] == "isok"]
        if len(asked) != len(set(map(repr, asked))):
            raise Unclear("panic after the same question was asked twice")
        for t, v in conds:
            if t[0] == "isok" and t[1][0] == "call" and named(t[1], "next") and v == "0":
                continue
            for y in subterms(t):
                if y[0] == "param" or y[0] == "call" and named(y, *FALLIBLE):
                    if (len(conds) == 1 or t[0] == "isok") and not self.elsewhere(b, t[1] if t[0] == "isok" else t):
                        raise Wrong("panics if %s" % "; ".join("%s is %s" % (F.show(t)[:120], v) for t, v in conds))
        raise Unclear("panic if %s" % "; ".join("%s is %s" % (F.show(t)[:80], v) for t, v in conds))

    # arithmetic
    def carried(self, t):
        """Accumulated over the parts of a text."""
        if t[0] == "field":
            return self.carried(t[1])
        m = re.match(r"(\w+)/\d+:_\d+:(bb\d+\.\d+(?:\+bb\d+\.\d+)+)\.", t[1] + ".") if t[0] == "phi" else None
        if m and m.group(1) == self.f.short:
            # set before a loop and in it
            sites = [x.split(".")[0] for x in m.group(2).split("+")]
            if any(b in self.f.succ and (loop := self.comes_around(b)) and not all(x in loop for x in sites) for b in sites):
                return True
        if t[0] == "phi" and len(t[2]) == 1 and t[2][0] != t and t[2][0][0] == "phi":
            return self.carried(t[2][0])
        return t[0] in ("phi", "rec") and ("rec" in repr(t) or t[0] == "rec") or "{closure" in self.it.name and t[0] == "param" and "fold" in self.around()

    def passed(self, t, depth=0):
        """The callers pass something accumulated for the arguments that a term is about (functions of the expansion)."""
        mine = {y[1] for y in subterms(t) if y[0] == "param" and y[1].startswith(self.f.short + ".") and y[1].rsplit(".", 1)[1].isdigit()}
        if self.prog is self.src.lib or "{closure" in self.it.name or not mine or depth > 3:
            return False
        for prog, it in self.src.reached:
            if prog is not self.prog or it is self.it:
                continue
            for b, name, args in calls(prog, it):
                if F.generic_free(name).rsplit("::", 1)[-1] == self.f.short and self.src.callee(name) == (self.prog, self.it):
                    j = Judge(self.src, prog, it, self.bits)
                    for k in sorted(mine):
                        a = j.before(args[int(k.rsplit(".", 1)[1])], b)
                        if j.carried(a) or j.passed(a, depth + 1):
                            return True
        return False

    def checked(self):
        """A function that computes whatever can be represented: its arguments have no bounds."""
        return re.search(r"(^|::)checked_\w+(::\{closure#\d+\})*$", self.it.name) is not None

    def around(self):
        parent = [i for i in self.prog.all if self.it in i.closures]
        return " ".join(re.findall(r"::(\w*fold\w*)::", parent[0].body)) if parent else ""

    def overflow(self, b, s):
        m = re.search(r'"attempt to (?:compute|negate|calculate) `([^`]*)`', s) or re.search(r'attempt to (\w+)', s)
        # the checked operation
        src = re.match(r"assert\(!move \((_\d+)\.1: bool\)", s)
        if src is None:
            return self.division(b, s)
        defs = [d for d in self.f.reaching(src.group(1), b, len(self.f.blocks[b]) - 1) if d is not None]
        if len(defs) != 1:
            raise Unclear("arithmetic")
        rhs = self.f.defs[defs[0]][2]
        mm = re.match(r"(Add|Sub|Mul|Shl|Shr|Neg)WithOverflow\((.*)\)$", rhs)
        ty = re.match(r"\((\w+), bool\)", self.f.types.get(src.group(1), ""))
        if not mm or not ty:
            raise Unclear("arithmetic %s" % rhs[:100])
        ops = F.M.split_top(mm.group(2))
        for o in ops:
            loc = re.match(r"(?:copy|move) (_\d+)$", o)
            if loc:
                SRC[self.a.resolve(self.ev.use(o, *defs[0]))] = self.f.types.get(loc.group(1))
        x, y = (self.a.resolve(self.ev.use(o, *defs[0])) for o in ops)
        self.types_of_casts((x, y))
        full = width(ty.group(1))
        wide = {"Add": lambda p, q: p + q, "Sub": lambda p, q: p - q, "Mul": lambda p, q: p * q}.get(mm.group(1))
        if wide is None:
            raise Unclear("arithmetic %s" % rhs[:100])
        v = [wide(p, q) for p in interval(x, ty.group(1), self.bits) for q in interval(y, ty.group(1), self.bits)]
        if full and full[0] <= min(v) and max(v) <= full[1]:
            return "%d to %d fits" % (min(v), max(v))
        return self.exponents(mm.group(1), ty.group(1), x, y, b)

    def types_of_casts(self, terms):
        for t in terms:
            for y in subterms(t):
                if y[0] == "param":
                    SRC.setdefault(y, self.f.types.get("_%d" % (int(y[1].rsplit(".", 1)[1]) + 1)))
        for (blk, i), (local, proj, rhs) in self.f.defs.items():
            m = re.match(r"(?:copy|move) (_\d+) as (\w+) \(IntToInt\)$", rhs)
            if m:
                SRC.setdefault(self.a.resolve(self.ev.use("copy " + m.group(1), blk, i)), self.f.types.get(m.group(1)))

    def exponents(self, op, ty, x, y, b):
        if ty == "usize":
            for p in (x, y):
                if any(named(z, "find", "rfind", "len", "position") for z in subterms(p)):
                    if op == "Add":
                        return "an offset within a text"
                    if op == "Sub" and named(x, "len") and number(y) is not None:
                        cut = x[2][0]
                        if cut[0] == "field" and named(cut[1], "split_at") and cut[2] == "0" and cut[1][2][1][0] == "op" and cut[1][2][1][1] == "Add":
                            return "the part has at least one byte"
                        if not [1 for t, h in self.mentions(b, cut) if t[0] != "isok"] and cut[0] in ("param",) or named(cut, "trim"):
                            if not self.mentions(b, cut) and not any(named(z, "find", "split_at") for z in subterms(cut)):
                                raise Wrong("%s is subtracted from the length of a text that may be empty" % F.show(y))
            raise Unclear("arithmetic on %s" % F.show(x)[:120])
        if ty != "i64":
            raise Unclear("arithmetic on %s" % ty)
        if self.prog is self.src.lib:
            if self.it.short in ("new", "gcd") and op == "Mul" and any(named(z, "signum") or number(z) in (1, -1) for z in (x, y)):
                return "times a sign"
            if self.checked() and not F.unknowns(x) and not F.unknowns(y) and not [t for t, v in self.conds(b) if t[0] != "isok"] and any(z[0] == "param" for w in (x, y) for z in subterms(w)):
                raise Wrong("%s is computed by an operation that overflows" % self.it.short)
            raise Unclear("arithmetic on exponents in %s" % self.it.short)  # judged at the calls
        return self.sum(op, x, y, "i64")

    def sum(self, op, x, y, kind):
        """Arithmetic on exponents that does not look for overflow."""
        carried = self.carried(x) or self.carried(y) or any(self.passed(w) for w in (x, y))
        if not carried and (F.unknowns(x) or F.unknowns(y)):
            raise Unclear("%s of operands that are not recognised" % op)
        if self.prog is self.src.lib and self.checked() and any(z[0] == "param" for w in (x, y) for z in subterms(w)):
            raise Wrong("%s is computed by %s, which overflows" % (self.it.short, op))
        if kind == "i64":
            if self.bits is None:
                raise Unclear("how large exponents can be")
            if self.bits > 40:
                raise Wrong("exponents that are read with %d bits are combined by %s, which overflows" % (self.bits, op))
            return "sums of fewer than 2^%d exponents of %d bits" % (60 - self.bits, self.bits)
        if carried and op in ("add", "sub", "add_assign", "sub_assign"):
            raise Wrong("rational exponents are summed up over the units that are read by %s, which overflows for large denominators" % op)
        if carried:
            raise Unclear("%s of exponents in a loop" % op)
        if self.bits is None:
            raise Unclear("how large exponents can be")
        if self.bits > 40:
            raise Wrong("rational exponents that are read with %d bits are combined by %s, which overflows" % (self.bits, op))
        return "products of exponents of %d bits" % self.bits

    def division(self, b, s):
        m = re.match(r"assert\((!?)(?:move|copy) (_\d+), ", s) or re.match(r"assert\((!?)const (\w+), ", s)
        if m and m.group(2) in ("true", "false"):
            if (m.group(2) == "true") != bool(m.group(1)):
                return "never"
            raise Wrong("always panics: %s" % s[:120])
        if not m:
            raise Unclear("assertion %s" % s[:100])
        t = self.a.resolve(self.ev.value(m.group(2), b, len(self.f.blocks[b]) - 1))
        if t[0] == "op" and t[1] in ("Eq", "Lt") and len(t[2]) == 2:
            x, y = (folded(z) for z in t[2])
            if x is not None and y is not None:
                v = x == y if t[1] == "Eq" else x < y
                if v != bool(m.group(1)):
                    return "never"
        if "index out of bounds" in s and t[0] == "op" and t[1] == "Lt":
            k, n = t[2]
            if number(n) is not None and number(k) is None:
                if k[0] == "payload" and named(k[1], "next"):
                    for z in subterms(k[1]):
                        if z[0] == "adt" and z[1].endswith("Range"):
                            end = number(z[2][-1][1])
                            if end is not None and end <= number(n):
                                return "a range up to its length"
                            if end is not None:
                                raise Wrong("an array of %d elements is indexed up to %d" % (number(n), end))
                    # enumerated
                raise Unclear("index %s of an array" % F.show(k)[:120])
            if n[0] == "op" and n[1] in ("PtrMetadata", "Len"):
                return self.index(b, n[2][0], k)
            if n[0] == "call" and named(n, "len"):
                return self.index(b, n[2][0], k)
        if t[0] == "op" and t[1] == "BitAnd" or "divi" in s or "remainder" in s:
            if self.it.short in ("gcd", "new") and self.prog is self.src.lib:
                return "the loop ends at zero, denominators are positive (C13)"
            parts = [z for z in subterms(t) if z[0] == "op" and z[1] == "Eq"]
            for z in parts:
                if any(number(w) not in (None, 0, -1) for w in z[2][:1]):
                    return "never"
        raise Unclear("assertion %s on %s" % (s[:80], F.show(t)[:120]))


EXPONENT = {("Ratio", f) for f in ("add", "sub", "mul", "div", "powi", "neg", "add_assign")} | {("Dimension", f) for f in ("add", "sub", "mul", "neg")}


def places(src, prog, it, bits, rational):
    """[(what, text, function that judges)] of the places of a function that could panic."""
    j = Judge(src, prog, it, bits)
    f = prog.fn(it)
    for b, name, args in calls(prog, it):
        short = F.generic_free(name).rsplit("::", 1)[-1]
        if UNWRAP.search(name):
            yield b, short, lambda: j.unwrap(b, name, args)
        elif INDEX.search(name):
            v, k = j.term(args[0], b), j.term(args[1], b)
            if re.search(r"<(str|String|std::string::String) as", name) or "Range" in name:
                ends = [x for n, x in k[2]] if k[0] == "adt" else [k]
                yield b, "slice", lambda: j.slice(b, v, ends)
            else:
                yield b, "index", lambda: j.index(b, v, k)
        elif SPLIT.search(name):
            yield b, short, lambda: j.slice(b, j.term(args[0], b), [j.term(args[1], b)])
        elif PANIC.search(F.generic_free(name)) or PANIC.search(name):
            yield b, "panic", lambda: j.panic(b, name)
        elif OTHERS.search(name) and not name.startswith(("diman", "Ratio", "Magnitude", "si::", "<E as", "HashMap")):
            def other():
                raise Unclear("call of %s" % name[:120])
            yield b, short, other
        elif WRAPS.search(name):
            def wraps():
                if "usize" in name:
                    return "an offset"
                if prog is src.lib and it.short in ("gcd", "new"):
                    raise Unclear("%s" % name[-60:])
                raise Wrong("exponents that do not fit are %s instead of rejected: %s" % ("cut off", F.generic_free(name)))
            yield b, short, wraps
        else:
            to = src.callee(name)
            if to is None:
                continue
            p, g = to
            owner = src.owner(g)[1] if p is src.lib else F.generic_free(p.fn(g).types.get("_1", "").lstrip("&")).rsplit("::", 1)[-1]
            if prog is src.lib and it.short not in ("from_printed", "float_pow", "checked_add", "checked_mul"):
                continue
            if (owner, g.short) in EXPONENT:
                kind = "rational" if owner == "Ratio" or rational else "i64"
                yield b, g.short, lambda: j.sum(g.short, j.before(args[0], b), j.term(args[1], b) if len(args) > 1 else ("const", "0"), kind)
            elif (owner, g.short) == ("Ratio", "new"):
                yield b, "Ratio::new", lambda: denominator(j, b, j.term(args[1], b))
    for b in f.order:
        if f.blocks[b] and f.blocks[b][-1].startswith("assert("):
            s = f.blocks[b][-1]
            yield b, "assertion", lambda: j.overflow(b, s)


def denominator(j, b, t):
    """The denominator of a ratio that is made is not zero."""
    k = number(t)
    if k is not None:
        if k == 0:
            raise Wrong("a ratio with the denominator zero")
        return "constant"
    u = t
    while u[0] == "cast":
        u = u[1]
    for c, v in j.conds(b):
        if c in (t, u) and (v is True or v == "otherwise" or isinstance(v, str) and v.lstrip("-").isdigit() and int(v)):
            return "zero was excluded before"
        if c[0] == "op" and c[1] == "Eq" and v is False and any(number(z) == 0 for z in c[2]) and any(z in (t, u) or z[0] == "cast" and z[1] == u for z in c[2]):
            return "zero was excluded before"
        if c[0] == "op" and c[1] in ("Gt", "Lt", "Ge", "Le") and any(z in (t, u) for z in c[2]):
            if v is True and (c[1] == "Gt" and number(c[2][1]) == 0 or c[1] == "Lt" and number(c[2][0]) == 0):
                return "zero was excluded before"
            raise Unclear("denominator %s" % F.show(t)[:160])
    if u[0] == "payload":
        x = u[1]
        if x[0] == "call" and re.search(r"::filter(::<.*>)?$", x[1]):
            clo = F.closure_of(j.prog, x[2][1])
            if clo is None:
                raise Unclear("denominator %s" % F.show(t)[:160])
            env = ("param", "env")
            rets = F.Analysis(j.prog).returns(clo, [env, ("param", "denominator")])
            d = ("param", "denominator")
            for r, cs in rets:
                p = F.Analysis(j.prog).positive(r, True)
                if p[0][0] == "op" and p[0][1] == "Eq" and d in p[0][2] and any(number(z) == 0 for z in p[0][2]) and p[1] is False:
                    return "zero is filtered out"
                if p[0][0] == "op" and p[0][1] == "Gt" and p[0][2][0] == d and number(p[0][2][1]) == 0 and p[1] is True:
                    return "only positive ones are kept"
                if p[0][0] == "op" and p[0][1] in ("Lt", "Gt", "Ge", "Le", "Eq") and d in p[0][2] and len(rets) == 1:
                    k = [number(z) for z in p[0][2] if z != d][0]
                    if k is not None:
                        left = p[0][2][0] == d
                        def keeps(v):
                            a, c = (v, k) if left else (k, v)
                            return {"Eq": a == c, "Lt": a < c, "Gt": a > c, "Le": a <= c, "Ge": a >= c}[p[0][1]] == p[1]
                        if keeps(0):
                            raise Wrong("a denominator of zero is read: the filter keeps it")
                        return "zero is filtered out"
            raise Unclear("denominator %s" % F.show(t)[:160])
        if x[0] == "call" and re.search(r"<impl i64>::checked_mul$", x[1]):
            if all(z[0] == "field" for z in x[2]):
                return "a product of denominators"
        if x[0] == "call" and (named(x, "parse", "from_str") or re.search(r"Result::<.*>::ok$", x[1])):
            if "NonZero" in x[1]:
                return "read as a number other than zero"
            subject = x[2][0]
            if j.mentions(b, u) or [1 for c, v in j.mentions(b, subject) if c[0] != "isok"]:
                raise Unclear("denominator %s" % F.show(t)[:160])
            raise Wrong("a denominator of zero panics: nothing excludes it when %s is read" % F.show(x)[:160])
    if u[0] == "call" and "NonZero" in u[1]:
        return "not zero by its type"
    if u[0] == "op" and u[1] == "Mul" and all(z[0] == "field" for z in u[2]):
        return "a product of denominators"
    raise Unclear("denominator %s" % F.show(t)[:160])


def exponent_bits(lib, which):
    """Bits of the numbers that an exponent is read from."""
    for it in lib.fns.get("from_printed", []):
        if ("ratio" in it.name) == (which == "Ratio"):
            text = it.body + "".join(x.body for x in it.closures)
            tys = re.findall(r"::parse::<(?:std::num::|core::num::)?(?:NonZero<)?(\w+)>|<(\w+) as (?:\w+::)*FromStr>::from_str|<impl (\w+)>::from_str_radix", text)
            w = [width(next(filter(None, t)).replace("NonZeroI", "i").replace("NonZeroU", "u")) for t in tys]
            if w and None not in w:
                return max((max(-v[0], v[1])).bit_length() - (0 if v[0] == 0 else 0) - (1 if v[0] < 0 else 0) for v in w)
    return None


# What the operations that look for overflow compute -------------------------------

def poly(t):
    """{monomial: coefficient} of a term over the arguments' fields; monomials are sorted tuples of variables."""
    while t[0] == "cast" or t[0] == "payload" and t[1][0] == "call" and named(t[1], "try_from", "try_into", "from", "into"):
        t = t[1] if t[0] == "cast" else t[1][2][0]
    k = number(t)
    if k is not None:
        return {(): int(k)} if k else {}
    op, xs = None, ()
    if t[0] == "payload" and t[1][0] == "call":
        m = re.search(r"checked_(add|sub|mul|neg)(::<.*>)?$", t[1][1])
        if m and all(x[0] != "param" or len(t[1][2]) < 3 for x in t[1][2]):
            op, xs = m.group(1), t[1][2]
    elif t[0] == "op" and t[1] in ("Add", "Sub", "Mul", "Neg"):
        op, xs = t[1].lower(), t[2]
    elif t[0] == "call" and re.search(r"(From|Into)<.*>>::(from|into)$", t[1]):
        return poly(t[2][0])
    if op is None:
        base = t
        while base[0] == "field":
            base = base[1]
        if base[0] == "param":
            return {(F.show(t),): 1}
        raise Unclear("arithmetic %s" % F.show(t)[:200])
    ps = [poly(x) for x in xs]
    out = {}
    if op in ("add", "sub"):
        for p, sign in zip(ps, (1, 1 if op == "add" else -1)):
            for mono, k in p.items():
                out[mono] = out.get(mono, 0) + sign * k
    elif op == "neg":
        out = {mono: -k for mono, k in ps[0].items()}
    else:
        for m1, k1 in ps[0].items():
            for m2, k2 in ps[1].items():
                mono = tuple(sorted(m1 + m2))
                out[mono] = out.get(mono, 0) + k1 * k2
    return {mono: k for mono, k in out.items() if k}


def times(p, q):
    out = {}
    for m1, k1 in p.items():
        for m2, k2 in q.items():
            mono = tuple(sorted(m1 + m2))
            out[mono] = out.get(mono, 0) + k1 * k2
    return {mono: k for mono, k in out.items() if k}


def plus(p, q):
    out = dict(p)
    for mono, k in q.items():
        out[mono] = out.get(mono, 0) + k
    return {mono: k for mono, k in out.items() if k}


def exact(prog, it, kind):
    """checked_add, checked_mul of exponents: the sum and the product, whenever there is one."""
    rets = F.Analysis(prog).returns(it)
    if not rets:
        return "never a value"
    f = it.short
    a, b = ("param", f + ".0"), ("param", f + ".1")
    for t, conds in rets:
        for c, v in conds:
            if c[0] != "isok" and const(c) is None:
                raise Unclear("depends on %s" % F.show(c)[:120])
        if kind == "i64":
            got, one = poly(t), {(): 1}
            want, den, gotden = plus(poly(a), poly(b)) if f == "checked_add" else times(poly(a), poly(b)), one, one
        else:
            if t[0] == "local" or t[0] == "call" and named(t, "new"):
                got, gotden = (poly(x) for x in t[2][:2])
            elif t[0] == "localcall" and t[1] == "new":
                got, gotden = (poly(x) for x in t[2][:2])
            else:
                raise Unclear("returns %s" % F.show(t)[:200])
            n, d = (lambda x: {(F.show(("field", x, "0")),): 1}), (lambda x: {(F.show(("field", x, "1")),): 1})
            den = times(d(a), d(b))
            want = plus(times(n(a), d(b)), times(n(b), d(a))) if f == "checked_add" else times(n(a), n(b))
        if times(got, den) != times(want, gotden):
            return "computes %s" % F.show(t)[:300]
    return None


def checked(c, cfg, lib):
    r = c.rule("checked-%s" % cfg, "a sum or product of exponents that looks for overflow is the sum or the product (polynomials over the numerators and denominators that the MIR "
               "of the library computes) [%s]" % cfg, 0)
    for f in ("checked_add", "checked_mul"):
        for it in lib.fns.get(f, []):
            if "{closure" in it.name or lib.fn(it).nargs != 2:
                continue
            ty = lib.fn(it).types.get("_1", "").rsplit("::", 1)[-1]
            if ty not in ("i64", "Ratio"):
                continue
            lib.steps = 0
            label = "%s of %s" % (f, ty)
            try:
                wrong = exact(lib, it, ty)
            except (Unclear, RecursionError) as e:
                c.undecide(r, "[%s] %s: %s" % (cfg, label, e))
                continue
            if wrong:
                c.bad(r, "%s/%s/%s" % (cfg, f, ty), "[%s] %s (crates/diman_lib): %s: %s" % (cfg, WHERE, label, wrong), it.header + " {\n" + it.body[-6000:])
            else:
                c.ok(r, 1, label)


def run(c):
    for cfg in ("no-rational", "all-features"):
        rational = P.rational(cfg)
        r = c.rule("panic-%s" % cfg, "every place of a function that reading reaches (call graph of the MIR of the expansion and the library) where Rust panics for some operands - "
                   "unwrapping, indexing, cutting a text, an explicit panic, the checks of arithmetic, a ratio made from parts - cannot panic, by the conditions that dominate it, the way its "
                   "operands are made, and bounds on them [%s]" % cfg, 10)
        rr = c.rule("reached-%s" % cfg, "functions that reading reaches [%s]" % cfg, 20)
        lib = F.Program(X.mir("lib", cfg, verbose=False))
        checked(c, cfg, lib)
        bits = exponent_bits(lib, "Ratio" if rational else "i64")
        done = set()
        for name, (bases, text) in SYSTEMS.items():
            cr = W.Crate(cfg, "c28-" + name, PRELUDE % text, P.uses(cfg))
            cr.add("nothing", "pub fn nothing() {}")
            prog = mir_of(c, r, cr)
            if prog is None:
                continue
            src = Source(prog, lib)
            src.reached = reached(src)
            for p, it in src.reached:
                if p is lib:
                    if id(it) in done:
                        continue
                    done.add(id(it))
                c.ok(rr, 1, it.header[:120])
                n = {}
                for b, what, f in places(src, p, it, bits, rational):
                    where = "%s of %s" % (it.short, ", ".join(t for k, t in sorted(p.fn(it).types.items()) if k == "_1")[:60]) if "{" not in it.short else it.name.rsplit("::", 2)[-2] + "::" + it.short
                    n[what] = n.get(what, 0) + 1
                    key = "%s/%s/%s/%s.%d" % (cfg, name if p is prog else "library", re.sub(r"@[^}]*|\S+\.rs:[\d: ]+", "", where).replace(" ", "_"), what, n[what])
                    try:
                        why = f()
                        c.ok(r, 1, "%s: %s: %s" % (where, what, why))
                    except Wrong as e:
                        c.bad(r, key, "[%s] %s: system %s: %s: %s" % (cfg, WHERE, name, where, e), it.header + " {\n" + it.body[-6000:])
                    except Unclear as e:
                        c.undecide(r, "[%s] %s: %s: %s: %s" % (cfg, name, where, what, e))
                    except RecursionError:
                        c.undecide(r, "[%s] %s: %s: %s" % (cfg, name, where, what))
