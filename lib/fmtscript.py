"""What a formatting function writes, read off its optimised IR.

For a quantity of a concrete dimension the optimiser folds the choice of the unit; what is
left is an acyclic sequence of calls of core's formatting functions.  Constants are propagated
along it (through locals and constant globals) to resolve each call's arguments.  Anything that
is not resolved is `Unknown`: no verdict."""
import re
import llvm


class Unknown(Exception):
    pass


class Panic(Unknown):
    """The only path there is leads to a panic."""


def parse_init(text):
    """Bytes and pointers of a constant's initialiser: {offset: int | ("ptr", name, offset)}, size."""
    out, pos = {}, 0
    m = re.search(r"\bconstant\s+(.*)$", text)
    if not m:
        raise Unknown("global that is not constant")
    s = m.group(1)
    s = re.sub(r",\s*(align|section|comdat|!).*$", "", s)
    s = s.strip()
    m = re.match(r"<\{.*?\}>\s*(<\{.*\}>|zeroinitializer|undef)$", s) or re.match(r"\{.*?\}\s*(\{.*\})$", s)
    if not m:
        m2 = re.match(r"(\[\d+ x i8\])\s+(.*)$", s)
        if not m2:
            raise Unknown("constant " + s[:60])
        fields = [s]
    else:
        body = m.group(1)
        if body in ("zeroinitializer", "undef"):
            sizes = re.match(r"<\{(.*?)\}>", s).group(1)
            fields = [f.strip() + " zeroinitializer" for f in llvm.split_args(sizes)]
        else:
            fields = llvm.split_args(re.sub(r"^<?\{|\}>?$", "", body).strip())
    for f in fields:
        f = f.strip()
        m = re.match(r'\[(\d+) x i8\] c"(.*)"$', f, re.S)
        if m:
            raw = unescape(m.group(2))
            for b in raw:
                out[pos] = b
                pos += 1
            continue
        m = re.match(r"\[(\d+) x i8\] (zeroinitializer|undef)$", f)
        if m:
            for _ in range(int(m.group(1))):
                out[pos] = 0
                pos += 1
            continue
        m = re.match(r"ptr (.*)$", f)
        if m:
            out[pos] = pointer(m.group(1))
            pos += 8
            continue
        m = re.match(r"i(8|16|32|64) (-?\d+)$", f)
        if m:
            n = int(m.group(1)) // 8
            for b in (int(m.group(2)) % (1 << (8 * n))).to_bytes(n, "little"):
                out[pos] = b
                pos += 1
            continue
        raise Unknown("field " + f[:60])
    return out, pos


def unescape(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5C)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


def pointer(s):
    s = llvm.strip_attrs(s.strip())
    if s == "null":
        return 0
    m = re.match(r'@("[^"]+"|[\w.$]+)$', s)
    if m:
        return ("ptr", "@" + m.group(1).strip('"'), 0)
    m = re.match(r'getelementptr \(i8, ptr @("[^"]+"|[\w.$]+), i64 (-?\d+)\)$', s)
    if m:
        return ("ptr", "@" + m.group(1).strip('"'), int(m.group(2)))
    m = re.match(r"inttoptr \(i64 (\d+) to ptr\)$", s)
    if m:
        return int(m.group(1))
    raise Unknown("pointer " + s[:80])


class Module:
    def __init__(self, text):
        self.fns, self.aliases, self.consts = llvm.parse(text)
        self.inits = {}

    def init(self, name):
        if name not in self.inits:
            self.inits[name] = parse_init(self.consts[name])[0]
        return self.inits[name]


class Walk:
    """One path through a function.  `fail`: the index of the output that fails, or None."""

    def __init__(self, module, fail=None, opaque=()):
        self.m, self.fail, self.opaque = module, fail, opaque
        self.mem, self.zero, self.out, self.calls, self.fresh, self.steps = {}, set(), [], 0, 0, 0

    def emit(self, what):
        k = self.calls
        self.calls += 1
        self.out.append(what)
        return 1 if k == self.fail else 0

    # memory
    def load(self, p, size):
        if not isinstance(p, tuple) or p[0] != "ptr":
            raise Unknown("load from %s" % (p,))
        _, base, off = p
        if base.startswith("@"):
            init = self.m.init(base[1:])
            v = init.get(off)
            if isinstance(v, tuple) or v is None:
                if v is None:
                    raise Unknown("load past " + base)
                return v
            if size == 8 and v == 0 and off + 1 not in init:
                return 0
            return int.from_bytes(bytes(init[off + i] for i in range(size)), "little")
        got = self.mem.get((base, off))
        if got and got[1] == size:
            return got[0]
        if all((base, k) in self.zero for k in range(off, off + size)):
            return 0
        if base.startswith(("%arg", "%plain")):
            return ("ptr", "%s[%d]" % (base, off), 0)
        raise Unknown("load of %s+%d, which is not written" % (base, off))

    def store(self, p, size, v):
        _, base, off = p
        for k in range(off - 16, off + size):
            if (base, k) in self.mem and k + self.mem[base, k][1] > off:
                del self.mem[base, k]
        self.zero -= {(base, k) for k in range(off, off + size)}
        self.mem[base, off] = (v, size)

    def bytes(self, p, n):
        if n == 0:
            return b""
        if not isinstance(p, tuple) or p[0] != "ptr" or not p[1].startswith("@"):
            raise Unknown("text at %s" % (p,))
        init = self.m.init(p[1][1:])
        return bytes(init[p[2] + i] for i in range(n))

    # calls
    def value(self, fn, args, f):
        """A function with the signature of `Display::fmt`."""
        return self.call(fn, args)

    def text(self, p, n):
        if not isinstance(n, int):
            raise Unknown("length of a text")
        return self.bytes(p, n).decode()

    def call(self, name, args):
        self.steps += 1
        if self.steps > 400:
            raise Unknown("too long")
        name = self.m.aliases.get(name, name)
        if name in self.opaque:
            return self.emit(("number", args[0], self.kind(args[1])))
        m = re.search(r"Display\$u20\$for\$u20\$(f32|f64|[iu](?:8|16|32|64|size))\$GT\$3fmt", name)
        if (m and m.group(1) in ("f32", "f64")) or re.search(r"^_ZN\d+_\$LT\$glam\.\..*\.\.D?Vec[23]\$u20\$as\$u20\$core\.\.fmt\.\.Display\$GT\$3fmt", name):
            return self.emit(("number", args[0], self.kind(args[1])))
        if m and name.startswith("_ZN4core3fmt"):
            n = m.group(1)
            size = 8 if n.endswith("size") else int(n[1:]) // 8
            v = self.load(args[0], size)
            if not isinstance(v, int):
                raise Unknown("an integer that is not constant")
            v %= 1 << (8 * size)
            if n[0] == "i" and v >= 1 << (8 * size - 1):
                v -= 1 << (8 * size)
            return self.emit(("text", str(v), self.kind(args[1])))
        if re.search(r"^_ZN4core3fmt9Formatter3pad17h", name):
            return self.emit(("text", self.text(args[1], args[2]), self.kind(args[0])))
        if re.search(r"^_ZN42_\$LT\$str\$u20\$as\$u20\$core..fmt..Display\$GT\$3fmt|^_ZN\d+_\$LT\$str\$u20\$as\$u20\$core\.\.fmt\.\.Display\$GT\$3fmt", name):
            return self.emit(("text", self.text(args[0], args[1]), self.kind(args[2])))
        if re.search(r"^_ZN57_\$LT\$core\.\.fmt\.\.Formatter\$u20\$as\$u20\$core\.\.fmt\.\.Write\$GT\$9write_str|^_ZN4core3fmt9Formatter9write_str17h", name):
            return self.emit(("text", self.text(args[1], args[2]), "plain"))
        if re.search(r"^_ZN4core3fmt5write17h", name):
            return self.write(args[2])
        if re.search(r"^_ZN4core3fmt9Formatter9write_fmt17h", name) and name not in self.m.fns:
            return self.write(args[1])
        if name in self.m.fns:
            return self.run(self.m.fns[name], args)
        if re.search(r"core9panicking|core6option.*(unwrap|expect)_failed|core6result13unwrap_failed|slice_(start|end)_index|panic_bounds_check|slice_index_fail", name):
            raise Panic("calls " + name[:100])
        raise Unknown("call of " + name[:100])

    def kind(self, f):
        """Whether a formatter is the caller's (with its width and precision) or a plain one."""
        return "caller" if isinstance(f, tuple) and f[1].startswith("%arg") else "plain"

    def write(self, a):
        if not isinstance(a, tuple):
            raise Unknown("format arguments")
        at = lambda off: self.load(("ptr", a[1], a[2] + off), 8)
        pieces, np, args, na = at(0), at(8), at(16), at(24)
        if at(32) != 0:
            raise Unknown("format specifications")
        if not isinstance(np, int) or not isinstance(na, int):
            raise Unknown("number of format arguments")
        for k in range(max(np, na)):
            if k < np:
                p = ("ptr", pieces[1], pieces[2] + 16 * k) if isinstance(pieces, tuple) else None
                n = self.load(("ptr", p[1], p[2] + 8), 8)
                if n:
                    t = self.load(p, 8)
                    if self.emit(("text", self.text(t, n), "plain")):
                        return 1
            if k < na:
                q = ("ptr", args[1], args[2] + 16 * k)
                v, fn = self.load(q, 8), self.load(("ptr", q[1], q[2] + 8), 8)
                if not isinstance(fn, tuple) or not fn[1].startswith("@"):
                    raise Unknown("format function")
                self.fresh += 1
                if self.call(fn[1][1:], [v, ("ptr", "%%plain%d" % self.fresh, 0)]):
                    return 1
        return 0

    # functions
    def run(self, fn, args):
        self.fresh += 1
        tag = "%%loc%d" % self.fresh
        env = {}
        for (t, n), a in zip(fn.params, args):
            env[n] = a
        byname = {b[0]: b[1] for b in fn.blocks}
        name, prev, seen = fn.blocks[0][0], None, set()
        while True:
            if name in seen:
                raise Unknown("loop")
            seen.add(name)
            nxt = None
            phis = {}
            for ins in byname[name]:
                s = llvm.strip_attrs(re.sub(r"\b(?:tail|musttail|notail) ", "", ins))
                m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', s)
                d, rhs = (m.group(1), m.group(2)) if m else (None, s)
                if phis and not rhs.startswith("phi "):
                    env.update(phis)
                    phis = {}
                if rhs.startswith("phi "):
                    for v, b in re.findall(r'\[ (.+?), %("[^"]+"|[\w.$-]+) \]', rhs):
                        if b.strip('"') == prev:
                            phis[d] = self.op(v, env)
                            break
                    else:
                        raise Unknown("phi")
                    continue
                if rhs == "ret void":
                    return None
                if rhs.startswith("ret "):
                    return self.op(rhs[4:].rpartition(" ")[2], env)
                m = re.match(r'br label %("[^"]+"|[\w.$-]+)$', rhs)
                if m:
                    nxt = m.group(1)
                    break
                m = re.match(r'br i1 (\S+), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)$', rhs)
                if m:
                    c = self.op(m.group(1), env)
                    if not isinstance(c, int):
                        raise Unknown("branch on %s" % (c,))
                    nxt = m.group(2) if c & 1 else m.group(3)
                    break
                if rhs.startswith("switch "):
                    m = re.match(r'switch (\S+) (\S+), label %("[^"]+"|[\w.$-]+) \[(.*)\]$', rhs)
                    v = self.op(m.group(2), env)
                    if not isinstance(v, int):
                        raise Unknown("switch")
                    bits = int(m.group(1)[1:])
                    nxt = m.group(3)
                    for val, lab in re.findall(r'\S+ (-?\w+), label %("[^"]+"|[\w.$-]+)', m.group(4)):
                        val = {"true": 1, "false": 0}.get(val, val)
                        if (int(val) - v) % (1 << bits) == 0:
                            nxt = lab
                    break
                if rhs == "unreachable":
                    raise Unknown("panic")
                v = self.ins(rhs, env, "%s.%s" % (tag, d))
                if d:
                    env[d] = v
            if nxt is None:
                raise Unknown("end of block")
            prev, name = name, nxt.strip('"')

    def op(self, o, env):
        o = o.strip()
        if o.startswith("%"):
            if o not in env:
                raise Unknown("value " + o)
            return env[o]
        if o in ("true", "false"):
            return int(o == "true")
        if o in ("null", "undef", "poison", "zeroinitializer"):
            return 0
        if re.fullmatch(r"-?\d+", o):
            return int(o)
        if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?|0x[0-9A-Fa-f]+", o):
            return ("float", o)
        return pointer(o)

    def ins(self, rhs, env, loc):
        if rhs.startswith("alloca "):
            return ("ptr", loc, 0)
        m = re.match(r"store (.+?) (\S+|getelementptr \(.*?\)|inttoptr \(.*?\)), ptr (\S+)$", rhs)
        if m:
            p = self.op(m.group(3), env)
            if not isinstance(p, tuple) or not p[1].startswith("%"):
                raise Unknown("store")
            size = llvm.size_of(m.group(1))
            if size is None:
                raise Unknown("store of " + m.group(1))
            self.store(p, size, self.op(m.group(2), env))
            return None
        m = re.match(r"call void @llvm\.memset\S*\(ptr (\S+), i8 0, i64 (\d+), i1 false\)$", rhs)
        if m:
            p, n = self.op(m.group(1), env), int(m.group(2))
            if not isinstance(p, tuple) or not p[1].startswith("%"):
                raise Unknown("fill")
            for k in range(0, n):
                self.store(("ptr", p[1], p[2] + k), 1, 0)
                self.zero.add((p[1], p[2] + k))
                del self.mem[p[1], p[2] + k]
            return None
        m = re.match(r"call void @llvm\.memcpy\S*\(ptr (\S+|getelementptr \(.*?\)), ptr (\S+|getelementptr \(.*?\)), i64 (\d+), i1 false\)$", rhs)
        if m:
            d, s = self.op(m.group(1), env), self.op(m.group(2), env)
            n = int(m.group(3))
            if not isinstance(d, tuple) or not isinstance(s, tuple) or n % 8:
                raise Unknown("copy")
            for k in range(0, n, 8):
                self.store(("ptr", d[1], d[2] + k), 8, self.load(("ptr", s[1], s[2] + k), 8))
            return None
        m = re.match(r"load (\S+), ptr (.+)$", rhs)
        if m:
            size = llvm.size_of(m.group(1))
            if size is None:
                raise Unknown("load of " + m.group(1))
            return self.load(self.op(m.group(2), env), size)
        m = re.match(r"getelementptr (\S+), ptr (\S+), i64 (\S+)$", rhs)
        if m:
            p, k = self.op(m.group(2), env), self.op(m.group(3), env)
            size = llvm.size_of(m.group(1))
            if not isinstance(p, tuple) or not isinstance(k, int) or size is None:
                raise Unknown("address")
            return ("ptr", p[1], p[2] + k * size)
        m = re.match(r"icmp (\w+) (\S+) (\S+), (.+)$", rhs)
        if m:
            a, b = self.op(m.group(3), env), self.op(m.group(4), env)
            if m.group(1) in ("eq", "ne") and isinstance(a, tuple) and isinstance(b, tuple):
                return int((a == b) == (m.group(1) == "eq"))
            if m.group(1) in ("eq", "ne") and (a == 0 or b == 0) and (isinstance(a, tuple) or isinstance(b, tuple)):
                return int(m.group(1) == "ne")
            if not isinstance(a, int) or not isinstance(b, int) or m.group(2) == "ptr":
                raise Unknown("comparison")
            bits = int(m.group(2)[1:])
            u = lambda x: x % (1 << bits)
            g = lambda x: u(x) - (1 << bits) if u(x) >> (bits - 1) else u(x)
            p = m.group(1)
            a, b = (g(a), g(b)) if p[0] == "s" else (u(a), u(b))
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if p in ("eq", "ne") else p[1:]])
        m = re.match(r"select i1 (\S+), (\S+) (\S+), (\S+) (\S+)$", rhs)
        if m:
            c = self.op(m.group(1), env)
            if not isinstance(c, int):
                raise Unknown("select")
            return self.op(m.group(3) if c & 1 else m.group(5), env)
        m = re.match(r"(add|sub|mul|and|or|xor) i(\d+) (\S+), (\S+)$", rhs)
        if m:
            a, b = self.op(m.group(3), env), self.op(m.group(4), env)
            if not isinstance(a, int) or not isinstance(b, int):
                raise Unknown("arithmetic")
            r = {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[m.group(1)]
            return r % (1 << int(m.group(2)))
        m = re.match(r"(sdiv|udiv|srem|urem|shl|lshr|ashr) i(\d+) (\S+), (\S+)$", rhs)
        if m:
            a, b, n = self.op(m.group(3), env), self.op(m.group(4), env), int(m.group(2))
            if not isinstance(a, int) or not isinstance(b, int):
                raise Unknown("arithmetic")
            u = lambda x: x % (1 << n)
            g = lambda x: u(x) - (1 << n) if u(x) >> (n - 1) else u(x)
            k = m.group(1)
            if k[1:] in ("div", "rem"):
                a, b = (g(a), g(b)) if k[0] == "s" else (u(a), u(b))
                if b == 0:
                    raise Unknown("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return u(q if k[1:] == "div" else a - q * b)
            if u(b) >= n:
                raise Unknown("shift")
            return u({"shl": u(a) << u(b), "lshr": u(a) >> u(b), "ashr": g(a) >> u(b)}[k])
        m = re.match(r"sext i(\d+) (\S+) to i(\d+)$", rhs)
        if m:
            a, n = self.op(m.group(2), env), int(m.group(1))
            if not isinstance(a, int):
                raise Unknown("conversion")
            a %= 1 << n
            return (a - (1 << n) if a >> (n - 1) else a) % (1 << int(m.group(3)))
        m = re.match(r"(zext|trunc|freeze) i(\d+) (\S+)(?: to i(\d+))?$", rhs)
        if m:
            a = self.op(m.group(3), env)
            if not isinstance(a, int):
                raise Unknown("conversion")
            return a % (1 << min(int(m.group(2)), int(m.group(4) or m.group(2))))
        m = re.match(r'(?:call|invoke) (\S+) (@"[^"]+"|@[\w.$]+|%[\w.$-]+)\((.*)\)$', rhs)
        if m:
            args = []
            for a in llvm.split_args(m.group(3)):
                t, _, v = a.partition(" ")
                args.append(self.op(v, env))
            f = m.group(2)
            if f.startswith("@"):
                return self.call(f[1:].strip('"'), args)
            fp = env[f]
            # the entry `write_str` of the table of the caller's formatter
            if isinstance(fp, tuple) and re.fullmatch(r"%(?:arg|plain)\d+\[40\]\[24\]", fp[1]) and len(args) == 3:
                return self.emit(("text", self.text(args[1], args[2]), "plain"))
            raise Unknown("indirect call of %s" % (fp,))
        raise Unknown("instruction " + rhs[:100])


def script(module, name, opaque=(), fail=None):
    """(outputs, returned value) of the path on which output `fail` (if any) fails and no other."""
    w = Walk(module, fail, opaque)
    fn = module.fns[module.aliases.get(name, name)]
    r = w.run(fn, [("ptr", "%%arg%d" % k, 0) for k in range(len(fn.params))])
    return w.out, r
