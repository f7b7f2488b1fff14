"""Reading optimised LLVM IR (text) of witness crates.

A function becomes a canonical form in which two functions that compute the
same value the same way compare equal: local names, metadata, attributes,
comments and debug records are dropped, commutative operands are sorted.
Single-block functions become value trees (the def-use tree of the returned
value and of every store); others a normalised instruction list."""
import hashlib, re, sys

sys.setrecursionlimit(20000)

COMM = {"fadd", "fmul", "add", "mul", "and", "or", "xor"}
ATTR_WORDS = set("""noundef noalias nocapture readonly writeonly nonnull signext zeroext writable dead_on_unwind
 noreturn immarg returned nofree allocptr swiftself inreg local_unnamed_addr unnamed_addr dso_local hidden internal
 private fastcc nuw nsw exact disjoint nneg samesign inbounds tail musttail notail dead_on_return readnone
 nnan ninf nsz arcp contract afn reassoc fast""".split())
KEEP_FLAGS = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}


class Fn:
    def __init__(self, name, ret, params, blocks):
        self.name, self.ret, self.params, self.blocks = name, ret, params, blocks


def strip_attrs(s):
    s = re.sub(r",?\s*\balign \d+\b(?!\s*\()", "", s) if not re.match(r"define", s) else s
    s = re.sub(r'\b(align|dereferenceable|dereferenceable_or_null|sret|byval|range|memory|initializes|captures|nofpclass)'
               r'(\s*\((?:[^()]|\([^()]*\))*\)|\s+\d+)', "", s)
    s = re.sub(r"\s#\d+\b", "", s)
    words = [w for w in re.split(r"(\s+|,|\(|\))", s)]
    out = "".join(w for w in words if w.strip() not in ATTR_WORDS or w.strip() in KEEP_FLAGS)
    return re.sub(r"\s+", " ", out).replace("( ", "(").replace(" ,", ",").replace(" )", ")").strip()


def strip_meta(line):
    line = re.sub(r",?\s*![A-Za-z_.]+\s+!\d+", "", line)
    line = re.sub(r",?\s*![A-Za-z_.]+\s+!\{[^}]*\}", "", line)
    return line


def split_args(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(text):
    """name -> Fn, and alias name -> target."""
    fns, aliases, consts = {}, {}, {}
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = re.match(r'@("[^"]+"|[\w.$]+) = .*?\balias\b.*ptr @("[^"]+"|[\w.$]+)\s*$', ln)
        if m:
            aliases[m.group(1).strip('"')] = m.group(2).strip('"')
        m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)$', ln)
        if m and "alias" not in ln:
            consts[m.group(1).strip('"')] = m.group(2)
        m = re.match(r'define\b(.*?)@("[^"]+"|[\w.$]+)\((.*)$', ln)
        if m:
            ret = strip_attrs(m.group(1))
            name = m.group(2).strip('"')
            rest = m.group(3)
            depth, j = 1, 0
            while depth:
                depth += {"(": 1, ")": -1}.get(rest[j], 0)
                j += 1
            params = []
            for p in split_args(rest[:j - 1]):
                p = strip_attrs(p)
                t, _, n = p.rpartition(" ")
                params.append((t, n))
            blocks, cur = [], None
            i += 1
            while lines[i] != "}":
                l = lines[i]
                i += 1
                if not l.strip() or l.lstrip().startswith(";") or l.lstrip().startswith("#dbg"):
                    continue
                lm = re.match(r'("[^"]+"|[\w.$-]+):', l)
                if lm and not l.startswith(" "):
                    cur = (lm.group(1).strip('"'), [])
                    blocks.append(cur)
                    continue
                body = strip_meta(l.strip())
                # a switch goes over several lines
                if re.match(r"switch .*\[$", body):
                    while not lines[i].strip().startswith("]"):
                        body += " " + lines[i].strip()
                        i += 1
                    body += " ]"
                    i += 1
                if cur is None:
                    cur = ("entry", [])
                    blocks.append(cur)
                if re.search(r"@llvm\.(lifetime|assume|experimental\.noalias)", body):
                    continue
                cur[1].append(body)
            fns[name] = Fn(name, ret, params, blocks)
        i += 1
    return fns, aliases, consts


VAL = re.compile(r'%("[^"]+"|[\w.$-]+)')


class TooComplex(Exception):
    pass


def canon(fn, consts=None):
    """Canonical form of a function body: a decision tree of value trees when the
    control flow is acyclic and small, else a normalised instruction list."""
    try:
        return tree(fn)
    except TooComplex:
        return listing(fn)


def reaches_panic(block):
    return bool(block) and block[-1] == "unreachable"


def listing(fn):
    """The effects of every block in order, each value written as a digest of the pure
    operations it is computed by, so that the order of pure operations does not matter."""
    env = {n: "p%d" % k for k, (t, n) in enumerate(fn.params)}
    byname = {b[0]: b[1] for b in fn.blocks}
    order, seen = [], set()

    def visit(n):
        if n in seen or n not in byname:
            return
        seen.add(n)
        order.append(n)
        term = byname[n][-1] if byname[n] else ""
        for t in re.findall(r'label %("[^"]+"|[\w.$-]+)', term):
            visit(t.strip('"'))

    visit(fn.blocks[0][0])
    blocks = {'%' + n: "B%d" % k for k, n in enumerate(order)}
    blocks.update({'%"' + n + '"': "B%d" % k for k, n in enumerate(order)})

    def digest(s):
        return s if len(s) < 60 else "h" + hashlib.sha256(s.encode()).hexdigest()[:12]

    def value(m):
        v = m.group(0)
        return env.get(v) or blocks.get(v) or define(v)

    defs = {}
    for k, n in enumerate(order):
        ver = phis = allocas = 0
        for ins in byname[n]:
            s = re.sub(r"@(alloc_[0-9a-f]+|anon\.[\w.]+)", "@alloc", strip_attrs(ins))
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', s)
            rhs = m.group(2) if m else s
            name = m.group(1) if m else None
            if name and rhs.startswith("phi "):
                env[name] = "phi%d.%d" % (k, phis)
                phis += 1
            elif name and rhs.startswith("alloca "):
                env[name] = "loc%d.%d" % (k, allocas)
                allocas += 1
            elif name and re.match(r"load (?!volatile|atomic)", rhs):
                defs[name] = (rhs, "@%d.%d" % (k, ver))
            elif name and not re.match(r"(call|invoke|load|atomicrmw|cmpxchg|va_arg)\b", rhs):
                defs[name] = (rhs, "")
            elif name and re.match(r"call [^@]*@llvm\.(fabs|sqrt|fma|floor|ceil|trunc|rint|round|copysign|minnum|maxnum|smin|smax|umin|umax|abs|"
                                   r"ctlz|cttz|fshl|fshr|bswap|powi|uadd|usub|umul|sadd|ssub|smul)\b", rhs):
                defs[name] = (rhs, "")
            elif name:
                env[name] = "eff%d.%d" % (k, ver)
                ver += 1
            elif re.match(r"(store|call|invoke|fence)\b", rhs):
                ver += 1

    def define(v):
        if v not in defs:
            return v
        rhs, where = defs[v]
        env[v] = "rec"  # cycles only go through phis, which are named above
        s = VAL.sub(value, rhs)
        m = re.match(r"(\w+)((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) (\S+) (\S+), (\S+)$", s)
        if m and m.group(1) in COMM:
            a, b = sorted((m.group(4), m.group(5)))
            s = "%s%s %s %s, %s" % (m.group(1), m.group(2), m.group(3), a, b)
        env[v] = digest("(" + s + where + ")")
        return env[v]

    out = []
    for k, n in enumerate(order):
        out.append("B%d:" % k)
        if reaches_panic(byname[n]):
            out.append("  panic")
            continue
        ver = 0
        for ins in byname[n]:
            s = re.sub(r"@(alloc_[0-9a-f]+|anon\.[\w.]+)", "@alloc", strip_attrs(ins))
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', s)
            if m and m.group(1) in defs:
                continue
            if m and m.group(2).startswith("phi "):
                pairs = re.findall(r'\[ (.+?), (%(?:"[^"]+"|[\w.$-]+)) \]', m.group(2))
                out.append("  %s = phi %s" % (env[m.group(1)], " ".join(sorted(
                    "[%s,%s]" % (VAL.sub(value, a), blocks.get(b, b)) for a, b in pairs))))
                continue
            rhs = VAL.sub(value, m.group(2) if m else s)
            out.append("  " + ((env[m.group(1)] + " = ") if m else "") + rhs)
    return "\n".join(out)


def tree(fn):
    byname = {b[0]: b[1] for b in fn.blocks}
    env = {n: "p%d" % k for k, (t, n) in enumerate(fn.params)}
    budget = [200]

    def run(name, prev, env, mem, stores, path):
        budget[0] -= 1
        if budget[0] < 0 or name in path:
            raise TooComplex()
        if reaches_panic(byname[name]):
            return "panic"
        env, mem, stores = dict(env), dict(mem), dict(stores)
        path = path + (name,)
        phis = {}
        for ins in byname[name]:
            s = strip_attrs(ins)
            if phis and " = phi " not in s:
                env.update(phis)
                phis = {}
            if s.startswith("ret"):
                r = "void" if s == "ret void" else number(operand(s[4:].rpartition(" ")[2], env))
                return "ret " + r + "".join("; [%s]=%s" % kv for kv in sorted(zeros(stores).items()))
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = phi (.+?) (\[.*\])$', s)
            if m:
                for pair in re.findall(r'\[ (.+?), %("[^"]+"|[\w.$-]+) \]', m.group(3)):
                    if pair[1].strip('"') == prev:
                        phis[m.group(1)] = number(operand(pair[0], env))
                        break
                else:
                    raise TooComplex()
                continue
            m = re.match(r"br label %(\"[^\"]+\"|[\w.$-]+)$", s)
            if m:
                return run(m.group(1).strip('"'), name, env, mem, stores, path)
            m = re.match(r'br i1 (\S+), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)$', s)
            if m:
                c = operand(m.group(1), env)
                t = run(m.group(2).strip('"'), name, env, mem, stores, path)
                f = run(m.group(3).strip('"'), name, env, mem, stores, path)
                return ite(c, t, f)
            if s.startswith("switch "):
                m = re.match(r'switch (\S+) (\S+), label %("[^"]+"|[\w.$-]+) \[(.*)\]$', s)
                if not m:
                    raise TooComplex()
                v = operand(m.group(2), env)
                out = []
                for val, lab in re.findall(r'\S+ (-?\w+), label %("[^"]+"|[\w.$-]+)', m.group(4)):
                    out.append((val, run(lab.strip('"'), name, env, mem, stores, path)))
                d = run(m.group(3).strip('"'), name, env, mem, stores, path)
                return "switch(%s;%s;else %s)" % (v, ";".join("%s:%s" % x for x in sorted(out)), d)
            m = re.match(r"store (.+) (\S+), ptr (\S+)$", s)
            if m:
                addr, val = operand(m.group(3), env), number(operand(m.group(2), env))
                if not addr.startswith("loc"):
                    stores[addr] = "%s:%s" % (val, m.group(1))
                mem[addr] = val
                continue
            m = re.match(r"call void @llvm\.memset\S*\(ptr (\S+), i8 0, i64 (\d+), i1 false\)$", s)
            if m:
                addr = operand(m.group(1), env)
                if addr.startswith("loc"):
                    raise TooComplex()
                stores[addr] = "0:[%s x i8]" % m.group(2)
                mem.clear()
                continue
            m = re.match(r"call void @llvm\.memcpy\S*\(ptr (\S+), ptr (\S+), i64 (\d+), i1 false\)$", s)
            if m:
                dst, src = operand(m.group(1), env), operand(m.group(2), env)
                stores[dst] = "copy%s(%s)" % (m.group(3), src)
                mem.clear()
                continue
            m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', s)
            if not m:
                raise TooComplex()
            if m.group(2).startswith("alloca "):
                env[m.group(1)] = "loc%d" % sum(1 for v in env.values() if v.startswith("loc"))
                continue
            r = expr(m.group(2), env, mem)
            if r is None or len(r) > 100000:
                raise TooComplex()
            env[m.group(1)] = r
        raise TooComplex()

    return run(fn.blocks[0][0], None, env, {}, {}, ())


SIZES = {"float": 4, "double": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "ptr": 8}


def size_of(ty):
    m = re.fullmatch(r"[\[<](\d+) x (\S+)[\]>]", ty)
    if m and m.group(2) in SIZES:
        return int(m.group(1)) * SIZES[m.group(2)]
    return SIZES.get(ty)


def place(addr):
    """(base, constant offset) of an address."""
    base, _, off = addr.partition("+")
    if off and not re.fullmatch(r"\d+(\+\d+)*", off):
        return addr, None
    return base, sum(int(x) for x in off.split("+")) if off else 0


def zeros(stores):
    """Stores of zeros and plain copies, whatever their width, as stores of single bytes."""
    out = {}
    for addr, v in stores.items():
        val, _, ty = v.rpartition(":")
        base, off = place(addr)
        src = n = None
        m = re.match(r"copy(\d+)\((.*)\)$", v)
        if m:
            n, src = int(m.group(1)), m.group(2)
        elif val in ("0", "0.0", "zeroinitializer", "splat", "null"):
            n = size_of(ty)
        elif re.match(r"\*[\w.]+(\+\d+)*$", val):
            n, src = size_of(ty), val[1:]
        sb, so = place(src) if src else ("", 0)
        if n is None or n > 256 or off is None or so is None:
            out[addr] = v
            continue
        for k in range(n):
            out["%s+%d" % (base, off + k)] = "byte %s+%d" % (sb, so + k) if src else "zero"
    return out


def ite(c, t, f):
    if t == f:
        return t
    m = re.match(r"(fcmp|icmp)\.(\w+)\((.*)\)$", c)
    neg = {"une": "oeq", "ult": "oge", "ule": "ogt", "uno": "ord", "ne": "eq"}
    if m and m.group(2) in ("une", "ne", "uno"):
        c = "%s.%s(%s)" % (m.group(1), neg[m.group(2)], m.group(3))
        t, f = f, t
    return "if(%s){%s}else{%s}" % (c, t, f)


def operand(o, env):
    o = o.strip()
    if o.startswith("%"):
        return env.get(o, "?" + o)
    m = re.match(r"getelementptr (?:i8, )?ptr (\S+), i64 (\d+)", o)
    return o


def number(o):
    if re.fullmatch(r"0x[0-9A-Fa-f]{16}", o):
        import struct
        return repr(struct.unpack(">d", bytes.fromhex(o[2:]))[0])
    if re.fullmatch(r"-?\d+\.\d+e[+-]\d+", o):
        return repr(float(o))
    return o


def expr(rhs, env, mem):
    m = re.match(r"(fadd|fsub|fmul|fdiv|frem|add|sub|mul|sdiv|udiv|srem|urem|and|or|xor|shl|lshr|ashr) "
                 r"((?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*)(\S+) (\S+), (\S+)$", rhs)
    if m:
        op, flags, ty, a, b = m.groups()
        a, b = number(operand(a, env)), number(operand(b, env))
        if op in COMM:
            a, b = sorted((a, b))
        return "%s%s(%s,%s)" % (op, flags.replace(" ", "."), a, b)
    m = re.match(r"fneg (\S+) (\S+)$", rhs)
    if m:
        return "fneg(%s)" % operand(m.group(2), env)
    m = re.match(r"(fpext|fptrunc|sitofp|uitofp|fptosi|fptoui|trunc|zext|sext|bitcast|ptrtoint|inttoptr) (\S+) (\S+) to (\S+)$", rhs)
    if m:
        v = number(operand(m.group(3), env))
        for ty, bits, mask in (("double", "64", "9223372036854775807"), ("float", "32", "2147483647")):
            if m.group(1) == "bitcast" and m.group(4) == ty and v.startswith("and(") and mask in v:
                # clearing the sign bit is what fabs does
                a = v[4:-1].replace("," + mask, "").replace(mask + ",", "")
                b = re.fullmatch(r"bitcast\.i%s\((.*)\)" % bits, a)
                return "llvm.fabs.f%s(%s)" % (bits, b.group(1) if b else a)
        return "%s.%s(%s)" % (m.group(1), m.group(4), v)
    m = re.match(r"load (\S+), ptr (\S+)(,.*)?$", rhs)
    if m:
        addr = operand(m.group(2), env)
        if addr in mem:
            return mem[addr]
        return "*%s" % addr
    m = re.match(r"load (.+), ptr (\S+)(,.*)?$", rhs)
    if m:
        addr = operand(m.group(2), env)
        return mem.get(addr, "*%s" % addr)
    m = re.match(r"getelementptr i8, ptr (\S+), i64 (\S+)$", rhs)
    if m:
        return "%s+%s" % (operand(m.group(1), env), m.group(2))
    m = re.match(r"(fcmp|icmp) (\w+) (\S+) (\S+), (\S+)$", rhs)
    if m:
        k, p, ty, a, b = m.groups()
        a, b = number(operand(a, env)), number(operand(b, env))
        flip = {"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}
        if p in flip:
            p, a, b = flip[p], b, a
        elif p in ("oeq", "une", "ord", "uno", "eq", "ne", "ueq", "one"):
            a, b = sorted((a, b))
        return "%s.%s(%s,%s)" % (k, p, a, b)
    m = re.match(r"select i1 (\S+), (\S+) (\S+), (\S+) (\S+)$", rhs)
    if m:
        return "select(%s,%s,%s)" % tuple(number(operand(x, env)) for x in (m.group(1), m.group(3), m.group(5)))
    m = re.match(r"insertvalue (\{.*?\}|\[.*?\]) (\S+), (\S+) (\S+), (\d+)$", rhs)
    if m:
        return "ins(%s,%s,%s)" % (operand(m.group(2), env), m.group(5), number(operand(m.group(4), env)))
    m = re.match(r"extractvalue (\{.*?\}|\[.*?\]) (\S+), (\d+)$", rhs)
    if m:
        return "ext(%s,%s)" % (operand(m.group(2), env), m.group(3))
    m = re.match(r'call (.+?) @("[^"]+"|[\w.$]+)\((.*)\)$', rhs)
    if m:
        f = m.group(2).strip('"')
        plain = not any(a.startswith("ptr") for a in split_args(m.group(3)))
        if f.startswith("llvm.") or re.fullmatch(r"[a-z0-9_]+", f) or plain:
            args = []
            for a in split_args(m.group(3)):
                args.append(number(operand(a.rpartition(" ")[2], env)))
            if f.startswith("llvm.powi.") and args[1] == "2":
                return "fmul(%s,%s)" % (args[0], args[0])
            if f.startswith("llvm.powi.") and args[1] == "1":
                return args[0]
            if f.startswith(("llvm.minnum", "llvm.maxnum", "llvm.maximum", "llvm.minimum")):
                args.sort()
            return "%s(%s)" % (f, ",".join(args))
    m = re.match(r"freeze (\S+) (\S+)$", rhs)
    if m:
        return operand(m.group(2), env)
    return None
