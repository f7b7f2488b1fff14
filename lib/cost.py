"""What a function of the optimised IR does at run time, counted."""
import collections, re
import llvm

FP = re.compile(r"(fadd|fsub|fmul|fdiv|frem)\b")
# intrinsics that stand for arithmetic or a function of the mathematical library
MATH = re.compile(r"llvm\.(sqrt|sin|cos|exp2|exp|log2|log10|log|pow|powi|fma|fmuladd|cbrt|minnum|maxnum|minimum|maximum|floor|ceil|trunc|rint|nearbyint|round|roundeven)\.")
FREE = re.compile(r"llvm\.(assume|lifetime|experimental|dbg|expect|donothing|invariant)")
MEMORY = re.compile(r"llvm\.(memcpy|memmove|memset)")
INTRINSIC = re.compile(r"llvm\.")


class Cost:
    def __init__(self):
        self.calls = collections.Counter()
        self.arithmetic = collections.Counter()
        self.loops = 0
        self.locals = 0
        self.panics = False

    def show(self):
        out = ["%d loop%s" % (self.loops, "s" * (self.loops > 1))] if self.loops else []
        out += ["%d x %s" % (n, k) for k, n in sorted(self.arithmetic.items())]
        out += ["%d x call of %s" % (n, k) for k, n in sorted(self.calls.items())]
        out += ["%d values in memory" % self.locals] if self.locals else []
        out += ["a check that may panic"] if self.panics else []
        return ", ".join(out) or "nothing"


def demangle(name):
    """The path in a (legacy or v0) mangled name, for people."""
    m = re.match(r"_ZN(.*)E$", name)
    if m:
        parts, s = [], m.group(1)
        while s:
            n = re.match(r"\d+", s)
            if not n:
                break
            k = int(n.group(0))
            parts.append(s[n.end():n.end() + k])
            s = s[n.end() + k:]
        parts = [p for p in parts if not re.fullmatch(r"h[0-9a-f]{16}", p)]
        t = "::".join(parts)
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["),
                     ("$u5d$", "]"), ("$LP$", "("), ("$RP$", ")"), ("..", "::")):
            t = t.replace(a, b)
        return t.lstrip("_")
    return name


def measure(fn):
    c = Cost()
    byname = {b[0]: b[1] for b in fn.blocks}
    cold = {n for n, b in byname.items() if llvm.reaches_panic(b)}
    c.panics = any(re.search(r"\b(call|invoke)\b", i) for n in cold for i in byname[n])
    succ = {}
    for n, body in byname.items():
        term = body[-1] if body else ""
        succ[n] = [t.strip('"') for t in re.findall(r'label %("[^"]+"|[\w.$-]+)', term) if t.strip('"') in byname]
        if n in cold:
            continue
        for ins in body:
            s = re.sub(r"^%\S+ = ", "", llvm.strip_attrs(ins))
            m = FP.match(s)
            if m:
                c.arithmetic[m.group(1)] += 1
                continue
            if s.startswith("alloca "):
                c.locals += 1
                continue
            if re.match(r"(atomicrmw|cmpxchg|fence|(load|store) (atomic|volatile))\b", s):
                c.calls["a synchronising access to memory"] += 1
                continue
            m = re.search(r'\b(?:call|invoke)\b[^@]*@("[^"]+"|[\w.$]+)\(', s)
            if m:
                f = m.group(1).strip('"')
                if MATH.match(f):
                    c.arithmetic[f.split(".")[1]] += 1
                elif MEMORY.match(f) or INTRINSIC.match(f):
                    pass
                else:
                    c.calls[demangle(f)] += 1
            elif re.match(r"(call|invoke)\b", s):
                c.calls["a function pointer"] += 1
    # loops: edges back to a block on the current path of a depth-first walk
    state, entry = {}, fn.blocks[0][0]
    stack = [(entry, iter(succ[entry]))]
    state[entry] = 1
    heads = set()
    while stack:
        n, it = stack[-1]
        for t in it:
            if state.get(t) == 1:
                heads.add(t)
            elif t not in state:
                state[t] = 1
                stack.append((t, iter(succ[t])))
                break
        else:
            state[n] = 2
            stack.pop()
    c.loops = len(heads)
    return c


def excess(w, r):
    """[(kind, text)]: what w does more of than r."""
    out = []
    more = w.calls - r.calls
    if sum(w.calls.values()) > sum(r.calls.values()):
        out += [("calls", k) for k in sorted(more)]
    if w.loops > r.loops:
        out.append(("loops", "%d loops instead of %d" % (w.loops, r.loops)))
    if w.locals > r.locals:
        out.append(("locals", "%d values in memory instead of %d" % (w.locals, r.locals)))
    if w.panics and not r.panics:
        out.append(("panics", "a check that may panic"))
    # the programs are compiled without partial unrolling, so every loop has its body once
    a, b = sum(w.arithmetic.values()), sum(r.arithmetic.values())
    if a > b:
        out.append(("arithmetic", "%d floating point operations instead of %d" % (a, b)))
    return out
