"""Nothing but the definitions decides what the macro makes of them."""
import concurrent.futures, os, random, re
import extract as X
import mirrules
import prog as P
import systems as S
import witness as W
from core import parts_of, settle
from C21 import variety
from C25 import cases

TITLE = "the same definitions always expand to the same program"
WHERE = "unit_system! (crates/diman_unit_system)"

LITERAL = re.compile(r"\{([^{}]*)\}")


def canonical(text):
    """The program without the order of the fields of struct literals (and of the bindings of struct patterns)."""
    def fields(m):
        parts = [" ".join(p.split()) for p in mirrules.split_top(m.group(1))]
        parts = [p for p in parts if p]
        if parts and all(re.match(r"^(r#)?\w+\s*:(?!:)|^\.\.", p) for p in parts):
            return "{ " + ", ".join(sorted(parts)) + " }"
        return m.group(0)
    return re.findall(r"\w+|[^\w\s]", LITERAL.sub(fields, text))


def si():
    src = open(os.path.join(X.REPO, "src", "si.rs")).read()
    m = re.search(r"unit_system!\s*([({\[])", src)
    if not m:
        return None
    close = {"(": ")", "{": "}", "[": "]"}[m.group(1)]
    # the printer of expanded code puts comments anywhere
    return re.sub(r"/\*.*?\*/|//[^\n]*", " ", src[m.end():src.rindex(close)], flags=re.S)


def sources(c, cfg, rnd):
    out = [("%s" % s.tag, s.text) for s in variety(rnd)]
    text = si()
    if text:
        out.append(("the definitions of src/si.rs", "diman::unit_system!(\n%s\n);" % text))
    else:
        c.notes.append("no unit_system! in src/si.rs")
    head = "quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension Mass; #[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second; #[base(Mass)] #[symbol(kg)] unit kilogram;"
    for k in range(8 if c.tier == "quick" else 30):
        out.append(("attributes of every kind %d" % k, "diman::unit_system!(%s\n%s);" % (head, S.mixed(rnd, P.rational(cfg)))))
    # many names for one dimension, in any order
    for k in range(4 if c.tier == "quick" else 12):
        names = ["Same%d" % i for i in range(6)]
        stats = ["dimension %s = Length^2 / Time * Mass^-1;" % n for n in names] + ["#[symbol(x%d)] unit v%d = %d meter^2 / second / kilogram;" % (i, i, i + 2) for i in range(5)] + [
            "constant C%d: Same%d = %d v%d;" % (i, i, i + 1, i) for i in range(5)]
        rnd.shuffle(stats)
        out.append(("names of one dimension %d" % k, "diman::unit_system!(%s\n%s);" % (head, "\n".join(stats))))
    return out


def expand(cfg, modules, k):
    d = os.path.join(X.outdir(), "wit")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "%s-c26-%d-%d.rs" % (cfg, os.getpid(), k))
    with open(src, "w") as f:
        f.write(W.HEAD + "use diman;\n" + "\n".join("pub mod m%d {\n%s\n}" % (i, t) for i, (n, t) in enumerate(modules + modules)) + "\n")
    try:
        p = X.rustc(cfg, src, ["-Zunpretty=expanded"], uses=P.uses(cfg), crate_name="w_c26")
    finally:
        os.remove(src)
    parts = re.split(r"^pub mod m(\d+) \{$", p.stdout, flags=re.M)
    return {int(parts[i]): canonical(parts[i + 1]) for i in range(1, len(parts) - 1, 2)}, p


def first_difference(a, b):
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r in one, %r in another" % tuple(" ".join(x[max(0, k - 8):k + 16]) for x in (a, b))


EFFECTS = {
    "the environment": r"\bstd::env::|\bproc_macro::tracked_env|\bstd::env\b",
    "the time": r"\bstd::time::|SystemTime|Instant::now",
    "files": r"\bstd::fs::|\bstd::io::stdin|proc_macro::tracked_path|\bOpenOptions\b|\bFile::open",
    "the network": r"\bstd::net::",
    "other processes": r"\bstd::process::(id|Command)",
    "random numbers": r"\bthread_rng\b|\brand::random\b|\bgetrandom::|\bfastrand::|\brand_core::",
    "addresses": r"PointerExposeProvenance|PointerExposeAddress|::addr\(|\{ptr:p\}|fmt::Pointer|new_pointer",
    "hashes of unknown keys": r"<RandomState as .*hash_one|<RandomState as .*build_hasher",
}
MUTABLE = re.compile(r"\b(Mutex|RwLock|Atomic\w+|RefCell|Cell|LocalKey)\b")
HASHED = re.compile(r"(Hash(?:Map|Set))(?:::)?(?:<.*>)?(?: as \w*IntoIterator>)?::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|union|intersection|difference|symmetric_difference)\b")


def effects(c, cfg):
    r = c.rule("effects-%s" % cfg, "no function of the macro crate reads anything but its input: no environment, time, file, random number, or address of an object "
               "(calls in MIR) [%s]" % cfg, 250)
    hashed = {}
    for it in mirrules.items(X.mir("us", cfg)):
        body = it.body
        if it.kind in ("static", "const") and "static" in it.header + it.kind and MUTABLE.search("static " + it.header):
            c.undecide(r, "[%s] %s may keep state between two expansions" % (cfg, it.name))
            continue
        if it.kind != "fn":
            continue
        calls = "\n".join(l for l in body.split("\n") if " -> [" in l or "as usize (Pointer" in l or " static" in l)
        hits = [w for w, p in EFFECTS.items() if re.search(p, calls)]
        for w in hits:
            line = next(l.strip() for l in calls.split("\n") if re.search(EFFECTS[w], l))
            c.bad(r, "%s/%s/%s" % (cfg, re.sub(r"\d+", "", it.name), w), "[%s] %s: %s depends on %s: %s" % (cfg, WHERE, it.name, w, line[:200]), line)
        if not hits:
            c.ok(r, 1, "[%s] %s" % (cfg, it.name))
        for m in HASHED.finditer(calls):
            hashed.setdefault("%s over %s" % (m.group(2), m.group(1)), set()).add(re.sub(r"<impl at crates/diman_unit_system/src/(\S+?):.*?>", r"\1", it.name))
    for k, v in sorted(hashed.items()):
        c.notes.append("[%s] iterates in hash order, which must not show (decided by the rules on expansions and errors): %s in %s" % (cfg, k, ", ".join(sorted(v))[:300]))


def run(c):
    K = 6 if c.tier == "quick" else 16
    rnd = random.Random(c.seed)
    for cfg in ("default", "no-rational", "all-features"):
        effects(c, cfg)
    for cfg in ("default", "all-features", "nostd"):
        r = c.rule("program-%s" % cfg, "in %d compilations, which order their hash tables differently, and twice in each, a unit system expands to one and the same program, up to the order of "
                   "fields in literals [%s]" % (K, cfg), 25)
        modules = sources(c, cfg, rnd)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            runs = list(ex.map(lambda k: expand(cfg, modules, k), range(K)))
        for i, (name, text) in enumerate(modules):
            have = [x[0].get(j) for x in runs for j in (i, i + len(modules))]
            other = next((h for h in have if h != have[0]), have[0])
            if None in have:
                c.undecide(r, "[%s] %s: not expanded: %s" % (cfg, name, runs[0][1].stderr[:300]))
            elif other != have[0]:
                c.bad(r, "%s/%s" % (cfg, name), "[%s] %s: the expansion of %s varies from one expansion to the next: %s" % (
                    cfg, WHERE, name, first_difference(have[0], other)), text)
            else:
                c.ok(r, 1, "[%s] %s: %d tokens" % (cfg, name, len(have[0])))
        # the errors about faulty systems
        rf = c.rule("errors-%s" % cfg, "in %d compilations the errors about a faulty unit system are the same, up to their order [%s]" % (K, cfg), 20)
        cs = [x for x in cases(P.rational(cfg)) if len(x.must) > 2 or x.dims and "A2B3" in x.what or len(x.names) > 1]
        crates = []
        for k in range(K):
            cr = W.Crate(cfg, "c26-errors%d" % k, "use diman;\n", P.uses(cfg))
            for i, case in enumerate(cs):
                cr.add(case.what, "pub mod b%d { diman::unit_system!(\n%s\n); }" % (i, case.text))
            crates.append(cr)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(settle, [p for cr in crates for p in parts_of(cr, 6)]))
        for i, case in enumerate(cs):
            have = [sorted(str((d[1], d[2], sorted(d[3]))) for d in cr.items[i].diags if not d[0]) for cr in crates]
            other = next((h for h in have if h != have[0]), None)
            if other is None:
                c.ok(rf, 1, "[%s] %s: %d errors" % (cfg, case.what, len(have[0])))
            else:
                a, b = next(iter(set(have[0]) - set(other)), "-"), next(iter(set(other) - set(have[0])), "-")
                c.bad(rf, "%s/%s" % (cfg, case.what), "[%s] %s: the errors about %s vary from one compilation to the next: %s / %s" % (cfg, WHERE, case.what, a[:200], b[:200]), case.text)
