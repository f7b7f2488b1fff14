"""Witness crates: generated Rust modules compiled (never run) against this
tree's diman.  Errors are attributed to the witness whose lines they touch;
optimised LLVM IR of each witness is read back for value-flow comparison."""
import concurrent.futures, hashlib, json, os, re, sys
import extract as X
import llvm

HEAD = """#![feature(generic_const_exprs, adt_const_params)]
#![allow(incomplete_features, unused, non_upper_case_globals, non_snake_case, non_camel_case_types, dead_code)]
"""


class PreludeError(X.ExtractError):
    """What all witnesses of a crate share does not compile."""


class Item:
    def __init__(self, key, code, note=""):
        self.key, self.code, self.note = key, code, note
        self.errors = []  # (code, message, rendered)
        self.diags = []   # (code, message, notes, [(line within the item, column, line, column)] of the primary spans)


class Crate:
    """A crate made of independent items; `compile` tells which items rustc rejects."""

    def __init__(self, config, name, prelude="", uses=()):
        self.config, self.name, self.prelude, self.uses = config, name, prelude, tuple(uses)
        self.items = []
        self.keys = set()
        self.tail = ""
        self.head = HEAD

    def add(self, key, code, note=""):
        if key in self.keys:
            raise X.ExtractError("duplicate witness key " + key)
        self.keys.add(key)
        it = Item(key, code, note)
        self.items.append(it)
        return it

    def _write(self, items, path):
        lines = (self.head + self.prelude).rstrip("\n").split("\n")
        ranges = []
        for it in items:
            start = len(lines) + 1
            lines += it.code.rstrip("\n").split("\n")
            ranges.append((start, len(lines), it))
        lines += self.tail.split("\n")
        open(path, "w").write("\n".join(lines) + "\n")
        return ranges

    def _dir(self):
        d = os.path.join(X.outdir(), "wit")
        os.makedirs(d, exist_ok=True)
        return d

    def compile(self, emit="metadata", items=None, opt=False, extra=(), tag="", verbose=True):
        """Compile; fill in each item's errors.  Returns (process, output path, stray errors)."""
        items = self.items if items is None else items
        base = os.path.join(self._dir(), "%s-%s-%d%s" % (self.config, self.name, os.getpid(), tag))
        src = base + ".rs"
        out = base + {"metadata": ".rmeta", "llvm-ir": ".ll", "mir": ".mir"}[emit]
        if os.path.exists(out):
            os.remove(out)
        ranges = self._write(items, src)
        args = ["--emit=%s=%s" % (emit, out)] + list(extra)
        if emit == "mir" and verbose:
            args.insert(0, "-Zverbose-internals")
        if opt:
            args.append("-Zmerge-functions=disabled")
        p = X.rustc(self.config, src, args, uses=self.uses, opt=opt, crate_name="w_" + re.sub(r"\W", "_", os.path.basename(base)))
        for it in items:
            it.errors, it.diags = [], []
        stray = []
        for line in p.stderr.splitlines():
            if not line.startswith("{"):
                if line.strip():
                    stray.append(("", line, line))
                continue
            m = json.loads(line)
            if m.get("level") not in ("error", "error: internal compiler error"):
                continue
            if re.match(r"aborting due to|could not compile", m["message"]):
                continue
            code = (m.get("code") or {}).get("code") or ""
            hit = set()
            spans = list(m["spans"])
            prim = [s for s in spans if s["is_primary"]] or spans
            for s in prim:
                while s:
                    if os.path.basename(s["file_name"]) == os.path.basename(src):
                        for a, b, it in ranges:
                            if a <= s["line_start"] <= b:
                                hit.add(id(it))
                    s = (s.get("expansion") or {}).get("span")
            if not hit:
                for c in m.get("children", []):
                    for s in c["spans"]:
                        if os.path.basename(s["file_name"]) == os.path.basename(src):
                            for a, b, it in ranges:
                                if a <= s["line_start"] <= b:
                                    hit.add(id(it))
            if not hit:
                stray.append((code, m["message"], m.get("rendered") or ""))
            for a, b, it in ranges:
                if id(it) in hit:
                    it.errors.append((code, m["message"], m.get("rendered") or ""))
                    it.diags.append((code, m["message"], [x["message"] for x in m.get("children", [])], [
                        (s["line_start"] - a, s["column_start"], s["line_end"] - a, s["column_end"]) for s in m["spans"] if s["is_primary"]]))
        os.remove(src)
        return p, out, stray

    def isolate(self, items, emit="metadata", opt=False):
        """Items whose errors rustc reports outside of them: compile each on its own."""
        p, out, stray = self.compile(emit, [], opt, tag="-none")
        if p.returncode != 0:
            raise PreludeError("\n".join(s[2] for s in stray)[:3000] or p.stderr[-3000:])

        def one(k):
            p, out, stray = self.compile(emit, [items[k]], opt, tag="-%d" % k)
            for f in (out,):
                if os.path.exists(f):
                    os.remove(f)
            if p.returncode != 0 and not items[k].errors:
                items[k].errors = stray or [("", p.stderr[-300:], p.stderr)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, range(len(items))))
        return [it for it in items if it.errors]

    def must_compile(self, emit="metadata", opt=False, extra=(), verbose=True):
        """Compile; items that fail are reported and left out of a second pass.
        Returns ([failed items], output path)."""
        items, failed = list(self.items), []
        for _ in range(6):
            p, out, stray = self.compile(emit, items, opt, extra, verbose=verbose)
            if p.returncode == 0:
                return failed, out
            bad = [it for it in items if it.errors]
            if not bad:
                bad = self.isolate(items, emit, opt)
            if not bad:
                raise X.ExtractError("witness crate %s [%s] fails outside its witnesses: %s" % (
                    self.name, self.config, "\n".join(s[2] for s in stray)[-3000:] or p.stderr[-3000:]))
            failed += [(it, list(it.errors)) for it in bad]
            items = [it for it in items if not it.errors]
            if not items:
                return failed, None
        raise X.ExtractError("witness crate %s [%s] does not settle" % (self.name, self.config))


class Twins:
    """Pairs of functions: one on quantities, its twin on bare numbers.  Their
    optimised IR must agree."""

    def __init__(self, config, name, prelude, uses=()):
        self.crate = Crate(config, name, prelude, uses)
        self.pairs = []

    def add(self, key, wsig, wbody, rsig, rbody, alts=()):
        """`alts`: other bodies of the twin that are just as right."""
        n = len(self.pairs)
        code = "#[no_mangle] pub fn w_%d%s { %s }\n#[no_mangle] pub fn r_%d%s { %s }" % (n, wsig, wbody, n, rsig, rbody)
        for k, b in enumerate(alts):
            code += "\n#[no_mangle] pub fn r_%d_%d%s { %s }" % (n, k, rsig, b)
        self.crate.add(key, code)
        self.pairs.append((n, key, len(alts)))

    def run(self):
        """Returns (rejected [(key, message)], differing [(key, w, r)], equal count)."""
        failed, out = self.crate.must_compile("llvm-ir", opt=True)
        rej = [(it.key, it.code, errs[0]) for it, errs in failed]
        bad = {it.key for it, _ in failed}
        diff, eq = [], []
        if out is None:
            return rej, diff, eq
        text = open(out).read()
        os.remove(out)
        fns, aliases, consts = llvm.parse(text)
        for n, key, alts in self.pairs:
            if key in bad:
                continue
            found = None
            for r in ["r_%d" % n] + ["r_%d_%d" % (n, k) for k in range(alts)]:
                w = "w_%d" % n
                w, r = aliases.get(w, w), aliases.get(r, r)
                cw = llvm.canon(fns[w])
                cr = cw if w == r else llvm.canon(fns[r])
                if cw == cr:
                    eq.append((key, cw))
                    break
                found = found or (key, cw, cr)
            else:
                diff.append(found)
        return rej, diff, eq
