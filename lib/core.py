"""Running a check: rule instances, violations, known findings, evidence."""
import concurrent.futures, hashlib, json, os, re, sys, time, traceback
import extract as X
from witness import PreludeError

VERIF = X.VERIF


class Check:
    def __init__(self, pid, title):
        self.pid, self.title = pid, title
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rules = {}      # rule -> {instances, floor, held}
        self.violations = []  # (key, text, detail)
        self.samples, self.notes, self.assumptions, self.undecided = [], [], [], []

    def rule(self, name, what, floor=1):
        self.rules.setdefault(name, dict(what=what, instances=0, held=0, floor=floor))
        return name

    def ok(self, rule, n=1, sample=None):
        r = self.rules[rule]
        r["instances"] += n
        r["held"] += n
        if sample is not None and r.setdefault("sampled", 0) < 3:
            r["sampled"] += 1
            self.samples.append("%s: %s" % (rule, sample))

    def bad(self, rule, key, text, detail=""):
        """A violation.  `key` names the construct, without line numbers."""
        self.rules[rule]["instances"] += 1
        self.violations.append(("%s:%s" % (rule, key), text, detail))

    def undecide(self, rule, text):
        self.rules[rule]["undecided"] = self.rules[rule].get("undecided", 0) + 1
        self.undecided.append("%s: %s" % (rule, text))

    def finish(self):
        for name, r in self.rules.items():
            if r["instances"] < r["floor"] and not r.get("undecided"):
                self.violations.append(("%s:floor" % name, "rule %s: %s applies to %d constructs, fewer than the %d "
                                        "confirmed by hand: what it is about is gone or no longer recognised" % (
                                            name, r["what"], r["instances"], r["floor"]), ""))
        known = load_known(self.pid)
        new, hit = [], []
        for key, text, detail in self.violations:
            (hit if key in known else new).append((key, text, detail))
        rdir = os.path.join(X.CACHE, "replay")
        os.makedirs(rdir, exist_ok=True)
        print("check %s: %s" % (self.pid, self.title))
        for name, r in self.rules.items():
            print("  rule %-26s %5d instances, %5d hold  (%s)" % (name, r["instances"], r["held"], r["what"]))
        for u in self.undecided[:20]:
            print("  undecided:", u)
        for n in self.notes[:20]:
            print("  note:", n)
        for key in sorted({k for k, _, _ in hit}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]))
        seen = set()
        for key, text, detail in new:
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 25:
                continue
            path = os.path.join(rdir, "%s-%s.txt" % (self.pid, hashlib.sha256(key.encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                f.write("property %s: %s\nkey: %s\n%s\n\n%s\n\nreplay: python3-vt /verif/check.py %s\n" % (
                    self.pid, self.title, key, text, detail, self.pid))
            print("  " + text.replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if len(seen) > 25:
            print("  ... and %d more" % (len(seen) - 25))
        total = sum(r["instances"] for r in self.rules.values())
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other", wall_s=round(time.time() - self.t0, 2),
                  violations=len(seen), assumptions=self.assumptions,
                  coverage=dict(
                      explanation="; ".join("%s: %s (%d instances analysed, %d hold)" % (
                          n, r["what"], r["instances"], r["held"]) for n, r in self.rules.items()),
                      obligations=total, discharged=sum(r["held"] for r in self.rules.values()),
                      rules={n: dict(rule=r["what"], instances=r["instances"], held=r["held"], floor=r["floor"])
                             for n, r in self.rules.items()},
                      samples=self.samples[:24], undecided=self.undecided[:40], notes=self.notes[:40],
                      tree=X.tree_hash()))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if new else 0


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def guarded(f):
    """What every witness shares must compile too: it is a valid use of the library."""
    def g(c, rule, crate, *a):
        try:
            return f(c, rule, crate, *a)
        except PreludeError as e:
            cr = getattr(crate, "crate", crate)
            c.bad(rule, "%s/%s/prelude" % (cr.config, cr.name), "[%s] the unit system and imports that the witnesses of %s share "
                  "are rejected: %s" % (cr.config, cr.name, str(e)[:600]), str(e))
    return g


@guarded
def twins(c, rule, t, where):
    """Run a Twins crate under a rule of the check."""
    rej, diff, eq = t.run()
    for key, code, err in rej:
        c.bad(rule, "%s/%s" % (t.crate.config, key), "[%s] %s: rustc rejects the witness (%s): %s" % (
            t.crate.config, where, err[0], err[1]), code + "\n" + err[2])
    for key, w, r in diff:
        it = [i for i in t.crate.items if i.key == key][0]
        c.bad(rule, "%s/%s" % (t.crate.config, key),
              "[%s] %s: %s computes something else than the same operation on bare numbers\n  quantity: %s\n  numbers:  %s" % (
                  t.crate.config, where, key, w[:400], r[:400]), it.code + "\n\nquantity: " + w + "\nnumbers:  " + r)
    for key, txt in eq:
        c.ok(rule, 1, "%s [%s] %s" % (key, t.crate.config, txt[:160]))


@guarded
def accepted(c, rule, crate, where, chunk=None):
    """Every witness of the crate must type-check."""
    if chunk:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            failed = [f for fs, out in ex.map(lambda s: s.must_compile(), parts_of(crate, chunk)) for f in fs]
    else:
        failed, out = crate.must_compile()
    bad = {it.key for it, _ in failed}
    for it, errs in failed:
        c.bad(rule, "%s/%s" % (crate.config, it.key), "[%s] %s: %s: rustc rejects what must be accepted: %s %s" % (
            crate.config, where, it.note or it.key, errs[0][0], errs[0][1]), it.code + "\n" + errs[0][2])
    good = [it for it in crate.items if it.key not in bad]
    for it in good:
        c.ok(rule, 1, "[%s] %s" % (crate.config, it.note or it.key))


@guarded
def rejected(c, rule, crate, where, codes=None, chunk=None):
    """Every witness of the crate must be rejected (with one of the codes)."""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(settle, parts_of(crate, chunk) if chunk else [crate]))
    for it in crate.items:
        want = getattr(it, "codes", None) or codes
        errs = [e for e in it.errors if not want or e[0] in want]
        if errs:
            c.ok(rule, 1, "[%s] %s -> %s %s" % (crate.config, it.note or it.key, errs[0][0], errs[0][1][:100]))
        elif it.errors:
            c.bad(rule, "%s/%s" % (crate.config, it.key), "[%s] %s: %s: rejected, but for another reason than expected "
                  "(%s): %s %s" % (crate.config, where, it.note or it.key, "/".join(want), it.errors[0][0], it.errors[0][1]),
                  it.code + "\n" + it.errors[0][2])
        else:
            c.bad(rule, "%s/%s" % (crate.config, it.key), "[%s] %s: %s: rustc accepts what must be rejected" % (
                crate.config, where, it.note or it.key), it.code)


def parts_of(crate, chunk):
    # whole unit systems: checking their implementations for overlap is quadratic in their number
    parts = []
    for k in range(0, len(crate.items), chunk):
        sub = type(crate)(crate.config, "%s-%d" % (crate.name, k), crate.prelude, crate.uses)
        sub.tail, sub.head, sub.items = crate.tail, crate.head, crate.items[k:k + chunk]
        parts.append(sub)
    return parts


def settle(crate):
    """Fill in the errors of every item that rustc rejects."""
    # an error in an early phase of the compiler hides those of later ones
    left, stray = list(crate.items), []
    for _ in range(8):
        p, out, stray = crate.compile(items=left)
        if p.returncode == 0:
            break
        hit = [it for it in left if it.errors] or crate.isolate(left)
        if not hit:
            raise X.ExtractError("witness crate %s [%s] fails outside its witnesses: %s" % (
                crate.name, crate.config, "\n".join(s[2] for s in stray)[-3000:]))
        left = [it for it in left if not it.errors]
        if not left:
            break
    else:
        crate.isolate(left)
