#!/usr/bin/env python3-vt
"""mutate.py TABLE.py [LABEL...]: run checks on edited scratch copies of /repo.

TABLE.py defines EDITS = [(label, [checks], expected "bug" or "same", [(file, old, new), ...])]: every edit is made in a scratch
copy under /tmp, the checks are run on it, and what they say is compared to what is expected ("same": the edit keeps the
behaviour, so that the checks have to stay quiet; "bug": one of them has to report a violation)."""
import concurrent.futures, os, runpy, shutil, subprocess, sys

BASE = "/tmp/mut/.base"  # a copy of the cache, as checks of the unedited tree may be changing the cache meanwhile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(e):
    label, checks, want, edits = e
    root = "/tmp/mut/" + "".join(ch if ch.isalnum() else "_" for ch in label)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    repo, cache = root + "/repo", root + "/cache"
    try:
        subprocess.run(["cp", "-a", os.environ.get("MUTATE", "/repo"), repo], check=True)
        subprocess.run(["cp", "-a", BASE, cache], check=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if old not in s:
                return label, "edit does not apply: %s: %s" % (f, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        out = []
        for c in checks if checks != ["ALL"] else ["C%02d" % k for k in range(1, 29)]:
            p = subprocess.run(["python3-vt", VERIF + "/check.py", c], env=dict(os.environ, DIMAN_REPO=repo, DIMAN_CACHE=cache), capture_output=True, text=True)
            open("/tmp/mut/%s.%s.log" % (os.path.basename(root), c), "w").write(p.stdout + p.stderr)
            n = p.stdout.count("VIOLATION property=")
            u = p.stdout.count("undecided:")
            out.append((c, p.returncode, n, u))
        ok = any(rc == 1 for _, rc, _, _ in out) if want == "bug" else all(rc == 0 for _, rc, _, _ in out)
        return label, "%-6s %s %s" % ("ok" if ok and all(rc in (0, 1) for _, rc, _, _ in out) else "FAIL", want, " ".join("%s:rc=%d,v=%d,u=%d" % x for x in out if checks != ["ALL"] or x[1:] != (0, 0, 0)))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    edits = runpy.run_path(sys.argv[1])["EDITS"]
    if os.environ.get("CHECKS"):  # instead of those of the table
        edits = [(a, os.environ["CHECKS"].split(), b, d) for a, _, b, d in edits]
    if sys.argv[2:]:
        edits = [e for e in edits if any(a in e[0] for a in sys.argv[2:])]
    if not os.path.isdir(BASE):
        os.makedirs("/tmp/mut", exist_ok=True)
        subprocess.run(["rsync", "-a", "--exclude", "*.ll", "--exclude", "*.mir", VERIF + "/.cache/", BASE]) if shutil.which("rsync") else subprocess.run(["cp", "-a", VERIF + "/.cache", BASE])
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for label, text in ex.map(one, edits):
            print("%-60s %s" % (label, text), flush=True)


main()
