#!/usr/bin/env python3-vt
"""Undo every repaired defect (known_findings.txt) in a scratch copy of /repo: its property's check has to report it again."""
import concurrent.futures, os, re, shutil, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(a):
    prop, commit, what = a
    root = "/tmp/rev/" + commit
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
        subprocess.run(["cp", "-a", VERIF + "/.cache", root + "/cache"], check=True)
        p = subprocess.run(["git", "-C", root + "/repo", "revert", "--no-commit", commit], capture_output=True, text=True)
        if p.returncode:
            return "%s %s does not revert: %s" % (prop, commit, p.stderr[:200])
        p = subprocess.run(["python3-vt", VERIF + "/check.py", prop], env=dict(os.environ, DIMAN_REPO=root + "/repo", DIMAN_CACHE=root + "/cache"), capture_output=True, text=True)
        open("/tmp/rev/%s.%s.log" % (commit, prop), "w").write(p.stdout + p.stderr)
        return "%-6s %s %s rc=%d v=%d  %s" % ("ok" if p.returncode == 1 else "FAIL", prop, commit, p.returncode, p.stdout.count("VIOLATION"), what[:80])
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    todo = [m.groups() for m in (re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in open(VERIF + "/known_findings.txt")) if m]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for t in ex.map(one, todo):
            print(t, flush=True)
