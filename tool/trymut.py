#!/usr/bin/env python3
"""Development aid: apply textual edits to a scratch copy of /repo and run checks on it.

usage: trymut.py EDITS.py [name...]    EDITS.py defines M = {name: (file, old, new, [check ids])}
An edit whose name starts with "ok-" must leave the checks quiet.
"""
import os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    f, old, new, ids = ns["M"][name] if len(ns["M"][name]) == 4 else (ns["M"][name][0], 0, 0, ns["M"][name][-1])
    d = tempfile.mkdtemp(prefix="gam_")
    try:
        for p in ("src", "CMakeLists.txt", "python"):
            s = os.path.join("/repo", p)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, p))
        edits = [(f, old, new)] if isinstance(f, str) else f
        for (ff, o, n) in edits:
            t = open(os.path.join(d, ff)).read()
            if t.count(o) < 1:
                return "%-28s PATTERN MISSING" % name
            open(os.path.join(d, ff), "w").write(t.replace(o, n, 1))
        out = []
        for i in ids:
            p = subprocess.run([sys.executable, os.path.join(here, "check.py"), i], cwd="/", text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, GA_REPO=d, GA_NOEVIDENCE="1"))
            v = [l for l in p.stdout.splitlines() if "VIOLATION" in l or "violation" in l][:1]
            ok = (p.returncode == 0) if name.startswith("ok-") else (p.returncode == 1)
            detail = p.stdout.strip().splitlines()
            out.append("%s rc=%d %s %s" % (i, p.returncode, "good" if ok else "*** BAD ***",
                                           "" if p.returncode == 0 else " / ".join(detail)[:260]))
        return "%-28s %s" % (name, "\n    ".join(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [n for n in ns["M"] if not want or n in want]):
        print(r, flush=True)
