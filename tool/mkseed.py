#!/usr/bin/env python3
"""Development aid: write seeded/<id>/ from a definition file and try it.

usage: mkseed.py DEFS.py [name...]     DEFS.py: S = {name: dict(prop, needs, what, edits=[(file, old, new)], demo=C text, lang)}
"""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the C library of the tree in the current directory with demo.%(ext)s and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/geoarrow"
sed -e 's/@GEOARROW_VERSION_MAJOR@/0/;s/@GEOARROW_VERSION_MINOR@/2/;s/@GEOARROW_VERSION_PATCH@/0/' \\
    -e 's/@GEOARROW_VERSION@/0.2.0/;s/@GEOARROW_USE_[A-Z_]*_DEFINE@//;s/@GEOARROW_NAMESPACE_DEFINE@//' \\
    src/geoarrow/geoarrow_config.h.in > "$t/geoarrow/geoarrow_config.h"
for f in $(ls src/geoarrow/*.c | grep -v _test) src/vendor/nanoarrow/nanoarrow.c; do
  gcc -g -O0 -w -std=gnu99 %(flags)s -I"$t" -Isrc -Isrc/vendor -c "$f" -o "$t/$(basename $f).o" &
done
wait
%(cc)s -g -O0 -w %(std)s %(flags)s -I"$t" -Isrc -Isrc/vendor "$here/demo.%(ext)s" "$t"/*.o -o "$t/demo" -lm %(link)s || exit 4
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


ns = {}
exec(open(sys.argv[1]).read(), ns)
names = [a for a in sys.argv[2:] if not a.startswith("-")] or list(ns["S"])
for name in names:
    s = ns["S"][name]
    d = os.path.join(here, "seeded", name)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo dirty"
    try:
        for f, o, n in s["edits"]:
            p = os.path.join("/repo", f)
            t = open(p).read()
            assert t.count(o) == 1, (name, f, t.count(o))
            open(p, "w").write(t.replace(o, n))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ext = s.get("ext", "c")
        if "demo_sh" in s:
            open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
            if s.get("demo"):
                open(os.path.join(d, s["file"]), "w").write(s["demo"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % {
                "ext": ext, "flags": s.get("flags", ""), "link": s.get("link", ""),
                "cc": "g++" if ext == "cc" else "gcc", "std": "-std=c++17" if ext == "cc" else "-std=gnu99"})
            open(os.path.join(d, "demo." + ext), "w").write(s["demo"])
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rebuild = any(f.startswith("python/") for f, o, n in s["edits"])
        if rebuild or "-t" in sys.argv:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(name, "*** does not build", b.stdout[-300:])
                continue
        bad = sh("bash %s/demo.sh" % d, cwd="/repo")
        chk = {}
        for c in s.get("checks", [s["prop"]]):
            if os.path.exists(os.path.join(here, "checks", c.lower() + ".py")):
                r = sh("python3 %s/check.py %s" % (here, c))
                chk[c] = r.returncode
        tests = "skipped"
        if "-t" in sys.argv:
            tests = sh("bash /opt/vp/test.sh /tmp/seedtest.json").stdout.strip().splitlines()[-1]
    finally:
        sh("git -C /repo checkout -- .")
    if rebuild or "-t" in sys.argv:
        sh("bash /opt/vp/build.sh")
    good = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("%-26s demo clean=%d patched=%d checks=%s tests=%s %s" % (
        name, good.returncode, bad.returncode, chk, tests,
        "" if good.returncode == 0 and bad.returncode else "*** " + (good.stdout if good.returncode else bad.stdout)[-400:]), flush=True)
