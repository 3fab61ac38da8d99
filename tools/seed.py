#!/usr/bin/env python3
"""seed.py <spec.py>...: build /verif/seeded/<id>/ from a spec and confirm it.

A spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source
with a "// SRCS:" line).  Confirmation in /repo (undone at once): builds, all
stable tests pass, demo exits 0 without and nonzero with the change.
"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated input
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
s=(); for f in $(sed -n 's/^\\/\\/ SRCS: //p' "$d/demo.c"); do s+=("$PWD/src/$f"); done
gcc -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I"$d" -I"$PWD/src" -I"$PWD/_build/src" %s \\
  "$d/demo.c" "${s[@]}" -o "$w/t" %s || exit 3
cd "$w" && timeout 60 ./t
'''
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def build(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.c", "w").write(g["DEMO"].lstrip())
        if '"card.h"' in g["DEMO"]:
            shutil.copy(V + "/findings/card.h", d)
        open(d + "/demo.sh", "w").write(DEMO_SH % (g.get("CFLAGS", "-DEMV_DEBUG_ENABLED"), g.get("LIBS", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        for f, o, n in g["EDITS"]:
            p = "/repo/src/%s" % f; t = open(p).read()
            assert t.count(o) == 1, (f, t.count(o), o)
            open(p, "w").write(t.replace(o, n))
        open(d + "/patch.diff", "wb").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout)
        b = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("bash /opt/vp/test.sh %s/o.json" % w)
        got = json.load(open(w + "/o.json"))["passed"]
        miss = [x for x in STABLE if x not in got]
        out = c.stdout.decode()
        print(g["ID"], g["PROP"], "clean", a.returncode, "patched", b.returncode, "failing tests:", miss)
        if a.returncode or not b.returncode or miss:
            print("--- NOT CONFIRMED\n", a.stdout.decode()[-200:], "\n--\n", b.stdout.decode()[-300:])
    finally:
        sh("git -C /repo checkout -- .")
        shutil.rmtree(w)
for s in sys.argv[1:]:
    build(s)
