#!/usr/bin/env python3
"""mkseed.py spec.py: makes seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], SRCS, DEMO) and confirms the demo on a clean and on a changed copy."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(s):
    d = os.path.join(V, "seeded", s["ID"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed_"); a = os.path.join(t, "clean"); b = os.path.join(t, "bug")
    for x in (a, b): subprocess.check_call(["git", "clone", "-q", "/repo", x])
    for f, o, n in s["EDITS"]:
        p = os.path.join(b, f); c = open(p).read(); assert c.count(o) >= 1, (f, o, c.count(o)); c = c.replace(o, n, 1); open(p, "w").write(c)
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", b, "diff"], text=True))
    open(os.path.join(d, "demo.cpp"), "w").write(s["DEMO"].lstrip("\n"))
    for x in s.get("EXTRA", []): shutil.copy(os.path.join(V, x), d)
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0: the property holds for this case; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
SRCS="$(ls %s)"; FLAGS="-std=c++14 -O0 -w -DNDEBUG -fno-access-control -I$PWD -I/usr/include/eigen3%s"
for f in "$here/demo.cpp" $SRCS; do echo "$f"; done | xargs -P 8 -I{} sh -c 'g++ '"$FLAGS"' -c "{}" -o "'"$T"'/$(echo "{}" | tr / _).o" 2>> "'"$T"'/err"'
ls "$T"/*demo.cpp.o > /dev/null || { cat "$T/err" | head; exit 3; }
g++ "$T"/*.o -Wl,--unresolved-symbols=ignore-all -no-pie -o "$T/demo" || exit 3
cd "$T" && timeout 100 ./demo
''' % (" ".join(s["SRCS"]), (" -DUSE_HDF5 -I$here" if s.get("EXTRA") else "") + " " + s.get("FLAGS", "")))
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = [subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for x in (a, b)]
    shutil.rmtree(t)
    ok = r[0].returncode == 0 and r[1].returncode not in (0, 3)
    print(s["ID"], "OK" if ok else "BAD clean=%d bug=%d\n%s\n%s" % (r[0].returncode, r[1].returncode, r[0].stdout[-500:], r[1].stdout[-500:]))
if __name__ == "__main__":
    g = {}; exec(open(sys.argv[1]).read(), g)
    for s in g["SEEDS"]:
        if len(sys.argv) < 3 or s["ID"] in sys.argv[2:]: make(s)
