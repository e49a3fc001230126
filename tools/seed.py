#!/usr/bin/env python3
"""Plant-a-bug helper (not used by any check).
  seed.py make ID SPEC.py     SPEC defines prop, needs, breaks, edits=[(file, old, new)], demo (C++ text), optional srcs, shim
  seed.py test ID...          apply to /repo, build, test, demo, run the property's check, undo
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")   # a copy will do for "caught"
DEMO = '''#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
f=(-std=c++20 -w -O1 -pthread -DDOTTORRENT_USE_OPENSSL -DFMT_HEADER_ONLY -DOPENSSL_SUPPRESS_DEPRECATED %(inc)s -Iinclude)
for s in "$d/demo.cpp" %(srcs)s; do g++ "${f[@]}" -c "$s" -o "$t/$(echo "${s#$d}" | tr / _).o" & p+=($!); done
for i in "${p[@]}"; do wait $i || exit 4; done
g++ -pthread "$t"/*.o -o "$t/demo" -lcrypto -lpthread || exit 4
cd "$t" && timeout 100 ./demo
'''


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def clean():
    run(["git", "-C", R, "checkout", "--", "."])


def make(sid, spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    assert not run(["git", "-C", R, "status", "--porcelain"]).stdout.strip()
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "-C", R, "diff"]).stdout
    finally:
        clean()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    inc = ""
    if ns.get("shim"):
        shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"), dirs_exist_ok=True)
        inc = '-include "$d/shim/prelude.hpp" -I"$d/shim/include"'
    else:
        inc = "-include algorithm -include functional -include string -include optional -include stdexcept -include fmt/format.h"
    open(os.path.join(d, "demo.sh"), "w").write(ns.get("demo_sh") or DEMO % {"inc": inc, "srcs": ns.get("srcs", "")})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(ns["demo"])
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def test(sid):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = {}
    r = run(["bash", os.path.join(d, "demo.sh")], cwd=R)
    res["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-800:], r.stderr[-1500:])
    try:
        a = run(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
        assert a.returncode == 0, a.stderr
        res["build"] = run(["bash", "/opt/vp/build.sh"]).returncode
        t = run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"])
        res["tests_failed"] = len(json.load(open("/tmp/seedtest.json"))["failed"])
        r = run(["bash", os.path.join(d, "demo.sh")], cwd=R)
        res["demo_bug"] = r.returncode
        res["demo_says"] = (r.stdout + r.stderr)[-150:].strip()
        c = run(["python3", os.path.join(V, "check.py"), prop], cwd=V)
        res["check"] = c.returncode
        res["said"] = [l[:260] for l in c.stdout.splitlines() if l.startswith("violation") or "ERROR" in l][:1]
        if c.returncode == 2:
            print(c.stdout[-1500:])
    finally:
        clean()
        run(["bash", "/opt/vp/build.sh"])
    ok = res["demo_clean"] == 0 and res["build"] == 0 and res["tests_failed"] == 0 and res["demo_bug"] not in (0, 3, 4)
    print("%s %s prop=%s valid=%s caught=%s %s" % ("OK " if ok and res["check"] == 1 else "BAD", sid, prop, ok, res["check"] == 1, json.dumps(res)))


def valid(sid):
    """Builds, passes the tests, and the demonstration tells the trees apart."""
    d = os.path.join(V, "seeded", sid)
    a0 = run(["bash", os.path.join(d, "demo.sh")], cwd=R)
    try:
        a = run(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
        b = run(["bash", "/opt/vp/build.sh"]).returncode
        run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"])
        t = len(json.load(open("/tmp/seedtest.json"))["failed"])
        a1 = run(["bash", os.path.join(d, "demo.sh")], cwd=R)
    finally:
        clean()
        run(["bash", "/opt/vp/build.sh"])
    ok = a.returncode == 0 and a0.returncode == 0 and b == 0 and t == 0 and a1.returncode not in (0, 3, 4)
    print("%s %s valid=%s apply=%d clean=%d build=%d tests=%d bug=%d %s" % ("OK " if ok else "BAD", sid, ok, a.returncode, a0.returncode, b, t, a1.returncode, (a0.stdout + a0.stderr)[-600:] if not ok else ""), flush=True)


def caught(sid):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    try:
        a = run(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
        c = run(["python3", os.path.join(V, "check.py"), prop], cwd=V, env=dict(os.environ, VP_REPO=R))
    finally:
        clean()
    print("%s %s %s rc=%d apply=%d %s" % ("caught" if c.returncode == 1 else "MISSED", sid, prop, c.returncode, a.returncode, [l[:200] for l in c.stdout.splitlines() if l.startswith("violation") or "ERROR" in l][:1]), flush=True)


if sys.argv[1] in ("valid", "caught"):
    for s in sys.argv[2:]:
        globals()[sys.argv[1]](s)
elif sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3])
else:
    for s in sys.argv[2:]:
        test(s)
