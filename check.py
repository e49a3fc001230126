#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Builds the property's harness from /repo's working tree, explores, writes
evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines."""
import json, os, subprocess, sys, time
import vbuild
from registry import HARNESSES, PROPS

V = vbuild.VERIF


def known_for(prop):
    res = []
    try:
        with open(os.path.join(V, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("property") == prop and e.get("status") == "known":
                        res.append(e)
    except FileNotFoundError:
        pass
    return res


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = args[i + 1]; i += 2
        else:
            print("unknown argument", args[i]); return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = PROPS[prop]
    known = known_for(prop)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rdir = os.path.join(V, "build", "replays")
    os.makedirs(rdir, exist_ok=True)
    kf = os.path.join(rdir, prop + ".known")
    with open(kf, "w") as f:
        for e in known:
            f.write(e["key"] + "\n")
    results = []
    for h in p["harness"]:
        name, sub = (h if isinstance(h, tuple) else (h, None))
        try:
            exe = vbuild.build(name, HARNESSES[name])
        except vbuild.BuildError as e:
            print("BUILD-ERROR property=%s\n%s" % (prop, e))
            if HARNESSES[name].get("optional"):     # another part of the property can still be judged; the evidence has no such part then
                print("NOT-COVERED property=%s harness=%s" % (prop, name))
                continue
            return 2
        out = os.path.join(rdir, "%s-%s.out.json" % (prop, name))
        os.makedirs(os.path.join(rdir, name), exist_ok=True)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--prop", sub or p["slug"], "--tier", tier, "--out", out, "--known", kf, "--replays", os.path.join(rdir, name)]
        if replay:
            cmd += ["--replay", replay]
        env = dict(os.environ)
        env.update({"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=0:max_allocation_size_mb=4096:malloc_fill_byte=205:max_malloc_fill_size=268435456",
                    "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=0", "LC_ALL": "C.UTF-8", "VP_REPO": vbuild.REPO})
        r = subprocess.run(cmd, env=env, cwd=V)
        if replay:
            if r.returncode == 2:
                continue
            return r.returncode
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("HARNESS-ERROR property=%s harness=%s exit=%d" % (prop, name, r.returncode))
            return 2
        with open(out) as f:
            results.append((name, json.load(f)))
    wall = time.time() - t0
    parts, viols, assumptions = [], [], list(p.get("assumptions", []))
    for name, r in results:
        for x in r["parts"]:
            x["harness"] = name
            parts.append(x)
        viols += r["violations"]
        assumptions += r["assumptions"]
    engine_err = [v for v in viols if v["key"].startswith("engine:")]
    new = [v for v in viols if not v["known"] and not v["key"].startswith("engine:")]
    tot = lambda k: sum(x[k] for x in parts)
    samples = []
    for x in parts:
        for s in x["samples"][:3]:
            samples.append("[%s] %s" % (x["name"], s))
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("nontrivial"),
        "rule": " || ".join("%s: %s" % (x["name"], x["rule"]) for x in parts),
        "samples": samples[:24] or ["(none)"],
        "exhaustive": all(x["exhaustive"] for x in parts),
        "parts": [{k: v for k, v in x.items() if k != "samples"} for x in parts],
    }
    if p["level"] == "model_checking":
        cov.update({"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("runs")})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p["level"], "coverage": cov,
          "assumptions": sorted(set(assumptions)), "wall_s": round(wall, 3), "violations": len(new)}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    hit = {}
    for v in viols:
        if v["known"]:
            hit.setdefault(v["key"], []).append(v)
    for e in known:
        if any(k in (e["key"], ) or k.endswith("/" + e["key"]) or e["key"].endswith("/" + k) for k in hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for v in new:
        print("violation: [%s] %s: %s\n   case: %s" % (v["part"], v["key"], v["msg"][:1500], v["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if new:
        return 1
    if engine_err:
        print("ENGINE-ERROR property=%s %s: %s" % (prop, engine_err[0]["key"], engine_err[0]["msg"]))
        return 2
    print("OK property=%s tier=%s runs=%d states=%d transitions=%d exhaustive=%s wall=%.1fs" % (
        prop, tier, tot("runs"), tot("states"), tot("transitions"), cov["exhaustive"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
