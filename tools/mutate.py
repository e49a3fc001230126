#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-s STRIDE] [-l FROM-TO] FILE:PROP[,PROP...] ...
Systematic mutation of single lines of FILE (in scratch copies of /repo and /verif): every mutant that compiles
is judged by the listed checks; mutants no check notices are printed (survivors, to be reviewed by hand)."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, queue
V = "/verif"
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "),
    (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"-1\b", "-0"), (r"\+1\b", "+0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"notify_all", "notify_one"), (r"\bwhile \(", "if ("), (r"\bif \(", "if (!!0 && "), (r"\bif \(", "if (true || "),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "), (r" \| ", " & "),
    (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r"std::min", "std::max"), (r"std::max", "std::min"),
    (r"std::unique_lock \w+ ?[{(][^;]*[)}];", ";"), (r"std::lock_guard \w+ ?[{(][^;]*[)}];", ";"), (r"std::shared_lock \w+ ?[{(][^;]*[)}];", ";"),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"&other == this", "&other != this"), (r"!(?=[a-z_(])", ""),
    (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"memory_order_(release|acquire|acq_rel|seq_cst)", "memory_order_relaxed"),
    (r"'([0-9a-zA-Z])'", lambda m: "'%s'" % chr(ord(m.group(1)) + 1)), (r"\b(\d+)([;,)])", lambda m: str(int(m.group(1)) + 1) + m.group(2)),
    (r"0x([0-9A-Fa-f]+)", lambda m: hex(int(m.group(1), 16) ^ 1)), (r"\bend\(\)", "begin()"), (r"std::next\(([^,()]+(?:\(\))?)\)", r"\1"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"),
]
STMT = re.compile(r"^\s+(?!return|using|break|continue|case|default|throw|else|template|typename|class|struct|enum|explicit|static|constexpr|virtual|public|private|auto|const|friend|namespace|#)[\w:>.()*&\[\]-]+[^{}]*;\s*$")


def mutants(text):
    lines = text.split("\n")
    incomment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = "*/" not in s
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or s.startswith("using ") or s.startswith("template"): continue
        code = l.split("//")[0]
        seen = set()
        for rx, rep in OPS:
            for m in re.finditer(rx, code):
                new = code[:m.start()] + re.sub(rx, rep, m.group(0)) + code[m.end():] if not callable(rep) else code[:m.start()] + rep(m) + code[m.end():]
                if rx.startswith(r"\bif \(") :
                    new = code[:m.start()] + rep + code[m.end():]
                if new != code and new not in seen:
                    seen.add(new)
                    yield n, code, new, "\n".join(lines[:n] + [new] + lines[n + 1:])
        if STMT.match(code):
            yield n, code, "", "\n".join(lines[:n] + [re.match(r"\s*", code).group(0) + ";"] + lines[n + 1:])


def main():
    a = sys.argv[1:]; out = a.pop(0); J = 4; stride = 1; rng = None
    while a and a[0] in ("-j", "-s", "-l"):
        o, v = a.pop(0), a.pop(0)
        if o == "-j": J = int(v)
        elif o == "-s": stride = int(v)
        else: rng = [int(x) for x in v.split("-")]
    jobs = []
    for spec in a:
        f, ps = spec.split(":"); t = open("/repo/" + f).read()
        for i, (n, old, new, text) in enumerate(mutants(t)):
            if i % stride == 0 and (not rng or rng[0] <= n + 1 <= rng[1]): jobs.append((f, n, old, new, text, ps.split(",")))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            e = json.loads(l); done.add((e["file"], e["line"], e["new"]))
    jobs = [j for j in jobs if (j[0], j[1] + 1, j[3]) not in done]
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue(); [q.put(j) for j in jobs]
    lock = threading.Lock(); stat = {}
    root = tempfile.mkdtemp(prefix="mut", dir="/tmp")

    def worker(k):
        d = os.path.join(root, "w%d" % k); os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run("mkdir %s/verif && cd /verif && cp -a *.py engine harness shim known_findings.jsonl %s/verif/" % (d, d), shell=True, check=True)
        env = dict(os.environ, VP_REPO=d + "/repo", VP_JOBS=str(max(2, 8 // J)))
        while True:
            try: f, n, old, new, text, ps = q.get_nowait()
            except queue.Empty: return
            p = d + "/repo/" + f; orig = open(p).read()
            open(p, "w").write(text)
            res, by, msg = "survived", "", ""
            try:
                for pr in ps:
                    try:
                        r = subprocess.run(["python3", "check.py", pr], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=600)
                        if r.returncode == 1: res, by = "caught", pr; msg = [x for x in r.stdout.split("\n") if x.startswith("violation")][0][:160]; break
                        if r.returncode == 2:
                            res = "stillborn" if "BUILD-ERROR" in r.stdout else "error"; by = pr; msg = r.stdout[-300:]; break
                    except subprocess.TimeoutExpired:
                        res, by = "timeout", pr; subprocess.run(["pkill", "-9", "-f", d + "/verif"]); break
            finally:
                open(p, "w").write(orig)
            with lock:
                stat[res] = stat.get(res, 0) + 1
                open(out, "a").write(json.dumps({"file": f, "line": n + 1, "old": old, "new": new, "result": res, "by": by, "msg": msg}) + "\n")
                if res not in ("caught", "stillborn"): print("%s %s:%d\n   - %s\n   + %s" % (res, f, n + 1, old.strip(), new.strip()), flush=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(J)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(root, ignore_errors=True)
    print(stat)


main()
