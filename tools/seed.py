#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/seeds/<id>.py and runs the checks on them.
seed.py make [ids]   build + confirm (compiles, stable tests pass, demo 0/nonzero, blame)
seed.py check [ids]  apply to /repo, run the check of the property, undo
"""
import sys, os, json, subprocess, shutil, glob, re, tempfile
V = "/verif"; S = f"{V}/tools/seeds"; OUT = f"{V}/seeded"; BASE = "f942a20"
def sh(c, cwd=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
    return p.returncode, p.stdout
def load(i):
    ns = {}
    exec(open(f"{S}/{i}.py").read(), ns)
    return ns
def ids(a):
    return a or sorted(os.path.basename(p)[:-3] for p in glob.glob(f"{S}/*.py"))
def make(i):
    b = load(i)
    W = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        sh(f"git clone -q /repo {W}/r"); R = f"{W}/r"
        for f, old, new in b["edits"]:
            s = open(f"{R}/{f}").read()
            n = s.count(old)
            if n != 1: return f"edit in {f} matches {n} times: {old[:60]!r}"
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        rc, o = sh("gofmt -l .", R)
        bad = [x for x in o.split() if x in [e[0] for e in b["edits"]]]
        if bad: return "gofmt: " + str(bad)
        rc, diff = sh("git diff", R)
        # removed lines must be lines of the original repository
        orig = mine = 0
        f = None; ln = 0
        for l in sh("git diff -U0", R)[1].splitlines():
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m and (m.group(2) != "0"):
                a = int(m.group(1)); c = int(m.group(2) or 1)
                bl = sh(f"git blame -s -l HEAD -L {a},{a+c-1} -- {f}", R)[1]
                for x in bl.splitlines():
                    if x.lstrip("^").startswith(BASE): orig += 1
                    else: mine += 1
        if orig == 0: return f"no original line changed (mine {mine})"
        rc, o = sh("go build ./... && go vet ./... 2>&1 | head -5", R)
        if rc: return "build: " + o
        rc, o = sh(f"go test -json ./... 2>/dev/null", R)
        ok = set()
        for l in o.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
        if miss: return f"stable tests fail: {miss}"
        D = f"{OUT}/{i}"; os.makedirs(D, exist_ok=True)
        open(f"{D}/patch.diff", "w").write(diff)
        sd = open(f"{S}/demo.sh").read().replace("@RACE@", "-race" if b.get("race") else "")
        open(f"{D}/demo.sh", "w").write(sd); os.chmod(f"{D}/demo.sh", 0o755)
        open(f"{D}/main.go.txt", "w").write(b["demo"].lstrip())
        shutil.copy(f"{S}/helpers.go.txt", f"{D}/helpers.go.txt")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{D}/meta.json", "w"), indent=1, ensure_ascii=False)
        rc1, o1 = sh(f"bash {D}/demo.sh", R)
        sh("git checkout -q -- .", R)
        for k in range(3):
            rc0, o0 = sh(f"bash {D}/demo.sh", R)
            if rc0: return f"demo fails on clean tree: {rc0} {o0}"
        if rc1 == 0 or rc1 in (3, 4): return f"demo gives {rc1} with the patch: {o1}"
        return f"OK orig={orig} mine={mine} | {o1.strip().splitlines()[-1][:140] if o1.strip() else rc1}"
    finally:
        shutil.rmtree(W)
def check(i, props=None, tier="quick"):
    m = json.load(open(f"{OUT}/{i}/meta.json"))
    rc, o = sh(f"git -C /repo apply {OUT}/{i}/patch.diff")
    if rc: return "apply: " + o
    try:
        res = []
        for p in props or [m["property"]]:
            try: rc, o = sh(f"bash {V}/check.sh {p} {tier}", t=1000)
            except subprocess.TimeoutExpired: rc, o = "timeout", ""
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{p}: rc={rc} {v[:1]} {'CAUGHT' if rc == 1 and v else 'MISSED' + o[-400:]}")
        return "\n   ".join(res)
    finally:
        sh("git -C /repo checkout -q -- .")
if __name__ == "__main__":
    cmd, a = sys.argv[1], sys.argv[2:]
    for i in ids(a):
        r = make(i) if cmd == "make" else check(i, props=os.environ.get("PROPS", "").split() or None)
        print(i, r, flush=True)
