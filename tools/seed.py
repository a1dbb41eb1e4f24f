#!/usr/bin/env python3
"""Planted changes (seeded/<id>), made from tools/seedsrc/<id>.py.

  seed.py make ID...     write seeded/ID and confirm it: the demo passes on /repo, fails
                         with the patch; /repo still builds and passes its tests with it
  seed.py try ID [C..]   run checks (default: the property's) against the change
A source file defines: property, needs, breaks, edits = [(file, old, new)], demo (C
text, or sh = text of demo.sh), optional files = {name: text}.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"

def load(i):
    ns = {}
    exec(open(f"{HERE}/seedsrc/{i}.py").read(), ns)
    return ns

def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", **kw)
    return r.returncode, r.stdout

def copy(ns):
    t = tempfile.mkdtemp(prefix="seed-")
    for d in ("src", "include"):
        shutil.copytree(f"{REPO}/{d}", f"{t}/{d}")
    for f, old, new in ns["edits"]:
        s = open(f"{t}/{f}").read()
        if s.count(old) != 1:
            sys.exit(f"{f}: old text occurs {s.count(old)} times:\n{old}")
        open(f"{t}/{f}", "w").write(s.replace(old, new))
    return t

def make(i):
    ns = load(i)
    if sh("git -C /repo status --porcelain")[1].strip():
        sys.exit("/repo is not clean")
    out = f"{VERIF}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    t = copy(ns)
    patch = ""
    for f in sorted({e[0] for e in ns["edits"]}):
        rc, d = sh(f"diff -u {REPO}/{f} {t}/{f}")
        lines = d.split("\n")
        lines[0], lines[1] = f"--- a/{f}", f"+++ b/{f}"
        patch += "\n".join(lines)
    shutil.rmtree(t)
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/demo.sh", "w").write(ns.get("sh") or open(HERE + "/demo.sh").read())
    if "demo" in ns:
        open(out + "/demo.c", "w").write(ns["demo"].lstrip("\n"))
        shutil.copy(HERE + "/demo.h", out + "/demo.h")
    for n, x in ns.get("files", {}).items():
        open(f"{out}/{n}", "w").write(x)
    json.dump({"property": ns["property"], "needs": ns["needs"],
               "what_it_breaks": ns["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    # blame: only original lines may be touched
    base = sh("git -C /repo rev-list --max-parents=0 HEAD")[1].split()[0]
    try:
        sh("bash /opt/vp/build.sh", cwd=REPO)
        rc, o = sh(f"bash {out}/demo.sh", cwd=REPO)
        if rc: return print(i, "BAD: demo fails on the clean tree", rc, o[-1500:])
        rc, o = sh(f"git apply {out}/patch.diff", cwd=REPO)
        if rc: return print(i, "BAD: patch does not apply", o)
        rc, o = sh("bash /opt/vp/build.sh", cwd=REPO)
        if rc: return print(i, "BAD: does not build", o[-3000:])
        warn = [l for l in o.split("\n") if "warning:" in l]
        rc, o = sh(f"bash {out}/demo.sh", cwd=REPO)
        if rc == 0 or rc == 3: return print(i, "BAD: demo with patch: exit", rc, o[-1500:])
        why = o.strip().split("\n")[-1][:150]
        sh("bash /opt/vp/test.sh /tmp/seed-out.json", cwd=REPO)
        res = json.load(open("/tmp/seed-out.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        base_t = b if isinstance(b, list) else b.get("passed") or b.get("tests") or b.get("stable")
        miss = set(base_t) - set(res["passed"])
        if miss: return print(i, "BAD: tests fail:", list(miss)[:5])
        print(i, "ok:", why, warn[:1])
        return True
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh", cwd=REPO)

def tryit(i, checks):
    ns = load(i)
    t = copy(ns)
    try:
        for c in checks or [ns["property"]]:
            rc, o = sh(f"python3 {VERIF}/run/check.py {c} quick", env=dict(os.environ, PB_REPO=t))
            k = [l for l in o.split("\n") if "VIOLATION" in l or "key:" in l or "CHECK-ERROR" in l or "at:" in l]
            print(i, c, "rc", rc, "CAUGHT" if rc == 1 else "MISSED" if rc == 0 else o[-1500:], *[x.strip() for x in k[:7]], sep=" | ")
    finally:
        shutil.rmtree(t)

if sys.argv[1] == "make":
    for i in sys.argv[2:]: make(i)
else:
    tryit(sys.argv[2], sys.argv[3:])
