#!/usr/bin/env python3
"""Mutation study for what mutate.py can't link per file: headers and the generator.

  mutate_tree.py OUT.jsonl N SEED headers|generator

Each worker has a copy of the sources and of /verif in /tmp/mutt-<k>; a mutant is
judged by the quick checks (scaled down), in the order given here, until one reports.
"""
import glob, json, os, queue, random, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutate, check
REPO, VERIF = check.REPO, check.VERIF
SCALE = os.environ.get("MUT_SCALE", "0.3")
JOBS = int(os.environ.get("MUT_JOBS", "2"))
ALL = "C17 C22 C20 C03 C04 C06 C08 C10 C12 C13 C14 C16 C05 C11 C07 C09 C15 C02 C24 C23 C01 C19".split()
FIRST = {"chunk_allocator": "C14 C12 C21", "validator": "C15 C22", "encoder": "C04 C12", "decoder": "C03",
         "descriptor": "C16 C03 C08", "string": "C17 C04 C06", "journal": "C10 C20", "part": "C06 C10",
         "cursor": "C08 C10", "oneof": "C11", "nested": "C09", "field": "C06", "message": "C06"}

def order(f):
    if "/generator/" in f: return ["C18", "C19"]
    b = os.path.basename(f)[:-2]
    o = FIRST.get(b, "").split()
    return o + [p for p in ALL if p not in o]

def worker(k, q, out, lock):
    w = f"/tmp/mutt-{os.getpid()}-{k}"
    os.makedirs(w)
    shutil.copytree(VERIF, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "build*"))
    os.makedirs(w + "/repo")
    subprocess.run(["cp", "-a", REPO + "/.", w + "/repo"])
    env = dict(os.environ, PB_REPO=w + "/repo")
    try:
        while True:
            try: f, m = q.get_nowait()
            except queue.Empty: return
            rel = os.path.relpath(f, REPO)
            text = open(f).read()
            lines = text.split("\n")
            old = lines[m[0]].strip()
            lines[m[0]] = m[2]
            open(f"{w}/repo/{rel}", "w").write("\n".join(lines))
            v = {"verdict": "SURVIVED"}
            try:
                for p in order(f):
                    try:
                        r = subprocess.run([sys.executable, "run/check.py", p, "quick", "--scale", SCALE], cwd=w + "/verif",
                                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                    except subprocess.TimeoutExpired:
                        v = {"verdict": "killed", "by": p, "key": "timeout"}; break
                    if r.returncode == 1:
                        key = [l.strip()[5:] for l in r.stdout.split("\n") if l.strip().startswith("key: ")]
                        v = {"verdict": "killed", "by": p, "key": key[0] if key else "?"}; break
                    if r.returncode:
                        v = {"verdict": "no-compile" if "error:" in r.stdout else "error", "by": p, "msg": r.stdout[-300:]}; break
            finally:
                open(f"{w}/repo/{rel}", "w").write(text)
            with lock:
                open(out, "a").write(json.dumps({"file": rel, "line": m[0] + 1, "what": m[1], "old": old, "new": m[2].strip(), **v}) + "\n")
    finally:
        shutil.rmtree(w, ignore_errors=True)

def main():
    out, n, seed, kind = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    if kind == "headers":
        files = glob.glob(REPO + "/include/protobluff/*/*.h") + glob.glob(REPO + "/src/*/*.h")
    else:
        files = glob.glob(REPO + "/src/generator/*.cc") + glob.glob(REPO + "/src/generator/*.hh")
        files = [f for f in files if not os.path.basename(f).startswith("strutil")]
    allm = [(f, m) for f in sorted(files) for m in mutate.mutants(f)]
    print(len(allm), "mutants")
    random.Random(seed).shuffle(allm)
    q = queue.Queue()
    for x in allm[:n]: q.put(x)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(JOBS)]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == "__main__":
    main()
