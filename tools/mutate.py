#!/usr/bin/env python3
"""Mutation study: how sensitive are the monitors to small code changes?

  mutate.py list FILE...            count mutants of the library's sources
  mutate.py run OUT.jsonl N SEED [FILE...]   judge a random sample of N mutants

Works in /tmp/mut on copies; never touches /repo. Harnesses are compiled once per
check; a mutant costs one source file and a link. Mutants whose object code equals
the original's are skipped. A mutant is 'killed' by the first check that reports.
"""
import concurrent.futures as cf
import glob, json, os, random, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/../run")
import check
from specs import SPECS

REPO = check.REPO
W = "/tmp/mut"
SCALE = os.environ.get("MUT_SCALE", "0.5")
SHARDS = [int(x) for x in os.environ.get("MUT_SHARDS", "0,1").split(",")]
ORDER = {
    "core/allocator": "C20 C14 C12", "core/buffer": "C20 C14 C12 C04 C13 C22",
    "core/decoder": "C03 C02 C01 C17 C22", "core/descriptor": "C16 C03 C05 C17",
    "core/encoder": "C04 C02 C12 C17 C14 C22", "core/stream": "C20 C03 C01 C15 C22",
    "core/varint": "C02 C03 C04 C01 C15", "util/chunk_allocator": "C14 C12 C21",
    "util/descriptor": "C16", "util/validator": "C15 C01 C22",
    "message/buffer": "C20 C06 C13 C14 C12 C17 C22", "message/journal": "C10 C06 C08 C20 C12 C17 C13 C22",
    "message/cursor": "C08 C10 C05 C11 C12 C17 C01 C13 C07 C22",
    "message/field": "C06 C10 C07 C05 C12 C17 C01 C13 C22",
    "message/message": "C06 C05 C07 C09 C10 C12 C17 C01 C13 C22",
    "message/nested": "C09 C05 C06 C07 C12 C17 C01 C22",
    "message/oneof": "C11 C05 C07 C12 C17 C01 C22",
    "message/part": "C06 C09 C10 C08 C13 C12 C17 C01 C22", "message/common": "C22",
}

def mutants(path):
    """Yield (line number, description, new line) for a source file."""
    text = open(path).read()
    lines = text.split("\n")
    skip = False
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "LCOV_EXCL_START" in l: skip = True
        if "LCOV_EXCL_STOP" in l: skip = False; continue
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if skip or not s or s.startswith("#") or s.startswith("assert") or s.startswith("*") \
           or s.startswith("//"): continue
        code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group(0)), l)
        def sub(a, b, new, what):
            return (i, what, l[:a] + new + l[b:])
        for m in re.finditer(r"(?<![<>=!+\-*/&|])(<=|>=|==|!=|<|>)(?![<>=])", code):
            op = m.group(1)
            if op in "<>" and re.search(r"#include|->", code[max(0, m.start()-1):m.end()+1]): continue
            if op == ">" and code[m.start()-1] == "-": continue
            for new in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"],
                        "==": ["!="], "!=": ["=="]}[op]:
                yield sub(m.start(), m.end(), new, f"{op} -> {new}")
        for m in re.finditer(r"&&|\|\|", code):
            yield sub(m.start(), m.end(), "||" if m.group(0) == "&&" else "&&", "logic")
        for m in re.finditer(r"(?<=[\w\)] )([+\-])(?= [\w\(])", code):
            yield sub(m.start(), m.end(), "-" if m.group(1) == "+" else "+", "arith")
        for m in re.finditer(r"(\+=|-=)", code):
            yield sub(m.start(), m.end(), "-=" if m.group(1) == "+=" else "+=", "assign-op")
            yield sub(m.start(), m.end(), "=", "assign-op plain")
        for m in re.finditer(r"\+\+|--", code):
            yield sub(m.start(), m.end(), "", "no inc/dec") if not re.fullmatch(r"[\w\->\.\(\)\[\]]*(\+\+|--);", s) \
                else (i, "drop inc/dec", "")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            n = int(m.group(1))
            yield sub(m.start(), m.end(), str(n + 1), f"{n} -> {n+1}")
            if n: yield sub(m.start(), m.end(), str(n - 1), f"{n} -> {n-1}")
        for m in re.finditer(r"!(?=[\w\(])", code):
            yield sub(m.start(), m.end(), "", "drop !")
        m = re.search(r"\bif \((?!\()(.*)\)( \{)?$", code)
        if m and m.group(1).count("(") == m.group(1).count(")"):
            yield sub(m.start(1), m.end(1), "1 || (" + l[m.start(1):m.end(1)] + ")", "if true")
            yield sub(m.start(1), m.end(1), "0 && (" + l[m.start(1):m.end(1)] + ")", "if false")
        if re.fullmatch(r"[\w\->\.\[\]\*\(\)]+ [+\-*/|&]?= [^;{]*;", s) and not \
           re.match(r"(const|size_t|uint|int|pb_|struct|static)\w*\s+\*?\w+ =", s):
            yield (i, "drop assignment", "")
        if re.fullmatch(r"[\w]+\(.*\);", s) and not s.startswith(("return", "pb_error_t")):
            yield (i, "drop call", "")
        m = re.fullmatch(r"return (.*);", s)
        if m:
            ind = l[:len(l) - len(l.lstrip())]
            r = m.group(1)
            if "PB_ERROR_" in r or r == "error":
                if r != "PB_ERROR_NONE": yield (i, "return NONE", ind + "return PB_ERROR_NONE;")
                if r != "PB_ERROR_INVALID": yield (i, "return INVALID", ind + "return PB_ERROR_INVALID;")
        if s in ("break;", "continue;"):
            yield (i, "drop " + s, re.sub(r"\w+;", ";", l))

class Base:
    def __init__(self):
        self.lock = threading.Lock()
        self.exes = {}          # (prop, idx) -> (variant spec, harness objs, lib objs)

    def build(self, props):
        os.makedirs(W + "/base", exist_ok=True)
        todo, libs = [], {}
        for p in props:
            for idx, v in enumerate(SPECS[p]["variants"]):
                if v["variant"] not in ("asan", "dbg"): continue
                _, _, cxx, hflags, link = check.VARIANTS[v["variant"]]
                ho = []
                for s in ["mon.cc", *SPECS[p]["sources"]]:
                    o = f"{W}/base/{p}-{idx}-{s}.o"
                    ho.append(o)
                    todo.append([cxx, *hflags, *v.get("cxx", ()), "-I", check.VERIF + "/src",
                                 *check.INC, "-c", check.VERIF + "/src/" + s, "-o", o])
                key = (v["variant"], tuple(v.get("lib", ())))
                if key not in libs:
                    libs[key] = f"{W}/base/lib{len(libs)}"
                    os.makedirs(libs[key], exist_ok=True)
                    for s in check.lib_sources():
                        todo.append(self.cc(key, s, libs[key] + "/" + self.oname(s)))
                self.exes[(p, idx)] = (v, ho, key, libs[key])
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), todo):
                if r.returncode: sys.exit(r.stderr[-3000:])

    @staticmethod
    def oname(s):
        return os.path.relpath(s, REPO + "/src").replace("/", "_") + ".o"

    @staticmethod
    def cc(key, s, o):
        cc, cflags, *_ = check.VARIANTS[key[0]]
        return [cc, *cflags, *key[1], *check.INC, "-I", REPO + "/src", "-c", s, "-o", o]

def plain(src, o):
    return subprocess.run(["gcc", "-std=c99", "-O2", "-DNDEBUG", "-w", *check.INC, "-c", src, "-o", o],
                          capture_output=True, text=True)

def judge(base, mid, path, m):
    d = f"{W}/m{mid}"
    os.makedirs(d, exist_ok=True)
    try:
        rel = os.path.relpath(path, REPO + "/src")[:-2]
        lines = open(path).read().split("\n")
        lines[m[0]] = m[2]
        src = d + "/" + os.path.basename(path)
        open(src, "w").write("\n".join(lines))
        r = plain(src, d + "/a.o")
        if r.returncode: return {"verdict": "no-compile"}
        plain(path, d + "/b.o")
        if subprocess.run(f"objdump -d --no-show-raw-insn {d}/a.o | tail -n +4 > {d}/a.t; objdump -sj .rodata {d}/a.o | tail -n +4 >> {d}/a.t;"
                          f"objdump -d --no-show-raw-insn {d}/b.o | tail -n +4 > {d}/b.t; objdump -sj .rodata {d}/b.o | tail -n +4 >> {d}/b.t;"
                          f"cmp -s {d}/a.t {d}/b.t", shell=True).returncode == 0:
            return {"verdict": "equal"}
        for p in ORDER[rel].split():
            for idx, v in enumerate(SPECS[p]["variants"]):
                if (p, idx) not in base.exes: continue
                v, ho, key, lib = base.exes[(p, idx)]
                o = f"{d}/mut-{key[0]}-{len(key[1])}.o"
                if not os.path.exists(o):
                    r = subprocess.run(base.cc(key, src, o), capture_output=True, text=True)
                    if r.returncode: return {"verdict": "no-compile"}
                objs = [x for x in glob.glob(lib + "/*.o") if os.path.basename(x) != base.oname(path)]
                cxx, link = check.VARIANTS[key[0]][2], check.VARIANTS[key[0]][4]
                exe = f"{d}/{p}-{idx}"
                r = subprocess.run([cxx, *link, *ho, *objs, o, "-o", exe, *v.get("libs", ()), "-lpthread"],
                                   capture_output=True, text=True)
                if r.returncode: return {"verdict": "no-link", "msg": r.stderr[-500:]}
                known = [k["key"] for k in check.load_known(p)]
                for sh in SHARDS:
                    out = d + "/out"
                    for f in glob.glob(out + "*"): os.remove(f)
                    env = dict(os.environ, **check.SAN_ENV, **v.get("env", {}))
                    try:
                        with open(out + ".log", "wb") as lg:
                            r = subprocess.run([exe, "--seed", "1", "--shard", str(sh), "--shards", "8", "--out",
                                            out, "--scale", str(float(SCALE) * v.get("scale", 1.0))],
                                           env=env, stdout=lg, stderr=lg, timeout=400, cwd=d)
                        rc = r.returncode
                        if rc == 0:
                            vs = [x["key"] for x in json.load(open(out))["violations"]
                                  if not any(re.fullmatch(k, x["key"]) for k in known)]
                            if vs: return {"verdict": "killed", "by": p, "key": vs[0]}
                        elif rc == 70:
                            return {"verdict": "killed", "by": p, "key": "error70?"}
                        else:
                            return {"verdict": "killed", "by": p, "key": f"crash {rc}"}
                    except subprocess.TimeoutExpired:
                        return {"verdict": "killed", "by": p, "key": "timeout"}
                os.remove(exe)
        return {"verdict": "SURVIVED"}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a[0] == "list":
        tot = 0
        for f in check.lib_sources():
            n = len(list(mutants(f))); tot += n
            print(n, f)
        print(tot)
        return
    out, n, seed = a[1], int(a[2]), int(a[3])
    files = a[4:] or [f for f in check.lib_sources()]
    files = [f if f.startswith("/") else REPO + "/src/" + f for f in files]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x["file"], x["line"], x["new"]))
    allm = [(f, m) for f in files for m in mutants(f)]
    random.Random(seed).shuffle(allm)
    allm = [(f, m) for f, m in allm[:n] if (os.path.relpath(f, REPO), m[0] + 1, m[2].strip()) not in done]
    need = sorted({p for f, _ in allm for p in ORDER[os.path.relpath(f, REPO + "/src")[:-2]].split()})
    base = Base()
    base.build(need)
    print("built", len(base.exes), "harnesses;", len(allm), "mutants", flush=True)
    lock = threading.Lock()
    def one(x):
        i, (f, m) = x
        try: r = judge(base, f"{os.getpid()}-{i}", f, m)
        except Exception as e: r = {"verdict": "error", "msg": repr(e)}
        old = open(f).read().split("\n")[m[0]].strip()
        r = {"file": os.path.relpath(f, REPO), "line": m[0] + 1, "what": m[1], "old": old,
             "new": m[2].strip(), **r}
        with lock:
            open(out, "a").write(json.dumps(r) + "\n")
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        list(ex.map(one, enumerate(allm)))
    shutil.rmtree(W, ignore_errors=True)

if __name__ == "__main__":
    main()
