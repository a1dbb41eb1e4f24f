#!/usr/bin/env python3
"""Runner of all monitors.

  check.py C06 [quick|thorough]      run the check of one property
  check.py --replay FILE             re-run a recorded violating case
  check.py C06 --build-only DIR      just build the harness (debugging)

Builds the library from $REPO (default /repo) working tree, instrumented, in a
scratch directory; runs the harness in shards; merges what the monitors saw;
writes evidence/<id>.json; exits 0 / 1 (+ VIOLATION line) / 2 (check error).
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PB_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = min(8, os.cpu_count() or 4)
EVID = os.path.join(VERIF, "evidence")

INC = ["-I", REPO + "/src", "-I", REPO + "/include"]
UBSAN = ("-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,"
         "pointer-overflow,function,alignment -fno-sanitize-recover=all").split()
# alignment is checked too, but separately enabled per variant (see DESIGN.md)
VARIANTS = {
    # variant: (cc, cflags for the library, cxx, flags for the harness, link)
    "asan": ("clang", ["-std=gnu99", "-O1", "-g", "-DNDEBUG",
                       "-fno-omit-frame-pointer"] + UBSAN,
             "clang++", ["-std=gnu++20", "-O1", "-g1", "-DNDEBUG",
                         "-fno-omit-frame-pointer", "-fsanitize=address"],
             ["-fsanitize=address,undefined"]),
    # the library's own assertions act as additional monitors
    "dbg": ("clang", ["-std=gnu99", "-O1", "-g", "-fno-omit-frame-pointer"] + UBSAN,
            "clang++", ["-std=gnu++20", "-O1", "-g1", "-DMON_DBG",
                        "-fno-omit-frame-pointer", "-fsanitize=address"],
            ["-fsanitize=address,undefined"]),
    "prod": ("gcc", ["-std=c99", "-O3", "-g", "-DNDEBUG"],
             "g++", ["-std=gnu++20", "-O1", "-g1", "-DNDEBUG"], []),
    "tsan": ("clang", ["-std=gnu99", "-O1", "-g", "-DNDEBUG",
                       "-fsanitize=thread"],
             "clang++", ["-std=gnu++20", "-O1", "-g1", "-DNDEBUG",
                         "-fsanitize=thread"], ["-fsanitize=thread"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:"
                    "allocator_may_return_null=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=0:handle_abort=1:max_allocation_size_mb=4096:"
                    "symbolize=1:allow_addr2line=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1",
}


# Wall-clock limit of the harness runs of one check.
DEADLINE = [time.time() + 780]


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, **kw):
    """Run a command; on a timeout end everything it started, too."""
    with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", start_new_session=True,
                          **kw) as p:
        try:
            out, _ = p.communicate(timeout=timeout)
        except BaseException:
            os.killpg(p.pid, signal.SIGKILL)
            raise
    return p.returncode, out


def lib_sources():
    src = []
    for d in ("core", "message", "util"):
        src += sorted(glob.glob(f"{REPO}/src/{d}/*.c"))
    if not src:
        raise CheckError("no library sources under " + REPO)
    return src


class Build:
    """Builds variants of the library and harness in a scratch directory."""

    def __init__(self, scratch):
        self.dir = scratch
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.lib = {}

    def run(self, cmd, what):
        rc, out = sh(cmd)
        if rc != 0:
            raise CheckError(f"{what} failed to compile:\n{out[-4000:]}")

    def library(self, variant, extra=()):
        """Start compiling the library; returns futures and object files."""
        cc, cflags, *_ = VARIANTS[variant]
        objs, futs = [], []
        for s in lib_sources():
            o = f"{self.dir}/{variant}-{os.path.relpath(s, REPO).replace('/', '_')}.o"
            objs.append(o)
            futs.append(self.pool.submit(
                self.run, [cc, *cflags, *extra, *INC, "-c", s, "-o", o],
                "library source " + s))
        return objs, futs

    def harness(self, name, sources, variant, libs=(), cxxextra=(), libextra=()):
        _, _, cxx, hflags, link = VARIANTS[variant]
        objs, futs = self.library(variant, libextra)
        for s in ["mon.cc", *sources]:
            src = s if s.startswith("/") else f"{VERIF}/src/{s}"
            o = f"{self.dir}/{variant}-{name}-{os.path.basename(s)}.o"
            objs.append(o)
            futs.append(self.pool.submit(
                self.run, [cxx, *hflags, *cxxextra, "-I", VERIF + "/src", *INC,
                           "-c", src, "-o", o], "harness " + s))
        exe = f"{self.dir}/{name}-{variant}"

        def finish():
            for f in futs:
                f.result()
            self.run([cxx, *hflags, *link, *objs, "-o", exe, *libs, "-lpthread"],
                     "link of " + name)
            return exe
        return finish


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")


def crash_key(text, rc):
    """Stable identification of a sanitizer report / fatal signal."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", text)
    if not kind and m2:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:80]
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
    if m3:
        kind = "tsan:" + m3.group(1).strip()
    if "WATCHDOG" in text:
        kind = "hang"
    if not kind and "Invalid read" in text or "uninitialised" in text:
        kind = "valgrind"
    if not kind:
        kind = f"signal:{-rc}" if rc < 0 else f"exit:{rc}"
    fn = ""
    for f, where in FRAME.findall(text):
        if "/src/core/" in where or "/src/message/" in where or \
           "/src/util/" in where or "/include/protobluff" in where:
            fn = f
            break
    return kind + (":" + fn if fn else "")


def run_shard(exe, variant, shard, shards, tier, scale, scratch, only, env_extra):
    """Run one shard, resuming after crashes. Returns a merged result."""
    res = {"evaluations": 0, "counts": {}, "samples": [], "violations": [],
           "distinct": set(), "states": set(), "error": None}
    env = dict(os.environ, **SAN_ENV, **env_extra)
    resume = []
    for attempt in range(6):
        out = f"{scratch}/{os.path.basename(exe)}.{shard}.{attempt}"
        cmd = [exe, "--seed", str(SEED), "--shard", str(shard), "--shards",
               str(shards), "--out", out, "--scale", str(scale), *resume]
        if tier == "thorough":
            cmd.append("--thorough")
        if only:
            cmd += ["--suite", only]
        with open(out + ".log", "wb") as log:
            try:
                r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=env,
                                   cwd=scratch,
                                   timeout=max(5, DEADLINE[0] - time.time()))
            except subprocess.TimeoutExpired:
                res["error"] = f"{exe} shard {shard}: ran out of time"
                return res
        if r.returncode == 0 and os.path.exists(out):
            d = json.load(open(out))
            res["evaluations"] += d["evaluations"]
            for k, v in d["counts"].items():
                res["counts"][k] = res["counts"].get(k, 0) + v
            res["samples"] += d["samples"]
            for v in d["violations"]:
                v["variant"] = variant
                res["violations"].append(v)
            for k in ("distinct", "states"):
                raw = open(out + "." + k, "rb").read()
                res[k] |= set(struct.unpack(f"<{len(raw)//8}Q", raw))
            return res
        text = open(out + ".log", errors="replace").read()
        if r.returncode == 70 or not os.path.exists(out + ".crash"):
            res["error"] = f"{exe} shard {shard} rc={r.returncode}:\n" + text[-3000:]
            return res
        crash = open(out + ".crash", errors="replace").read()
        suite = re.search(r"suite=(.*)", crash).group(1)
        case = re.search(r"case=(\d+)", crash).group(1)
        res["violations"].append({
            "key": crash_key(text, r.returncode), "msg": text[-6000:],
            "suite": suite, "case": int(case), "variant": variant,
            "history": crash})
        if "WATCHDOG" in text or time.time() > DEADLINE[0]:
            return res
        resume = ["--after-suite", suite, "--after-case", case]
    return res


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"]
            if k["property"] == prop and k.get("status") == "known"]


def finish(prop, tier, t0, spec, merged, errors, extra_cov=None):
    """Write evidence, print verdict, return the exit status."""
    known = load_known(prop)
    os.makedirs(EVID, exist_ok=True)
    new, old = [], {}
    for v in merged["violations"]:
        for k in known:
            if re.fullmatch(k["key"], v["key"]):
                old.setdefault(k["key"], (k, v))
                break
        else:
            new.append(v)
    cov = {"evaluations": merged["evaluations"],
           "distinct_nontrivial": len(merged["distinct"]),
           "distinct_states_compared": len(merged["states"]),
           "rule": spec["rule"], "samples": merged["samples"][:4],
           "events": dict(sorted(merged["counts"].items()))}
    cov.update(extra_cov or {})
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(f"{EVID}/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for e in errors:
        print("CHECK-ERROR:", e, file=sys.stderr)
    for f in glob.glob(f"{EVID}/replays/{prop}-*.json"):
        os.remove(f)
    for key, (k, v) in old.items():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if new:
        os.makedirs(EVID + "/replays", exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = f"{EVID}/replays/{prop}-{len(seen)}.json"
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, seed=SEED, tier=tier), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  key: {v['key']}\n  at: suite={v['suite']} case={v['case']}"
                  f" variant={v.get('variant')}\n  " +
                  v["msg"][:1500].replace("\n", "\n  "))
            if len(seen) >= int(os.environ.get("MON_SHOW", 5)):
                break
        return 1
    if errors:
        return 2
    if merged["evaluations"] == 0 or not merged["distinct"]:
        print("CHECK-ERROR: nothing was observed", file=sys.stderr)
        return 2
    zero = [c for c in spec.get("must_see", []) if not merged["counts"].get(c)]
    if zero:
        print("CHECK-ERROR: monitors never observed:", zero, file=sys.stderr)
        return 2
    print(f"OK property={prop} evaluations={merged['evaluations']} "
          f"distinct={len(merged['distinct'])} states={len(merged['states'])} "
          f"wall={ev['wall_s']}s")
    return 0


def new_merged():
    return {"evaluations": 0, "counts": {}, "samples": [], "violations": [],
            "distinct": set(), "states": set()}


def merge(m, r):
    m["evaluations"] += r["evaluations"]
    for k, v in r["counts"].items():
        m["counts"][k] = m["counts"].get(k, 0) + v
    m["samples"] += r["samples"][:1]
    m["violations"] += r["violations"]
    m["distinct"] |= r["distinct"]
    m["states"] |= r["states"]


def run_check(prop, tier, only=None, scale=1.0):
    from specs import SPECS
    spec = SPECS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="pbmon-")
    try:
        merged, errors = new_merged(), []
        if "module" in spec:
            mod = __import__(spec["module"])
            extra = mod.run(prop, tier, SEED, scratch, merged, errors)
            return finish(prop, tier, t0, spec, merged, errors, extra)
        b = Build(scratch)
        runs = [(v, b.harness(prop, spec["sources"], v["variant"],
                              v.get("libs", ()), v.get("cxx", ()), v.get("lib", ())))
                for v in spec["variants"]]
        known = [k["key"] for k in load_known(prop)]
        for v, fin in runs:
            exe = fin()
            if any(not any(re.fullmatch(k, x["key"]) for k in known)
                   for x in merged["violations"]):
                break    # decided: no need to run the remaining variants
            shards = v.get("shards", NPROC)
            with cf.ThreadPoolExecutor(shards) as ex:
                for r in ex.map(lambda s: run_shard(
                        exe, v["variant"], s, shards, tier,
                        scale * v.get("scale", 1.0), scratch, only or v.get("suite"),
                        v.get("env", {})), range(shards)):
                    if r["error"]:
                        errors.append(r["error"])
                    merge(merged, r)
        return finish(prop, tier, t0, spec, merged, errors)
    except CheckError as e:
        print("CHECK-ERROR:", e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    from specs import SPECS
    d = json.load(open(path))
    spec = SPECS[d["property"]]
    print(json.dumps({k: d[k] for k in ("property", "key", "suite", "case", "seed")}))
    scratch = tempfile.mkdtemp(prefix="pbmon-")
    try:
        if "module" in spec:
            merged, errors = new_merged(), []
            case = re.sub(r"\D", "", d["case"])
            __import__(spec["module"]).run(d["property"], d["tier"], d["seed"], scratch, merged,
                                           errors, int(case) if case else -1)
            for v in merged["violations"]:
                print(v["history"], v["key"], v["msg"], sep="\n")
            return 1 if merged["violations"] else 0
        v = next(x for x in spec["variants"] if x["variant"] == d["variant"])
        exe = Build(scratch).harness(d["property"], spec["sources"], v["variant"],
                                     v.get("libs", ()), v.get("cxx", ()), v.get("lib", ()))()
        cmd = [exe, "--seed", str(d["seed"]), "--suite", d["suite"], "--case",
               str(d["case"]), "--out", scratch + "/replay"]
        if d["tier"] == "thorough":
            cmd.append("--thorough")
        return subprocess.run(cmd, env=dict(os.environ, **SAN_ENV)).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    sys.path.insert(0, HERE)
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    prop = a[0]
    only, scale = None, 1.0
    tier = os.environ.get("VERIF_TIER", "quick")
    i = 1
    if "thorough" in a or (tier == "thorough" and "quick" not in a):
        DEADLINE[0] = time.time() + 6 * 3600
    while i < len(a):
        if a[i] in ("quick", "thorough"):
            tier = a[i]
        elif a[i] == "--suite":
            i += 1
            only = a[i]
        elif a[i] == "--scale":
            i += 1
            scale = float(a[i])
        elif a[i] == "--build-only":
            i += 1
            from specs import SPECS
            os.makedirs(a[i], exist_ok=True)
            for v in SPECS[prop]["variants"]:
                print(Build(a[i]).harness(prop, SPECS[prop]["sources"], v["variant"],
                      v.get("libs", ()), v.get("cxx", ()), v.get("lib", ()))())
            sys.exit(0)
        i += 1
    sys.exit(run_check(prop, tier, only, scale))


if __name__ == "__main__":
    main()
