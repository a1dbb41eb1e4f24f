"""Checks of the generator (C18, C19): random .proto files are generated, compiled
and run; the harnesses in src/gen compare what comes out with libprotobuf."""
import concurrent.futures as cf
import glob, os, re, shutil, signal, subprocess, sys, time

import protogen

GENFLAGS = ["-std=c++11", "-include", "/opt/vp/compat/protobuf-compat.h", "-w"]
WARN = ["-std=gnu99", "-Wall", "-Werror"]
CASES = {"C18": {"quick": 500, "thorough": 12000}, "C19": {"quick": 120, "thorough": 6000}}
# Files of the standard distribution, as further inputs.
WELL_KNOWN = ["any", "api", "descriptor", "duration", "empty", "field_mask",
              "source_context", "struct", "timestamp", "type", "wrappers"]


def jobs(cmds, what, check):
    with cf.ThreadPoolExecutor(check.NPROC) as ex:
        for cmd, (rc, out) in zip(cmds, ex.map(check.sh, cmds)):
            if rc:
                raise check.CheckError(f"{what} failed: {' '.join(cmd)}\n{out[-3000:]}")


class Tools:
    """Generator (plain and with sanitizers), library, emitter, harness."""

    def __init__(self, prop, scratch, check):
        self.check, self.prop = check, prop
        d = self.dir = scratch + "/tools"
        os.makedirs(d)
        repo, verif = check.REPO, check.VERIF
        inc = ["-I", repo + "/src", "-I", repo + "/include"]
        src = sorted(glob.glob(repo + "/src/generator/*.cc"))
        if not src:
            raise check.CheckError("no generator sources under " + repo)
        kinds = {"plain": ["g++", "-O1"],
                 "asan": ["clang++", "-O1", "-g1", "-fno-omit-frame-pointer",
                          "-fsanitize=address,undefined",
                          "-fno-sanitize=function,vptr", "-fno-sanitize-recover=all"]}
        cmds = []
        for k, cxx in kinds.items():
            cmds += [[*cxx, *GENFLAGS, *inc, "-c", s, "-o", f"{d}/{k}-{os.path.basename(s)}.o"]
                     for s in src]
        # The library: with assertions and sanitizers.
        _, self.cflags, _, self.hflags, self.link = check.VARIANTS["dbg"]
        self.cflags = [x for x in self.cflags if x != "-DNDEBUG"]
        lib = check.lib_sources()
        self.lib = [f"{d}/lib-{os.path.relpath(s, repo).replace('/', '_')}.o" for s in lib]
        cmds += [["clang", *self.cflags, *inc, "-c", s, "-o", o]
                 for s, o in zip(lib, self.lib)]
        self.inc = [*inc, "-I", verif + "/src/gen"]
        self.harness = f"{d}/{prop}.o"
        cmds.append(["clang++", *self.hflags, *self.inc, "-c",
                     f"{verif}/src/gen/{prop.lower()}.cc", "-o", self.harness])
        cmds.append(["g++", "-O1", "-std=c++17", f"{verif}/src/gen/emit.cc", "-o", d + "/emit",
                     "-lprotobuf", "-lpthread"])
        jobs(cmds, "compilation", check)
        jobs([[cxx[0], *[x for x in cxx if x.startswith("-fsan")],
               *sorted(glob.glob(f"{d}/{k}-*.o")), "-o", f"{d}/gen-{k}",
               "-lprotoc", "-lprotobuf", "-lpthread"] for k, cxx in kinds.items()],
             "link", check)


def first_error(text):
    """Stable identification of a compiler diagnostic."""
    m = re.search(r"(?:error|warning): (.*)", text)
    s = m.group(1) if m else text.strip().splitlines()[-1] if text.strip() else "?"
    return re.sub(r"['‘’\"][^'‘’\"]*['‘’\"]|\d+", "N", s)[:90]


def lite_flags(out_dir):
    return open(out_dir + "/lite").read()


def run_case(t, name, files, root, scratch, seed):
    """One set of .proto files. Returns (merged-like dict, error)."""
    check = t.check
    res = {"evaluations": 0, "counts": {}, "samples": [], "violations": [],
           "distinct": set(), "states": set()}
    d = f"{scratch}/{name}"
    os.makedirs(d)
    protos = "\n".join(f"// {p}\n" + open(f"{root}/{p}").read() for p in files)

    def violation(key, msg):
        res["violations"].append({
            "key": key, "msg": msg[-6000:], "suite": "schemas", "case": name,
            "variant": "dbg", "history": protos[:60000]})

    def done(error=None):
        shutil.rmtree(d, ignore_errors=True)
        return res, error

    env = dict(os.environ, **check.SAN_ENV)
    base = ["protoc", "-I" + root]
    rc, out = check.sh([*base, "--descriptor_set_out=" + d + "/set", "--include_imports",
                        *files])
    if rc:
        return done(f"case {name}: not a valid schema: {out[-1500:]}")
    # Once with sanitizers, once without: both must write the same.
    for kind, sub in (("asan", "a"), ("plain", "b")):
        os.makedirs(f"{d}/{sub}")
        try:
            rc, out = check.sh([*base, f"--plugin=protoc-gen-protobluff={t.dir}/gen-{kind}",
                                f"--protobluff_out={d}/{sub}", *files], timeout=120,
                               env=dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"] +
                                        ":hard_rss_limit_mb=2500"))
        except subprocess.TimeoutExpired:
            rc, out = 1, "the generator doesn't come to an end"
        if rc:
            violation("generator:" + (check.crash_key(out, 1) if "Sanitizer" in out or
                                      "runtime error" in out else first_error(out)), out)
            return done()
    res["counts"]["generator-runs"] = 2
    made = {}
    for sub in "ab":
        made[sub] = {os.path.relpath(p, f"{d}/{sub}"): re.sub(
            r"(?m)^ \* Date:.*$", "", open(p, errors="surrogateescape").read())
            for p in glob.glob(f"{d}/{sub}/**", recursive=True) if os.path.isfile(p)}
    if made["a"] != made["b"]:
        bad = [p for p in set(made["a"]) | set(made["b"])
               if made["a"].get(p) != made["b"].get(p)]
        violation("not-deterministic", "two runs differ in " + ", ".join(sorted(bad)))
    want = {re.sub(r"\.proto$", "", f) + e for f in files for e in (".pb.c", ".pb.h")}
    if set(made["a"]) != want:
        violation("files", f"generated {sorted(made['a'])} instead of {sorted(want)}")
        return done()
    out_dir = d + "/a"
    rc, out = check.sh([t.dir + "/emit", d + "/set", out_dir])
    if rc:
        return done(f"case {name}: emit failed: {out[-500:]}")

    # Generated sources have to compile without warnings, with both compilers.
    objs = []
    for s in sorted(want):
        if not s.endswith(".c"):
            continue
        o = f"{d}/{len(objs)}.o"
        objs.append(o)
        cmds = [["clang", *t.cflags, *WARN, *t.inc, "-I", out_dir, "-c", f"{out_dir}/{s}",
                 "-o", o]]
        if t.prop == "C18":
            cmds.append(["gcc", "-O0", "-g0", *WARN, *t.inc, "-I", out_dir, "-c",
                         f"{out_dir}/{s}", "-o", "/dev/null"])
        for cmd in cmds:
            rc, out = check.sh(cmd)
            res["counts"]["compilations"] = res["counts"].get("compilations", 0) + 1
            if rc:
                violation("compile:" + first_error(out), f"{cmd[0]}: {s}\n{out[:3000]}")
                return done()
    for s in ["table", "driver"] if t.prop == "C19" else ["table"]:
        rc, out = check.sh(["clang", *t.cflags, *WARN, "-Wno-deprecated-declarations",
                            "-Wno-unused-function", *t.inc, "-I", out_dir, "-c",
                            f"{out_dir}/{s}.c", "-o", f"{d}/{s}.o"])
        objs.append(f"{d}/{s}.o")
        if rc:
            violation(f"use:" + first_error(out),
                      f"code using the generated interface doesn't compile:\n{out[:3000]}")
            return done()
    if t.prop == "C19":     # deprecated: exactly what belongs to something deprecated
        rc, out = check.sh(["clang", "-std=gnu99", "-fsyntax-only", "-Wdeprecated-declarations",
                            "-Wno-unused-function", *t.inc, "-I", out_dir, f"{out_dir}/driver.c"])
        seen = set(re.findall(r"warning: '(\w+)' is deprecated", out))
        marks = dict(reversed(l.split(" ", 1)) for l in open(out_dir + "/marks").read().split("\n") if l)
        for n in sorted(marks):
            if (marks[n] == "1") != (n in seen):
                violation("deprecated:" + ("missing" if marks[n] == "1" else "surplus"),
                          f"{n} is {'' if n in seen else 'not '}marked as deprecated")
                break
        res["counts"]["marks"] = len(marks)
        res["counts"]["deprecated-marks"] = len(seen)
    if t.prop == "C19" and re.fullmatch(r"(1 )*", lite_flags(out_dir)):   # nothing but the core
        rc, out = check.sh(["gcc", "-std=gnu99", "-shared", "-fPIC", "-w", "-O0", "-g0", *t.inc, "-I", out_dir,
                            f"{out_dir}/driver.c", *[f"{out_dir}/{s}" for s in sorted(want) if s.endswith(".c")],
                            *sorted(glob.glob(check.REPO + "/src/core/*.c")), "-Wl,-z,defs", "-o", d + "/lite.so"])
        res["counts"]["lite-links"] = 1
        if rc:
            violation("lite-link", "code for the lite runtime needs more than its library:\n" + out[:3000])
            return done()
    exe = d + "/exe"
    rc, out = check.sh(["clang++", *t.link, *objs, t.harness, *t.lib, "-o", exe,
                        "-lprotobuf", "-lpthread"])
    if rc:
        violation("link:" + first_error(out), out[:3000])
        return done()
    # Time spent computing, so that a busy machine doesn't matter.
    r = subprocess.run(["/bin/sh", "-c", 'ulimit -S -t 240; exec "$@"', "sh", exe, d + "/set",
                        str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d)
    if r.returncode == -signal.SIGXCPU:
        violation("hang", "the program using the generated code doesn't come to an end")
        return done()
    ended = False
    for line in r.stdout.decode(errors="replace").splitlines():
        p = line.split("\t")
        if p[0] == "V":
            violation(p[1], p[2])
        elif p[0] == "C":
            res["counts"][p[1]] = res["counts"].get(p[1], 0) + int(p[2])
        elif p[0] == "D":
            res["distinct"].add(int(p[1]))
        elif p[0] == "S":
            res["states"].add(int(p[1]))
        elif p[0] == "E":
            ended = True
            res["evaluations"] += int(p[1])
    if not ended:
        text = r.stderr.decode(errors="replace")
        if "Sanitizer" in text or "runtime error" in text or "Assertion" in text \
           or r.returncode < 0:
            m = re.search(r"Assertion `(.*?)' failed", text)
            violation("crash:" + ("assertion:" + m.group(1)[:80] if m else
                                  check.crash_key(text, r.returncode)),
                      r.stdout.decode(errors="replace")[-500:] + text[-5000:])
        else:
            return done(f"case {name}: harness ended with {r.returncode}: {text[-800:]}")
    res["samples"] = [f"{name}: {len(files)} file(s), {protos.count('message ')} messages, "
                      f"{res['counts'].get('fields', res['counts'].get('calls', 0))} "
                      + ("fields" if "fields" in res["counts"] else "calls") + " compared"]
    return done()


def run(prop, tier, seed, scratch, merged, errors, only=None):
    check = sys.modules["__main__"]
    t = Tools(prop, scratch, check)
    count = CASES[prop][tier]
    size = {"quick": 3, "thorough": 4}[tier]

    def one(i):
        if time.time() > check.DEADLINE[0] - 60:
            return None
        if i < 0:
            root = "/usr/include"
            files = [f"google/protobuf/{x}.proto" for x in WELL_KNOWN]
            return run_case(t, "wellknown", files, root, scratch, seed)
        case = protogen.Case(seed * 1000003 + i, size,
                             protogen.BIG[i // 8 % len(protogen.BIG)] if i % 8 == 7 else None)
        root = f"{scratch}/in{i}"
        files = []
        for f in case.files:
            p = f"{root}/{f.path}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(case.text(f))
            files.append(f.path)
        began = time.time()
        try:
            return run_case(t, f"case{i}", files, root, scratch, seed + i)
        finally:
            if os.environ.get("MON_TIMES"):
                with open(os.environ["MON_TIMES"], "a") as log:
                    log.write(f"{time.time() - began:.1f} {i} {case.big}\n")
            shutil.rmtree(root, ignore_errors=True)

    todo = [only] if only is not None else list(range(-1, count))
    done = 0
    with cf.ThreadPoolExecutor(check.NPROC) as ex:
        if prop == "C19" and tier == "quick":      # the slowest ones first
            todo.sort(key=lambda i: i % 64 // 8 not in (4, 7) or i % 8 != 7)
        futs = [ex.submit(one, i) for i in todo]
        for f in futs:
            r = f.result()
            if r is None:
                continue
            done += 1
            check.merge(merged, r[0])
            if r[1]:
                errors.append(r[1])
            if len(merged["violations"]) >= 8 or len(errors) > 5:
                for g in futs:
                    g.cancel()
                break
    if done < len(todo) and not merged["violations"]:
        merged["counts"]["cases-not-run"] = len(todo) - done
    return {"schemas": done}
