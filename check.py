#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --setup                              build the executor and both harness libraries
   check.py --replay FILE                        run a recorded counterexample natively again
See DESIGN.md for what it does."""
import argparse, concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
SYMX = os.path.join(BUILD, "symx")
REPLAY = os.path.join(BUILD, "replay")
JOBS = int(os.environ.get("SYMX_JOBS") or os.cpu_count() or 4)


class CheckError(Exception):
    pass


def cargo_env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "HEADERS_TO_STDOUT", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE"):
            e.pop(k)
    home = "/root" if os.path.isdir("/root/.cargo") else e.get("HOME", "/root")
    e.update(HOME=home, RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=target, RUSTFLAGS="--cfg verif_hooks",
             PATH=home + "/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"))
    return e


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def walk(root, pred, skip=("target", ".git", ".build", "node_modules")):
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in skip]
        for f in fs:
            if pred(f):
                yield os.path.join(d, f)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run(cmd, what, timeout=900, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    if p.returncode:
        raise CheckError(what + " failed:\n" + p.stdout[-6000:])
    return p.stdout


def build_tools():
    with Lock("tools"):
        src = list(walk(os.path.join(HERE, "symx"), lambda f: True)) + [os.path.join(HERE, "native/replay.c")]
        want, stamp = file_hash(src), os.path.join(BUILD, "tools.stamp")
        if os.path.exists(SYMX) and os.path.exists(REPLAY) and os.path.exists(stamp) and open(stamp).read() == want:
            return
        run(["bash", os.path.join(HERE, "symx/build.sh"), SYMX], "building symx")
        run(["gcc", "-O1", "-rdynamic", os.path.join(HERE, "native/replay.c"), "-o", REPLAY, "-ldl", "-lm", "-lpthread"], "building the native runner")
        open(stamp, "w").write(want)


LOCAL = ["tp_client", "arena", "better_borrow", "tp_contract_macro", "rsharp", "rsharp_macro", "tp_contract_example", "unity_states", "symapi",
         "tp_serialize", "flatbuffers", "bimap", "dynpath"]


def repo_files():
    return list(walk(REPO, lambda f: f.endswith((".rs", ".toml", ".fbs")) or f == "Cargo.lock"))


def build_crate(crate, profile):
    """Compiles harness crate `crate` with the repository's current sources.
    profile ir: LLVM bitcode for symx and the library made from the same bitcode.
    profile dev: plain debug build, for replays."""
    d = os.path.join(HERE, "harness", crate)
    target = os.path.join(BUILD, "h" + crate)
    env = cargo_env(target)
    lib = "lib%s.so" % ("h" + crate)
    with Lock("build-" + crate):
        srcs = repo_files() + [p for p in walk(os.path.join(HERE, "harness"), lambda f: f != "Cargo.lock")]
        want = file_hash(srcs) + " " + profile
        stamp = os.path.join(target, profile + ".stamp")
        out = os.path.join(target, "release/deps/h%s.bc" % crate) if profile == "ir" else os.path.join(target, "debug", lib)
        so = os.path.join(target, "release" if profile == "ir" else "debug", lib)
        if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(out) and os.path.exists(so):
            return out, so
        os.makedirs(target, exist_ok=True)
        # the repository's own lock file decides the dependencies' versions
        lockcopy = os.path.join(d, "Cargo.lock")
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lockcopy)
        # contents, not time stamps, decide what is rebuilt
        relflag = ["--release"] if profile == "ir" else []
        fp = os.path.join(target, "release" if profile == "ir" else "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if re.sub(r"-[0-9a-f]{16}$", "", n) in LOCAL + ["h" + crate]:
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
        for f in (out, so):
            if os.path.exists(f):
                os.remove(f)
        cmd = ["cargo", "rustc", "--offline"] + relflag
        if profile == "ir":
            cmd += ["--", "--emit=llvm-bc,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
        try:
            run(cmd, "compiling harness crate %s against %s" % (crate, REPO), cwd=d, env=env)
        finally:
            if os.path.exists(lockcopy):
                os.remove(lockcopy)
        if not (os.path.exists(out) and os.path.exists(so)):
            raise CheckError("build of %s left no %s" % (crate, out))
        open(stamp, "w").write(want)
        return out, so


def build_scheduled(crate):
    """The library for replaying schedules: the bitcode symx executes, with a call at every point where it may switch threads."""
    bc, so = build_crate(crate, "ir")
    d = os.path.dirname(os.path.dirname(bc))
    out, inst, stamp = os.path.join(d, "scheduled.so"), os.path.join(d, "scheduled.bc"), os.path.join(d, "scheduled.stamp")
    with Lock("scheduled-" + crate):
        want = file_hash([bc, SYMX])
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
            return out
        run([SYMX, bc, "--instrument", inst], "preparing the scheduled library")
        cc = shutil.which("clang-18") or shutil.which("clang")
        run([cc, "-O0", "-w", "-shared", "-fPIC", "-x", "ir", inst, "-o", out, "-lpthread", "-ldl", "-lm"], "building the scheduled library")
        os.remove(inst)
        open(stamp, "w").write(want)
    return out


SUM_KEYS = ["paths_ok", "paths_expected_panic", "paths_assume", "paths_violation", "steps", "forks", "queries", "sat", "unsat",
            "unknown", "qcache", "solver_s", "asserts", "asserts_solver", "concretized", "switches"]


def symx(bc, entry, extra=(), timeout=3600):
    p = subprocess.run([SYMX, bc, "--entry", entry] + list(map(str, extra)), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", timeout=timeout)
    r = {k: 0 for k in SUM_KEYS}
    r.update(reach={}, incomplete={}, asserted={}, samples=[], functions=set(), lines=set(), violations=[], limits=[], trace=None,
             solver_max_s=0, max_steps_path=0, crash=None, n=0)
    for l in p.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            r["crash"] = "unreadable output: " + l[:200]
            continue
        if "violation" in j:
            r["violations"].append(j["violation"])
        elif "limit" in j:
            r["limits"].append(j["limit"])
        elif "trace" in j:
            r["trace"] = j["trace"]
        elif "crash" in j:
            r["crash"] = j["crash"]
        elif "summary" in j:
            s = j["summary"]
            r["n"] += 1
            for k in SUM_KEYS:
                r[k] += s[k]
            for k in ("reach", "incomplete", "asserted"):
                for a, b in s[k].items():
                    r[k][a] = r[k].get(a, 0) + b
            for k in ("solver_max_s", "max_steps_path"):
                r[k] = max(r[k], s[k])
            r["samples"] += s["samples"]
            r["functions"] |= set(s["functions"])
            r["lines"] |= set(s["lines"]) if isinstance(s["lines"], list) else set()
    if p.returncode or not r["n"]:
        r["crash"] = r["crash"] or ("symx ended with %d: %s" % (p.returncode, p.stderr[-500:]))
    return r


def native(so, entry, inputs, timeout=30):
    """-> (ending, info). Endings: ok, assume, assert, expected-panic, panic, crash, hang"""
    vals = ",".join(str(v) for v in inputs)
    try:
        p = subprocess.run([REPLAY, so, entry, vals], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", {"trace": [], "reach": {}, "asserts": 0, "failed": None, "stderr": "no end within %d s" % timeout}
    info = {"trace": [], "reach": {}, "asserts": 0, "failed": None, "stderr": p.stderr[-2000:]}
    ending = None
    for l in p.stdout.splitlines():
        t, _, rest = l.partition(" ")
        if t == "T":
            info["trace"].append(int(rest))
        elif t == "R":
            info["reach"][rest] = info["reach"].get(rest, 0) + 1
        elif t == "A":
            info["asserts"] = int(rest)
        elif t == "F":
            info["failed"] = rest
        elif t == "END":
            ending = rest
    if ending is None:
        ending = "panic" if "panicked at" in p.stderr else "crash"
        info["rc"] = p.returncode
    return ending, info


def valgrind(so, entry, inputs):
    if not shutil.which("valgrind"):
        return False
    p = subprocess.run(["valgrind", "-q", "--error-exitcode=77", REPLAY, so, entry, ",".join(map(str, inputs))], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
    return p.returncode == 77


def confirm(v, crate, entry, so_ir, threads=False):
    """Replays a counterexample against natively compiled code; returns the profile that reproduces it."""
    if threads:
        sos = [("scheduled build", lambda: build_scheduled(crate))]
    else:
        sos = [("checked release build", lambda: so_ir), ("debug build", lambda: build_crate(crate, "dev")[1])]
    for name, get in sos:
        so = get()
        ending, info = native(so, entry, v["inputs"])
        if ending in ("assert", "panic", "crash", "hang"):
            return {"profile": name, "ending": ending, "failed": info["failed"], "stderr": info["stderr"][-600:]}
    if v["kind"] in ("memory", "ub", "stack"):
        for name, get in sos:
            if valgrind(get(), entry, v["inputs"]):
                return {"profile": name + " under valgrind", "ending": "memory error", "failed": None, "stderr": ""}
    return None


def known_findings():
    r = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r'known: property=(\S+) harness=(\S+) msg="([^"]*)"\s*(.*)$', l)
                if not m:
                    raise CheckError("bad line in known_findings.txt: " + l)
                r.append(m.groups())
    return r


def check(prop, tier):
    import suite
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 0)
    spec = suite.SUITE[prop]
    hs = [h for h in spec["harnesses"] if tier in h.get("tiers", ("quick", "thorough"))]
    build_tools()
    crates = sorted({h["crate"] for h in hs})
    libs = {c: build_crate(c, "ir") for c in crates}
    sched = {c: build_scheduled(c) for c in sorted({h["crate"] for h in hs if h.get("threads")})}
    build_s = time.time() - t0
    tot = {k: 0 for k in SUM_KEYS}
    functions, lines, per, problems, found, samples, asserted, reached = set(), set(), [], [], [], [], {}, {}
    solver_max, max_path = 0, 0
    validated = 0
    budget = float(os.environ.get("SYMX_BUDGET") or (600 if tier == "quick" else 3000))
    cap = int(os.environ.get("SYMX_MEMMB") or 3000)

    def one(h, jobs):
        bc, so = libs[h["crate"]]
        t = time.time()
        left = max(10, budget - (time.time() - t0))
        r = symx(bc, h["entry"], ["--jobs", jobs, "--qtimeout", h.get("qtimeout", 60000), "--time-limit", int(left), "--mem", cap,
                                  "--max-steps", h.get("max_steps", 5000000)])
        r["wall"] = time.time() - t
        return h, r

    # small harnesses run side by side on one core each, big ones one after another on all cores
    results = []
    small = [h for h in hs if not h.get("big")]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        results += list(ex.map(lambda h: one(h, 1), small))
    for h in hs:
        if h.get("big"):
            results.append(one(h, JOBS))

    tovalidate = []
    for h, r in results:
        e = h["entry"]
        for k in SUM_KEYS:
            tot[k] += r[k]
        functions |= r["functions"]
        lines |= r["lines"]
        solver_max, max_path = max(solver_max, r["solver_max_s"]), max(max_path, r["max_steps_path"])
        for k, n in r["asserted"].items():
            asserted[k] = asserted.get(k, 0) + n
        for k, n in r["reach"].items():
            reached[e + ": " + k] = n
        if r["crash"]:
            problems.append("%s: %s" % (e, r["crash"]))
        for m, n in r["incomplete"].items():
            problems.append("%s: not decided: %s (%d)" % (e, m, n))
        if r["unknown"]:
            problems.append("%s: the solver gave no answer to %d queries" % (e, r["unknown"]))
        for v in r["violations"]:
            found.append((h, v))
        for v in r["limits"]:
            found.append((h, dict(kind="hang", msg="does not end within the step bound", loc="", inputs=v["inputs"], stack=v["stack"])))
        if not r["violations"]:
            for w in h.get("reach", []):
                if not r["reach"].get(w):
                    problems.append("%s: never reached: %s" % (e, w))
            if not (r["paths_ok"] + r["paths_expected_panic"]):
                problems.append("%s: no complete path" % e)
        sm, seen = [], set()
        for s in r["samples"]:
            if tuple(s) not in seen:
                seen.add(tuple(s))
                sm.append(s)
        step = max(1, len(sm) // 3)
        for s in sm[::step][:4]:
            tovalidate.append((h, s))
        per.append({"harness": e, "bounds": h["bounds"], "paths": r["paths_ok"] + r["paths_expected_panic"], "queries": r["queries"],
                    "solver_s": round(r["solver_s"], 3), "instructions": r["steps"], "assertions": r["asserts"], "wall_s": round(r["wall"], 2)})
        samples += [{"harness": e, "inputs": s} for s in sm[:2]]

    # the same concrete inputs through the encoding and through the compiled code must agree
    def validate(hs_):
        h, s = hs_
        bc, so = libs[h["crate"]]
        try:
            c = symx(bc, h["entry"], ["--concrete", ",".join(map(str, s)) or "0", "--max-steps", 20000000], timeout=300)
        except subprocess.TimeoutExpired:
            return "%s: concrete run of the encoding does not end on %s" % (h["entry"], s)
        if h.get("threads"):
            so = sched[h["crate"]]
        ending, info = native(so, h["entry"], s, timeout=60)
        if c["crash"]:
            return "%s: %s" % (h["entry"], c["crash"])
        enc = "ok" if c["paths_ok"] else "expected-panic" if c["paths_expected_panic"] else "assume" if c["paths_assume"] else \
            "violation" if c["violations"] else "?"
        nat = "violation" if ending in ("assert", "panic", "crash", "hang") else ending
        if enc == "violation" and nat == "violation":
            return None
        if enc != nat or (c["trace"] or []) != info["trace"] or c["reach"] != info["reach"] or c["asserts"] != info["asserts"]:
            return "%s: encoding and compiled code disagree on %s: %s %s %s/%s %s %s" % (
                h["entry"], s, enc, c["reach"], nat, info["reach"], c["trace"], info["trace"])
        return None
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(validate, tovalidate):
            if res is None:
                validated += 1
            else:
                problems.append(res)

    # counterexamples count only when the compiled code shows them too
    nviol, ces, done = 0, [], {}
    known = known_findings()
    out_lines = []
    for h, v in found:
        key = (h["entry"], v["kind"], v["msg"])
        if done.get(key, 0) >= 1 or sum(done.values()) >= 12:
            continue
        c = confirm(v, h["crate"], h["entry"], libs[h["crate"]][1], h.get("threads"))
        if c is None:
            problems.append("%s: counterexample does not replay on the compiled code: %s: %s %s (%s)" % (h["entry"], v["kind"], v["msg"], v["inputs"], v["loc"]))
            done.setdefault(key, 0)
            continue
        done[key] = done.get(key, 0) + 1
        kf = [k for k in known if k[0] == prop and k[1] == h["entry"] and k[2] == v["msg"]]
        if kf:
            out_lines.append("KNOWN-FINDING: property=%s %s" % (prop, kf[0][3] or v["msg"]))
            continue
        nviol += 1
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, h["entry"], nviol))
        json.dump({"property": prop, "crate": h["crate"], "entry": h["entry"], "inputs": v["inputs"], "kind": v["kind"], "message": v["msg"],
                   "where": v["loc"], "stack": v["stack"], "native": c,
                   "how": "python3 %s/check.py --replay %s" % (HERE, path)}, open(path, "w"), indent=1)
        out_lines.append("%s: %s: %s at %s; inputs %s; native: %s %s" % (h["entry"], v["kind"], v["msg"], v["loc"], v["inputs"], c["ending"],
                                                                       c["failed"] or c["stderr"][:200].replace("\n", " ")))
        out_lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        ces.append({"harness": h["entry"], "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"]})
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": nviol,
          "assumptions": suite.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
          "coverage": {
              "states": tot["paths_ok"] + tot["paths_expected_panic"] + tot["paths_violation"],
              "transitions": tot["steps"],
              "traces_validated_against_impl": validated,
              "samples": samples[:12] or [{"note": "no complete path"}],
              "meaning": "states: feasible symbolic paths explored to their end (each stands for all inputs satisfying its path condition); "
                         "transitions: LLVM instructions executed symbolically; traces_validated: concrete cases on which the encoding and the "
                         "natively compiled code agreed",
              "harnesses": per, "paths_cut_by_assumption": tot["paths_assume"], "forks": tot["forks"], "thread_switches": tot["switches"],
              "queries": {"total": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "answered_from_cache": tot["qcache"]},
              "solver": "Z3 (libz3 C API), bit-vectors, floating point", "solver_s": round(tot["solver_s"], 3), "solver_max_s": round(solver_max, 3),
              "longest_path_instructions": max_path, "assertions_checked": tot["asserts"], "assertions_sent_to_solver": tot["asserts_solver"],
              "assertions": asserted, "witnesses_reached": reached,
              "functions_encoded": sorted(functions), "source_lines_encoded": len(lines), "build_s": round(build_s, 1),
              "counterexamples": ces, "not_decided": problems,
          }}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in problems:
        print("PROBLEM", p)
    for l in out_lines:
        print(l)
    print("%s %s: %d paths, %d instructions, %d assertions, %d queries (%.1f s solver), %d cases validated, %d violations, %d problems, %.1f s" % (
        prop, tier, ev["coverage"]["states"], tot["steps"], tot["asserts"], tot["queries"], tot["solver_s"], validated, nviol, len(problems), wall))
    return 1 if nviol else 2 if problems else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.setup:
            build_tools()
            import suite
            for c in suite.CRATES:
                build_crate(c, "ir")
            return 0
        if a.replay:
            r = json.load(open(a.replay))
            build_tools()
            rc = 0
            import suite
            threads = [h for h in suite.SUITE[r["property"]]["harnesses"] if h["entry"] == r["entry"] and h.get("threads")]
            for prof in ("scheduled",) if threads else ("ir", "dev"):
                so = build_scheduled(r["crate"]) if threads else build_crate(r["crate"], prof)[1]
                ending, info = native(so, r["entry"], r["inputs"])
                print(prof, ending, info["failed"] or "", info["stderr"])
                rc |= ending not in ("ok", "assume", "expected-panic")
            return rc
        return check(a.property, a.tier)
    except CheckError as e:
        print("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
