#!/usr/bin/env python3
"""Deterministic-simulation checks.

  check.py ID quick|thorough        build from /repo's working tree, simulate, report, write evidence/ID.json
  check.py --replay FILE            rebuild, replay a recorded violation with its event trace

Exit 0: no violation. Exit 1: a line "VIOLATION property=ID replay=PATH". Exit 2: the check itself failed.
"""
import array, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
JOBS = 8
sys.path.insert(0, SIM)
from registry import CHECKS  # noqa: E402

ENV = dict(os.environ, LC_ALL="C", ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:symbolize=1:print_legend=0:print_summary=1",
           UBSAN_OPTIONS="exitcode=77:print_stacktrace=0:halt_on_error=1", TSAN_OPTIONS="")
ENV.pop("LOCPATH", None)

FIRST = bool(os.environ.get("VERIF_FIRST"))  # Development only: stop at the first violation, do not minimise it.

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

# --------------------------------------------------------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "lib"), os.path.join(REPO, "tools"), SIM):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".hpp", ".h", ".c", ".hh", ".cc", ".ipp", ".inc", ".def")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()

def lib_sources():
    d = os.path.join(REPO, "lib", "uri")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]

BASE = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-I", os.path.join(REPO, "include"), "-I", SIM, "-w"]
def flags(variant, compiler, instrument):
    f = list(BASE)
    if compiler == "clang++":
        f += ["-O1"]
        if variant == "tsan":
            if instrument:
                f += ["-fsanitize=thread", "-include", os.path.join(SIM, "tsan_prelude.hpp")]
        else:
            if variant != "cost":
                f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
            if instrument:
                f += ["-fsanitize-coverage=trace-pc-guard"]
    else:
        f += ["-O1"]
        if variant == "tsan":
            if instrument:
                f += ["-fsanitize=thread", "-include", os.path.join(SIM, "tsan_prelude.hpp")]
        elif variant != "cost":
            f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
        if variant != "tsan" and instrument:
            f += ["-fsanitize-coverage=trace-pc"]
    if variant == "release":
        f += ["-DNDEBUG"]
    return f

def compile_one(job):
    src, extra, variant, compiler, instrument, th = job
    fl = flags(variant, compiler, instrument) + extra
    key = hashlib.sha256(("\0".join([th, src, compiler] + fl)).encode()).hexdigest()[:40]
    out = os.path.join(BUILD, "cache", key + ".o")
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = subprocess.run([compiler] + fl + ["-c", src, "-o", tmp], capture_output=True, text=True, env=ENV)
        if r.returncode != 0:
            return None, src + ":\n" + r.stderr[:3000]
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out, None

def build(spec, variant, th):
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    err = ""
    # The release variant differs in the assertions and in the compiler: what is unspecified may differ between these.
    for compiler in ("g++", "clang++") if variant == "release" else ("clang++", "g++"):
        jobs = []
        cov = ["-DSIM_COVERAGE=%d" % (1 if compiler == "clang++" else 2)] if variant != "tsan" else []
        for s in spec["sources"]:
            src, extra, instrument = (s + ([], True))[:3] if isinstance(s, tuple) else (s, [], True)
            src = src.replace("$REPO", REPO).replace("$SIM", SIM)
            found = sorted(glob.glob(src)) if "*" in src else [src]
            jobs += [(f, list(extra), variant, compiler, instrument, th) for f in found]
        if spec.get("lib", True):
            jobs += [(s, [], variant, compiler, True, th) for s in lib_sources()]
        jobs.append((os.path.join(SIM, "main.cpp"), cov, variant, compiler, False, th))
        jobs.append((os.path.join(SIM, "alloc.cpp"), [], variant, compiler, False, th))
        # Longest first.
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(compile_one, jobs))
        bad = [e for o, e in res if e]
        if bad:
            err = "\n".join(bad)
            continue
        objs = [o for o, _ in res]
        key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:40]
        exe = os.path.join(BUILD, "cache", key + ".exe")
        if not os.path.exists(exe):
            link = [compiler] + objs + ["-o", exe + ".tmp%d" % os.getpid(), "-pthread", "-ldl"]
            if variant == "cost":
                link += ["-static-libstdc++"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "strlen")]
            elif variant != "tsan":
                link += ["-fsanitize=address,undefined"]
            link += ["-rdynamic"] + spec.get("link", [])
            r = subprocess.run(link, capture_output=True, text=True, env=ENV)
            if r.returncode != 0:
                err = r.stderr[:4000]
                continue
            os.replace(exe + ".tmp%d" % os.getpid(), exe)
        prune()
        return exe, compiler
    die("cannot build the simulator against %s:\n%s" % (REPO, err))

def prune():
    d = os.path.join(BUILD, "cache")
    fs = []
    for f in os.listdir(d):
        p = os.path.join(d, f)
        try:
            st = os.stat(p)
        except FileNotFoundError:  # another check removed or renamed it
            continue
        fs.append((st.st_mtime, st.st_size, p))
    total = 0
    for mtime, size, p in sorted(fs, reverse=True):
        total += size
        if total > 3 << 30 and time.time() - mtime > 600:
            try:
                os.remove(p)
            except FileNotFoundError:
                pass

# ----------------------------------------------------------------------------------------------------------------- run
def run_sim(exe, args, timeout=600, env=None):
    r = subprocess.run([exe] + args, capture_output=True, text=True, errors="replace", timeout=timeout,
                       env=dict(ENV, **(env or {})))
    return r

def parse_outcome(text):
    for line in text.splitlines():
        if line.startswith("{"):
            return json.loads(line)
    return None

REC = struct.Struct("<QQQQII")
def read_records(path):
    with open(path, "rb") as f:
        data = f.read()
    return [REC.unpack_from(data, i) for i in range(0, len(data) - REC.size + 1, REC.size)]

def batch(exe, work, tag, seed, start, count, workers, chunk, deadline, env):
    """Splits [start, start+count) over workers at chunk boundaries."""
    procs = []
    per = max(1, -(-count // (workers * chunk))) * chunk
    s = start
    k = 0
    while s < start + count:
        n = min(per, start + count - s)
        out = os.path.join(work, "%s.%d" % (tag, k))
        procs.append((out, subprocess.Popen([exe, "--batch", str(seed), str(s), str(n), out, str(deadline)],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                            env=dict(ENV, **env), start_new_session=True)))
        s += n
        k += 1
    res = []
    if FIRST:
        while any(p.poll() is None for _, p in procs):
            if any(p.poll() == 1 for _, p in procs):
                for _, q in procs:
                    if q.poll() is None:
                        os.killpg(q.pid, signal.SIGKILL)
                break
            time.sleep(0.1)
        procs = [x for x in procs if x[1].wait() == 1] or procs
    for out, p in procs:
        _, err = p.communicate()
        if p.returncode not in (0, 1):
            for _, q in procs:
                try:
                    os.killpg(q.pid, signal.SIGKILL)
                except OSError:
                    pass
            die("simulator worker failed (%d): %s" % (p.returncode, err.decode(errors="replace")[-2000:]))
        with open(out + ".json") as f:
            j = json.load(f)
        j["records"] = read_records(out + ".bin")
        with open(out + ".edges", "rb") as f:
            j["edgemap"] = f.read()
        res.append(j)
    return res

def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append({"class": m.group(2), "match": m.group(3), "what": m.group(4)})
    return res

def write_choices(path, runs):
    with open(path, "w") as f:
        for r in runs:
            f.write(" ".join(map(str, r)) + "\n")

def confirm(exe, path, env):
    """Replays a choice file twice in fresh processes. Returns the outcome if both agree."""
    a = parse_outcome(run_sim(exe, ["--replay", path], env=env).stdout)
    b = parse_outcome(run_sim(exe, ["--replay", path], env=env).stdout)
    if a and b and not a["ok"] and not b["ok"] and a["class"] == b["class"] and a["hash"] == b["hash"]:
        return a
    return None

def handle_violation(prop, tier, variant, exe, work, seed, v, chunk_start, env):
    idx = v["idx"]
    f = os.path.join(work, "v.choices")
    prefix = []
    runs = [v["choices"]]
    write_choices(f, runs)
    got = confirm(exe, f, env)
    if not got or got["class"] != v["class"]:
        # Perhaps the runs before it in the same process matter: state surviving between calls.
        all_prefix = []
        for k in range(chunk_start, idx):
            o = parse_outcome(run_sim(exe, ["--one", str(seed), str(k)], env=env).stdout)
            all_prefix.append(o["choices"] if o else [])
        n = 1
        while True:
            prefix = all_prefix[-n:] if n <= len(all_prefix) else all_prefix
            runs = prefix + [v["choices"]]
            write_choices(f, runs)
            got = confirm(exe, f, env)
            if got and got["class"] == v["class"]:
                break
            got = None
            if n >= len(all_prefix):
                break
            n *= 2
    if not got:
        return None
    g = os.path.join(work, "v.min")
    try:
        if not FIRST: run_sim(exe, ["--shrink", f, g, got["class"], "1500"], timeout=240, env=env)
    except subprocess.TimeoutExpired:
        pass
    final = f
    if os.path.exists(g):
        small = confirm(exe, g, env)
        if small and small["class"] == got["class"]:
            final, got = g, small
    t = run_sim(exe, ["--replay", final, "--trace"], env=env)
    trace = [l[2:] for l in t.stderr.splitlines() if l.startswith("  ")][:400]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop, seed, idx))
    with open(final) as fh:
        choice_lines = [[int(x) for x in l.split()] for l in fh.read().split("\n")[:-1]]
    rec = {"property": prop, "variant": variant, "tier": tier, "seed": seed, "run": idx, "class": got["class"],
           "message": got["msg"], "event_log_hash": got["hash"], "choices": choice_lines,
           "unminimised_choices": v["choices"], "trace": trace,
           "how": "python3 /verif/check.py --replay " + path}
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
    return path, got, trace

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in CHECKS or sys.argv[2] not in ("quick", "thorough"):
        die(__doc__)
    prop, tier = sys.argv[1], sys.argv[2]
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return check(prop, tier, spec, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check(prop, tier, spec, seed, t0, work):
    print("property=%s tier=%s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
    th = tree_hash()
    env = {"SIM_WORK": work}
    if spec.get("prepare"):
        env.update(spec["prepare"](work) or {})
    chunk = spec.get("chunk", 16)
    variants = spec.get("variants", ["asan", "release"])
    with concurrent.futures.ThreadPoolExecutor(len(variants)) as ex:
        exes = dict(zip(variants, ex.map(lambda v: build(spec, v, th), variants)))
    t_build = time.time() - t0
    runs = spec["runs"][tier]
    deadline = spec.get("deadline", {"quick": 240, "thorough": 3600})[tier]
    total = {}
    edges = 0
    sigs, nontrivial_sigs, hashes = set(), set(), {}
    evaluations = steps = 0
    t1 = time.time()
    violations = []
    known_hit = set()
    unconfirmed = 0
    findings = known_findings(prop)
    compilers = sorted({c for _, c in exes.values()})
    runs_by_build = {}
    def is_known(viol):
        return next((k for k in findings if k["class"] == viol["class"] and k["match"] in viol["msg"]), None)
    for vi, v in enumerate(variants):
        exe = exes[v][0]
        before = len(hashes)
        share = runs if vi == 0 else runs // 4 // chunk * chunk
        start = 0 if vi == 0 else (runs + chunk - 1) // chunk * chunk
        res = batch(exe, work, v, seed, start, share, JOBS, chunk, deadline if vi == 0 else deadline / 3, env)
        edgemap = bytearray(1 << 16)
        for j in res:
            for k, n in j["stats"].items():
                total[k] = max(total.get(k, 0), n) if k.startswith("max.") else total.get(k, 0) + n
            for i, b in enumerate(j["edgemap"]):
                if b:
                    edgemap[i] = 1
            for idx, h, sig, st, nt, nch in j["records"]:
                evaluations += 1
                steps += st
                hashes[(v, idx)] = h
                sigs.add(sig)
                if nt:
                    nontrivial_sigs.add(sig)
            if j["violation"]:
                violations.append((j["violation"]["idx"], v, j["violation"], j["chunk_start"]))
        edges = edges or sum(edgemap)
        runs_by_build[v] = {"compiler": exes[v][1], "assertions": v != "release", "runs": len(hashes) - before}
        if any(not is_known(x[2]) for x in violations):
            break
    wall_runs = time.time() - t1
    # Determinism: the first chunks again, in one worker instead of eight, in fresh processes.
    recheck = min(runs, max(chunk, (runs // 40) // chunk * chunk, min(chunk * 4, 256)))
    mismatches = rechecked = 0
    if not violations:
        v = variants[0]
        for j in batch(exes[v][0], work, "again", seed, 0, recheck, 3, chunk, deadline, env):
            for idx, h, *_ in j["records"]:
                rechecked += 1
                if hashes.get((v, idx)) not in (None, h):
                    mismatches += 1
    reported = None
    for idx, v, viol, cs in sorted(violations, key=lambda x: x[0]):
        kf = is_known(viol)
        if kf:
            known_hit.add(kf["what"])
            continue
        r = handle_violation(prop, tier, v, exes[v][0], work, seed, viol, cs, env)
        if r is None:
            unconfirmed += 1
            print("NOTE: run %d reported %s: %s, which did not replay" % (idx, viol["class"], viol["msg"][:300]))
            continue
        reported = r
        break
    # Samples: whole event logs of a few runs.
    samples = []
    want = [0, runs // 2, runs - 1] if not reported else [0]
    for k in want:
        t = run_sim(exes[variants[0]][0], ["--one", str(seed), str(k), "--trace"], env=env)
        samples.append({"run": k, "events": [l[2:] for l in t.stderr.splitlines() if l.startswith("  ")][:60]})
    wall = time.time() - t0
    faults = {k[6:]: n for k, n in sorted(total.items()) if k.startswith("fault.")}
    probes = {k[6:]: n for k, n in sorted(total.items()) if k.startswith("probe.")}
    other = {k: n for k, n in sorted(total.items()) if not k.startswith(("fault.", "probe."))}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial_sigs),
            "rule": spec["rule"],
            "samples": samples,
            "seeds": "run i uses mix(VERIF_SEED=%d, i), i = 0..%d" % (seed, evaluations - 1),
            "runs_per_hour": int(evaluations / max(wall_runs, 0.001) * 3600),
            "simulated_time": {"unit": spec.get("time_unit", "instrumented control-flow edges executed by real code"),
                               "total": steps or other.get("sim.steps", 0)},
            "faults_injected": faults,
            "rare_conditions_hit": probes,
            "workload": other,
            "distinct_run_shapes": len(sigs),
            "distinct_measure": spec["distinct"],
            "code_edges_reached": edges,
            "determinism": {"runs_repeated_in_fresh_processes_at_another_worker_count": rechecked,
                            "event_log_mismatches": mismatches},
            "real_components": spec["real"], "stub_components": spec["stub"],
            "compiler": compilers,
            "builds": runs_by_build,
            "build_s": round(t_build, 1),
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if reported else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%d runs, %d distinct non-trivial, %.0f s (build %.0f s), faults %s, %d/%d repeated runs differ" %
          (evaluations, len(nontrivial_sigs), wall, t_build, json.dumps(faults), mismatches, rechecked))
    if reported:
        path, got, trace = reported
        print("seed %d: %s: %s" % (seed, got["class"], got["msg"][:1500]))
        for l in trace[-25:]:
            print("    " + l[:400])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if unconfirmed:
        die("a reported violation did not replay")
    if evaluations == 0:
        die("no run completed")
    return 0

def replay(path):
    rec = json.load(open(path))
    spec = CHECKS[rec["property"]]
    work = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        env = {"SIM_WORK": work}
        if spec.get("prepare"):
            env.update(spec["prepare"](work) or {})
        exe, _ = build(spec, rec["variant"], tree_hash())
        f = os.path.join(work, "c")
        write_choices(f, rec["choices"])
        t = run_sim(exe, ["--replay", f, "--trace"], env=env)
        sys.stdout.write(t.stderr)
        r = run_sim(exe, ["--replay", f], env=env)
        o = parse_outcome(r.stdout)
        if o["ok"]:
            print("the recorded run does not violate %s on this tree" % rec["property"])
            return 0
        same = o["class"] == rec["class"] and o["hash"] == rec["event_log_hash"]
        print("%s: %s\n%s the recorded violation" % (o["class"], o["msg"], "identical to" if same else "differs from"))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
