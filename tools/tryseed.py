#!/usr/bin/env python3
"""tryseed.py ID... [--checks C02,C03|own|all] [--nochecks] [--tier quick]: confirm planted bugs in scratch copies of /repo and run checks on them."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, errors="replace", timeout=timeout)
def stable():
    b = BASE
    for k in ("tests", "passed", "stable", "reliable"):
        if isinstance(b, dict) and k in b: return set(b[k])
    raise SystemExit("baseline? %r" % (list(b)[:5],))
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = {a.split("=")[0]: a.split("=")[1] if "=" in a else "" for a in sys.argv[1:] if a.startswith("--")}
    if not args: args = sorted(os.listdir(os.path.join(V, "seeded")))
    rows = []
    for i in args:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        s = "/tmp/seed-" + i
        shutil.rmtree(s, ignore_errors=True)
        shutil.copytree("/repo", s, symlinks=True, ignore=lambda p, n: ["_build"] if p == "/repo" else [])
        demo = "/tmp/seeddemo-" + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo)
        try:
            row = [i]
            if "--skipconfirm" not in opt:
                r = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh; sed 's#/repo#%s#g; s#/opt/vp/build.sh#%s/b.sh#' /opt/vp/test.sh > %s/t.sh" % (s, demo, s, demo, demo), s)
                r = sh("bash %s/b.sh" % demo, s)
                if r.returncode: print(i, "clean build failed", r.stdout[-500:]); continue
                c = sh("bash %s/demo.sh" % demo, s, timeout=300)
                row.append("demo-clean=%d" % c.returncode)
                if c.returncode: print(c.stdout[-800:], c.stderr[-800:])
            r = sh("git apply %s/patch.diff" % d, s)
            if r.returncode: print(i, "patch does not apply", r.stderr); continue
            if "--skipconfirm" not in opt:
                r = sh("bash %s/b.sh" % demo, s)
                row.append("build=%d" % r.returncode)
                if r.returncode: print(r.stdout[-1500:])
                r = sh("bash %s/t.sh %s/out.json" % (demo, demo), s)
                o = json.load(open(demo + "/out.json"))
                miss = stable() - set(o["passed"])
                row.append("tests-lost=%d" % len(miss))
                if miss: print(sorted(miss)[:5])
                c = sh("bash %s/demo.sh" % demo, s, timeout=300)
                row.append("demo-bug=%d" % c.returncode)
            if "--nochecks" not in opt:
                ck = opt.get("--checks", "own")
                ids = [meta["property"]] if ck == "own" else json.loads(subprocess.run([sys.executable, "-B", "-c", "import sys,json;sys.path.insert(0,'%s/sim');from registry import CHECKS;print(json.dumps(list(CHECKS)))" % V], capture_output=True, text=True).stdout) if ck == "all" else ck.split(",")
                for p in ids:
                    t = time.time()
                    r = sh("python3 -B %s/check.py %s %s" % (V, p, opt.get("--tier", "quick")), V, {"VERIF_REPO": s, "VERIF_SEED": opt.get("--seed", "1")}, timeout=3600)
                    hit = "VIOLATION property=%s" % p in r.stdout
                    row.append("%s=%s(%ds)" % (p, "CAUGHT" if hit and r.returncode == 1 else "quiet" if r.returncode == 0 else "ERROR%d" % r.returncode, time.time() - t))
                    if hit: row.append("[" + next((l for l in r.stdout.splitlines() if l.startswith("seed ")), "")[:160] + "]")
                    elif r.returncode: print(r.stdout[-1500:])
            print("  ".join(row), flush=True)
        finally:
            shutil.rmtree(s, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
main()
