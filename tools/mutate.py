#!/usr/bin/env python3
"""Mutation testing of the checks, in scratch copies.

mutate.py filter N SEED OUT   draws N mutants of /repo, keeps those which build and pass the repository's tests
mutate.py check OUT LOG       runs the checks that concern the mutated file on each of them until one reports a violation
"""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "lib/uri/uri.cpp": (10, ["C10", "C11", "C03", "C02", "C05", "C04", "C12", "C06", "C01", "C14", "C07"]),
    "lib/uri/parts.cpp": (1, ["C04", "C02", "C10", "C01"]),
    "lib/uri/pctencode.cpp": (2, ["C09", "C10", "C04", "C05", "C02", "C01"]),
    "lib/uri/rule.cpp": (1, ["C06", "C10", "C05"]),
    "include/uri/rule.hpp": (4, ["C06", "C10", "C05", "C02", "C14", "C12"]),
    "include/uri/parts.hpp": (6, ["C04", "C10", "C02", "C09", "C14", "C01"]),
    "include/uri/pctencode.hpp": (1, ["C09", "C10", "C02", "C04"]),
    "include/uri/pctdecode.hpp": (4, ["C09", "C10", "C02", "C04", "C05"]),
    "include/uri/punycode.hpp": (5, ["C09", "C04", "C10", "C02", "C12"]),
    "lib/uri/punycode.cpp": (1, ["C09", "C04", "C05"]),
    "include/uri/find_last.hpp": (2, ["C09", "C04", "C05"]),
    "include/uri/starts_with.hpp": (1, ["C04", "C09"]),
    "include/uri/icubaby.hpp": (12, ["C08", "C13", "C09", "C02", "C05"]),
    "include/uri/uri.hpp": (1, ["C03", "C10", "C11", "C05"]),
    "tools/uri-split/uri-split.cpp": (2, ["C07"]),
}
OPS = [
    (r"(?<= )<(?= )", ["<=", ">="]), (r"(?<= )<=", ["<", ">"]), (r"(?<= )>(?= )", [">=", "<="]), (r"(?<= )>=", [">", "<"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"\+\+", ["--"]), (r"\+=", ["-="]), (r"<<(?= \d|= )", [">>"]), (r">>(?= \d|= )", ["<<"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[a-z(])", [""]),
    (r"\b0x[0-9A-Fa-f]+(?=U?\b)", "hex"), (r"(?<![\w.'])\d+(?=U?\b)(?![\w'])", "int"), (r"'(.)'", "chr"),
    (r"(?<= )%(?= )", ["/"]), (r"(?<= )\*(?= )", ["+"]), (r"(?<= )& (?=0x|\w)", ["| "]), (r"(?<= )\| (?=[\w(])", ["& "]),
]
def mutants(path, text):
    out, comment = [], False
    lines = text.split("\n")
    for n, l in enumerate(lines):
        t = l.strip()
        if not t or t.startswith(("//", "#", "*", "template", "requires", "static_assert", "assert", "using ", "namespace", "class ", "struct ")) or "ICUBABY_CONCEPT" in l:
            continue
        if "assert (" in l or "matched (" in l and "concat" not in l: continue
        code = l.split("//")[0].rstrip()
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                reps = to
                if to == "hex": v = int(m.group(), 16); reps = [hex(v + 1), hex(v ^ 0x10), hex(max(0, v - 1))]
                elif to == "int": v = int(m.group()); reps = [str(v + 1)] + ([str(v - 1)] if v else [])
                elif to == "chr": reps = ["'%s'" % chr(ord(m.group(1)) + 1)] if m.group(1).isalnum() else []
                for r in reps:
                    out.append((n, code[:m.start()] + r + code[m.end():]))
        if t.endswith(";") and not re.match(r"(return|auto|const|static|std::\w+(<.*>)? \w+|break|struct|}|\w+ \w+ ?(=|;)|template|friend|mutable)", t) and "(" in t or re.match(r"\w+_? = .*;$", t):
            out.append((n, "  ;"))
        if t == "break;" : out.append((n, ";"))
        m = re.match(r"(\s*(?:} else )?if \()(.*)(\) \{)$", code)
        if m:
            out.append((n, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3))) if ";" not in m.group(2) and " = " not in m.group(2) else None
        m = re.match(r"(\s*return )(.+);$", code)
        if m and not m.group(2).startswith("{"):
            if re.search(r"==|!=|&&|\|\||<|>|has_value|empty|valid", m.group(2)): out.append((n, m.group(1) + "!(" + m.group(2) + ");"))
    return [(path, n, lines[n], new) for n, new in out if new != lines[n]]
def sh(cmd, cwd, timeout, env=None):
    try:
        return subprocess.run("exec timeout -k 2 %d bash -c '%s'" % (timeout, cmd), shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", env=dict(os.environ, **(env or {})))
    except Exception as e:
        raise
def apply(root, m):
    p = os.path.join(root, m[0])
    old = open(REPO + "/" + m[0]).read()
    ls = old.split("\n"); assert ls[m[1]] == m[2]; ls[m[1]] = m[3]
    open(p, "w").write("\n".join(ls))
def restore(root, m):
    shutil.copyfile(REPO + "/" + m[0], os.path.join(root, m[0]))
def filt(n, seed, out, workers=5):
    rnd = random.Random(seed)
    pool = {f: mutants(f, open(REPO + "/" + f).read()) for f in FILES}
    for f in pool: print(f, len(pool[f]))
    picks = []
    files = [f for f in FILES if pool[f]]
    while len(picks) < n and any(pool.values()):
        f = rnd.choices(files, [FILES[x][0] if pool[x] else 0 for x in files])[0]
        picks.append(pool[f].pop(rnd.randrange(len(pool[f]))))
    os.makedirs("/tmp/mut", exist_ok=True)
    roots = []
    base = json.load(open("/opt/vp/BASELINE.json"))
    for k in range(workers):
        r = "/tmp/mut/w%d" % k
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree(REPO, r, symlinks=True, ignore=lambda p, _: ["_build", ".git"] if p == REPO else [])
        b = sh("sed \"s#/repo#%s#g; s/Debug/Debug/\" /opt/vp/build.sh > b.sh; bash b.sh" % r, r, 300)
        assert b.returncode == 0, b.stdout[-500:]
        roots.append(r)
    survivors, killed, broken = [], 0, 0
    def work(k):
        nonlocal killed, broken
        r = roots[k]
        while picks:
            try: m = picks.pop()
            except IndexError: return
            apply(r, m)
            b = sh("bash b.sh", r, 300, {"GTEST_FILTER": "-*"})
            if b.returncode: broken += 1
            else:
                t = sh("./unittest --gtest_brief=1", r + "/_build/unittests/uri", 60)
                if t.returncode == 0: survivors.append(m); json.dump(survivors, open(out, "w"), indent=0)
                else: killed += 1
            restore(r, m)
    with ThreadPoolExecutor(workers) as ex: list(ex.map(work, range(workers)))
    print("killed", killed, "broken", broken, "survive", len(survivors))
    for r in roots: shutil.rmtree(r, ignore_errors=True)
def check(src, log):
    done = set()
    if os.path.exists(log):
        for l in open(log):
            if l.startswith("== "): done.add(l.split(" :: ")[1].strip())
    r = "/tmp/mut/c"
    shutil.rmtree(r, ignore_errors=True)
    shutil.copytree(REPO, r, symlinks=True, ignore=lambda p, _: ["_build"] if p == REPO else [])
    for m in json.load(open(src)):
        key = "%s:%d: %s  ->  %s" % (m[0], m[1] + 1, m[2].strip(), m[3].strip())
        if key in done: continue
        apply(r, m)
        res = []
        verdict = "SURVIVED"
        for p in FILES[m[0]][1]:
            x = sh("python3 -B %s/check.py %s quick" % (V, p), V, 800, {"VERIF_REPO": r, "VERIF_SEED": "1", "VERIF_FIRST": "1"})
            if x.returncode == 1 and "VIOLATION property=%s" % p in x.stdout:
                verdict = "caught by " + p + " [" + next((l for l in x.stdout.splitlines() if l.startswith("seed ")), "")[:110] + "]"; break
            if x.returncode: res.append(p + "=ERROR%d" % x.returncode)
        with open(log, "a") as f: f.write("== " + verdict + " " + " ".join(res) + " :: " + key + "\n")
        restore(r, m)
    shutil.rmtree(r, ignore_errors=True)
if sys.argv[1] == "filter": filt(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
else: check(sys.argv[2], sys.argv[3])
