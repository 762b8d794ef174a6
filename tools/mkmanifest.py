#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sim/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "sim"))
sys.dont_write_bytecode = True
from registry import CHECKS
PURE = ("Pure function of its input: no schedule, clock, I/O, fault, history or second party for the simulator to decide, so "
        "simulation would only be input generation under another name.")
NA = {
    "N01": PURE + " (Its consequences under faults are claimed: C10 for received text, C02 under memory exhaustion, C12 under locale changes.)",
    "N02": PURE + " (Used as a model by C04 and C10.)",
    "N03": PURE + " (Used as a model by C02, C04 and C10.)",
    "N04": PURE,
    "N05": PURE,
    "N06": PURE,
}
TECH = {
    "C01": "deterministic simulation: instrumented threads parked at every memory access, seeded scheduler, happens-before race detection, sequential reference",
    "C02": "deterministic simulation with seeded allocation-failure injection and retries, reference models",
    "C03": "deterministic simulation with a faulty output stream and allocation failures, prefix oracle",
    "C04": "deterministic simulation of store histories with growth-policy and allocation faults, reference models",
    "C05": "deterministic simulation with seeded allocation-failure injection in non-throwing calls",
    "C06": "deterministic simulation of generated grammars with faulty matchers, actions and allocations, reference interpreter",
    "C07": "deterministic simulation of the real program over a simulated operating system (faulty open/read/write, memory), reference report",
    "C08": "deterministic simulation of a lossy unit channel and of suspend/resume schedules, reference decoder",
    "C09": "deterministic simulation with sources and sinks that fail at drawn points, prefix oracle",
    "C10": "deterministic simulation of a sender, a faulty octet channel and a receiver, RFC 3986 reference model",
    "C11": "deterministic simulation of a client with crashes, restarts, torn stores and allocation faults, RFC 3986 section 5 reference model",
    "C12": "deterministic simulation of locale switches before, between and during calls, locale-free reference results",
    "C13": "deterministic simulation of a byte stream cut, chunked, damaged and checkpointed at drawn points, reference decoder",
    "C14": "deterministic simulation of a hostile peer on a simulated clock (edges, octets moved), allocator and stack; growth between lengths, memory exhaustion, long histories",
}
NOTE = ("Seeded sampling of runs (not exhaustive): a clean batch is evidence, not proof. Every violation is replayed twice in "
        "fresh processes before it is reported. Trusts: the simulator, the reference models in sim/model.hpp, compiler and "
        "libstdc++. ")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -B -c 'import ast; [ast.parse(open(f).read()) for f in (\"check.py\", \"sim/registry.py\")]' && mkdir -p build/cache evidence replays",
     "checks": [], "not_applicable": [],
     "notes": "Each check builds a simulator with the library's sources from /repo's working tree (objects cached in build/cache "
              "by content) and runs a fixed number of seeded runs. Replay: python3 check.py --replay FILE. See DESIGN.md."}
hooks = os.path.join(HERE, "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 -B check.py %s quick" % i,
                            "thorough_cmd": "python3 -B check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                            "level_note": NOTE + "Assumes: " + " ".join(CHECKS[i]["assumptions"])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet; not claimed.")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
