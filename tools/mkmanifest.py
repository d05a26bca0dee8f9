"""Writes MANIFEST.json; run after adding a property module."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
TECH = {
 "C01": "deterministic simulation: seeded histories of circuit operations and rejected calls, every route refined against a numpy reference model",
 "C02": "deterministic simulation: seeded call schedules with result overwriting, purity invariants after every call",
 "C03": "deterministic simulation: seeded thread scheduler over real library threads (line, instruction and tensor-operation preemption points), answers refined against the single-threaded model",
 "C04": "deterministic simulation with fault injection at every kind of tensor operation and source line; atomicity and retry oracles",
 "C05": "deterministic simulation: seeded update and training histories, gradients refined against exact derivatives",
 "C06": "deterministic simulation: injected alternative SVD answers (phase, degenerate basis, rounding noise), results refined against exact evolution",
 "C07": "deterministic simulation: seeded compute/update/uncompute histories with exact rollback oracle",
 "C08": "deterministic simulation: seeded batching schedules with corrupted members, per-member isolation oracle",
 "C09": "deterministic simulation: process crash at seeded points, only saved bytes survive, exact-resume oracle",
 "C10": "deterministic simulation: seeded histories with faults and rejected calls, bookkeeping invariant after every step",
 "C11": "deterministic simulation: seeded observation and conversion schedules, agreement with one density-matrix model",
 "C13": "deterministic simulation: seeded sessions of encoding, overwriting, failing and concurrent calls, refined against a numpy model of the encoders and checks",
 "C12": "deterministic simulation: seeded layer histories with failed calls, outputs and gradients refined against a per-window model",
}
LEVEL = {"C04": "exploration"}
NOTE = ("Seeded search, not a proof: a pass says that no explored history, schedule or fault sequence broke the "
        "property. Real library and torch code runs; torch's own kernels and Python's memory model are trusted. ")
NA = {
 "N03": "depends on a single call's arguments only; the rejected-call side (nothing may change) is covered by C04 and C10",
 "N04": "dead code: the functions call interfaces removed from the repository, so no execution to simulate",
 "N05": "a resource bound, not a behaviour: the simulator controls decisions, not memory use or speed",
}
checks = []
for pid in sorted(TECH):
    if not os.path.exists(os.path.join(H, "sim", "props", pid.lower() + ".py")):
        continue
    src = open(os.path.join(H, "sim", "props", pid.lower() + ".py"), encoding="utf8").read()
    checks.append({"property": pid, "quick_cmd": "./check %s --tier quick" % pid,
                   "thorough_cmd": "./check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": TECH[pid],
                   "level": "exploration", "level_note": NOTE + src.split('"""')[1].split("\n")[0]})
have = {c["property"] for c in checks}
na = [{"property": k, "reason": v} for k, v in NA.items()]
na += [{"property": k, "reason": "check not built yet"} for k in TECH if k not in have]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: tensor operations, source lines and locks are intercepted from outside "
              "(torch function mode, sys.monitoring, threading.Lock factory). Replay: ./check <id> --replay FILE."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
