"""Seeded search over simulated runs: forks one pristine child per run, minimises the first violation, writes the
replay file and the evidence.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check itself failed."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import select
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """What one run may use to report what it did."""

    def __init__(self):
        self.events = []
        self.faults = {}
        self.probes = {}
        self.shape = []
        self.steps = 0
        self.schedule = None
        self.known = []

    def ev(self, *a):
        self.events.append(" ".join(str(x) for x in a))
        self.steps += 1

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:16]

    def shape_digest(self):
        return hashlib.sha256("|".join(str(s) for s in self.shape).encode()).hexdigest()[:12]


def prop_module(pid):
    return importlib.import_module("sim.props." + pid.lower())


def load_findings(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line)
    return out


def unusable(e):
    """Is this the simulated program stumbling over what the library gave it (a value of another type or shape, cut from the
    autograd graph, ...), rather than the simulator itself failing?"""
    return isinstance(e, (TypeError, ValueError, RuntimeError, IndexError, KeyError, AttributeError, AssertionError, ArithmeticError)) \
        and "sim." not in str(e) and "incarnation failed" not in str(e) and "did not finish" not in str(e)


def execute(mod, plan):
    """Run one plan in this process.  Returns a result dict."""
    from .world import Violation
    ctx = Ctx()
    res = {"ok": True}
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        res = {"ok": False, "cls": v.cls, "detail": v.detail}
    except BaseException as e:
        from .lib import REPO
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + os.sep) for f in tb) and not isinstance(e, (SystemExit,)):
            # the library failed where the simulated program had no reason to expect a failure
            res = {"ok": False, "cls": "crash:" + type(e).__name__, "detail": "unexpected %s from %s: %s" % (
                type(e).__name__, tb[-1].name, str(e)[:300])}
        elif unusable(e):
            res = {"ok": False, "cls": "unusable:" + type(e).__name__, "detail": "an answer of the library could not be used: "
                   "%s: %s (%s line %d)" % (type(e).__name__, str(e)[:300], os.path.basename(tb[-1].filename), tb[-1].lineno)}
        else:
            res = {"ok": False, "harness": "%s: %s\n%s" % (type(e).__name__, str(e)[:500], "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-3000:])}
    res.update(digest=ctx.digest(), shape=ctx.shape_digest(), faults=ctx.faults, probes=ctx.probes, steps=ctx.steps,
               schedule=ctx.schedule, known=ctx.known, nev=len(ctx.events))
    if plan.get("_trace"):
        res["events"] = ctx.events
    return res


class Zygote:
    """A process that only forks.  Every run starts from the same frozen image: the plan is read, the answer written, by the forked
    child itself, so nothing a run or the searching parent did can reach the next run - not even through the allocator.  With address
    randomisation off (see main), object addresses repeat too."""

    def __init__(self, mod):
        self.mod = mod
        self.cmd_r, self.cmd_w = os.pipe()
        self.plan_r, self.plan_w = os.pipe()
        self.res_r, self.res_w = os.pipe()
        self.st_r, self.st_w = os.pipe()
        gc.collect()
        gc.freeze()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                for fd in (self.cmd_w, self.plan_w, self.res_r, self.st_r):
                    os.close(fd)
                self.loop()
            finally:
                os._exit(0)
        for fd in (self.cmd_r, self.res_w, self.st_w):
            os.close(fd)

    def loop(self):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        while os.read(self.cmd_r, 1):
            pid = os.fork()
            if pid == 0:
                self.child()
            os.write(self.st_w, struct.pack("<q", pid))
            os.waitpid(pid, 0)
            os.write(self.st_w, b"e")

    def child(self):
        code = 0
        try:
            n = struct.unpack("<q", self.read_exact(self.plan_r, 8))[0]
            plan = json.loads(self.read_exact(self.plan_r, n))
            data = json.dumps(execute(self.mod, plan)).encode()
            data = struct.pack("<q", len(data)) + data
            while data:
                data = data[os.write(self.res_w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)

    @staticmethod
    def read_exact(fd, n):
        buf = b""
        while len(buf) < n:
            d = os.read(fd, n - len(buf))
            if not d:
                raise EOFError
            buf += d
        return buf

    def run(self, plan, timeout):
        """Returns a result, None for a hang, or a harness failure."""
        os.write(self.cmd_w, b"r")
        data = json.dumps(plan).encode()
        data = struct.pack("<q", len(data)) + data
        pid = struct.unpack("<q", self.read_exact(self.st_r, 8))[0]
        end = time.monotonic() + timeout
        buf, ended, dead = b"", False, False
        os.set_blocking(self.plan_w, False)
        while True:
            if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<q", buf[:8])[0]:
                break
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                dead = True
                break
            rl, wl, _ = select.select([self.res_r, self.st_r], [self.plan_w] if data else [], [], left)
            if wl:
                data = data[os.write(self.plan_w, data[:1 << 15]):]
            if self.res_r in rl:
                buf += os.read(self.res_r, 1 << 16)
            elif self.st_r in rl:
                ended = True
                os.read(self.st_r, 1)
                break
        if not ended:
            self.read_exact(self.st_r, 1)
        if ended or dead:       # anything the child left half read or half written
            for fd in (self.res_r, self.plan_r):
                while select.select([fd], [], [], 0)[0]:
                    os.read(fd, 1 << 16)
        if dead:
            return None
        try:
            return json.loads(buf[8:])
        except ValueError:
            return {"ok": False, "harness": "child died without an answer"}


POOL = []
CUR = None


def fork_run(mod, plan, timeout=90, retry=True):
    """Execute a plan in a child forked from a pristine image."""
    global CUR
    if CUR is None:
        CUR = Zygote(mod)
    r = CUR.run(plan, timeout)
    if r is not None:
        return r
    if retry:
        return fork_run(mod, plan, timeout, False)
    return {"ok": False, "cls": "hang", "detail": "the run made no progress within %d s, twice" % timeout}


def make_plan(mod, seed, tier, i):
    from .prng import Rng
    rng = Rng(mod.ID, seed, tier if tier == "thorough" else "quick", i)
    plan = mod.gen(rng, tier, i)
    plan["prop"], plan["seed"], plan["run"] = mod.ID, seed, i
    return json.loads(json.dumps(plan))


def worker(mod, seed, tier, wid, nw, total, wfd, rfd, deadline, chunk):
    """Runs indices wid, wid+nw, ... ; streams one JSON line per run; stops at the index bound the parent sends."""
    global CUR
    CUR = POOL[wid]
    out = os.fdopen(wfd, "w", buffering=1)
    i = wid
    while i < total and time.monotonic() < deadline:
        if select.select([rfd], [], [], 0)[0]:
            break
        plan = make_plan(mod, seed, tier, i)
        res = fork_run(mod, plan)
        res["i"] = i
        res["w"] = wid
        out.write(json.dumps(res) + "\n")
        # determinism: a sample of runs is repeated by a different worker order and compared by event digest
        if i % 97 == 5:
            again = fork_run(mod, plan)
            msg = {"i": i, "again": again.get("digest"), "first": res.get("digest"), "ok1": res.get("ok"), "ok2": again.get("ok")}
            if res.get("ok") and not again.get("ok") and not again.get("harness"):
                again["i"] = i
                msg["bad2"] = again
            out.write(json.dumps(msg) + "\n")
        i += nw
    out.write(json.dumps({"end": wid}) + "\n")
    out.close()
    os._exit(0)


def search(mod, seed, tier, total, nw, budget):
    global CUR
    t0 = time.monotonic()
    deadline = t0 + budget
    while len(POOL) < nw + 1:       # before anything else happens in this process
        POOL.append(Zygote(mod))
    CUR = POOL[nw]
    fds, stops, pids = {}, [], []
    for wid in range(nw):
        r, w = os.pipe()
        sr, sw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(sw)
                for fd in list(fds) + stops:
                    os.close(fd)
                worker(mod, seed, tier, wid, nw, total, w, sr, deadline, 1)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(4)
        os.close(w)
        os.close(sr)
        fds[r] = b""
        stops.append(sw)
        pids.append(pid)
    agg = {"runs": 0, "steps": 0, "faults": {}, "probes": {}, "shapes": set(), "nontrivial": set(), "bad": [],
           "harness": [], "rep": 0, "repbad": [], "known": {}, "sched_steps": 0}
    ends = 0
    stopped = False
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rl:
            d = os.read(fd, 1 << 16)
            if not d:
                os.close(fd)
                del fds[fd]
                continue
            fds[fd] += d
            *lines, fds[fd] = fds[fd].split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if "end" in m:
                    ends += 1
                    continue
                if "again" in m:
                    agg["rep"] += 1
                    if m["again"] != m["first"] or m["ok1"] != m["ok2"]:
                        agg["repbad"].append(m["i"])
                        if m.get("bad2"):
                            agg["bad"].append(m["bad2"])
                    continue
                agg["runs"] += 1
                agg["steps"] += m.get("steps", 0)
                for k, v in m.get("faults", {}).items():
                    agg["faults"][k] = agg["faults"].get(k, 0) + v
                for k, v in m.get("probes", {}).items():
                    agg["probes"][k] = agg["probes"].get(k, 0) + v
                if "shape" in m:
                    agg["shapes"].add(m["shape"])
                    if m.get("steps", 0) >= 2:
                        agg["nontrivial"].add(m["shape"])
                for k in m.get("known", []):
                    agg["known"][k] = agg["known"].get(k, 0) + 1
                if m.get("harness"):
                    agg["harness"].append(m)
                elif not m["ok"]:
                    agg["bad"].append(m)
        if (agg["bad"] or len(agg["harness"]) > 20) and not stopped:
            stopped = True
            for s in stops:
                try:
                    os.write(s, b"x")
                except OSError:
                    pass
    for p in pids:
        os.waitpid(p, 0)
    for s in stops:
        os.close(s)
    agg["wall"] = time.monotonic() - t0
    agg["ends"] = ends
    return agg


# ------------------------------------------------------------------ minimisation
def same(res, cls):
    return (not res["ok"]) and res.get("cls", "").split("#")[0] == cls.split("#")[0]


def minimise(mod, plan, cls, budget=25.0):
    end = time.monotonic() + budget
    tries = 0
    axes = getattr(mod, "SHRINK", ["ops"])

    def test(p):
        nonlocal tries
        tries += 1
        return same(fork_run(mod, p, 60), cls)

    def get(p, ax):
        for k in ax.split("."):
            if isinstance(p, list) and k.isdigit():
                p = p[int(k)] if int(k) < len(p) else None
            else:
                p = p.get(k) if isinstance(p, dict) else None
            if p is None:
                return None
        return p

    def put(p, ax, v):
        q = json.loads(json.dumps(p))
        t = q
        ks = ax.split(".")
        ks = [int(k) if k.isdigit() else k for k in ks]
        for k in ks[:-1]:
            t = t[k]
        t[ks[-1]] = v
        return q
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for ax in axes:
            lst = get(plan, ax)
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and time.monotonic() < end:
                i = 0
                while i < len(lst) and time.monotonic() < end:
                    cand = lst[:i] + lst[i + n:]
                    q = put(plan, ax, cand)
                    if test(q):
                        plan, lst, changed = q, cand, True
                    else:
                        i += n
                n //= 2
        simp = getattr(mod, "simplify", None)
        if simp:
            for q in simp(json.loads(json.dumps(plan))):
                if time.monotonic() > end:
                    break
                q = json.loads(json.dumps(q))
                if q != plan and test(q):
                    plan, changed = q, True
                    break
    return plan, tries


def pin(mod, plan, res, cls):
    """Replace a drawn schedule by the switches that were executed."""
    if res.get("schedule") is not None:
        q = json.loads(json.dumps(plan))
        q["schedule"] = {"kind": "replay", "switches": res["schedule"]}
        if same(fork_run(mod, q), cls):
            return q
    return plan


def report_violation(mod, seed, tier, agg, a):
    bad = sorted(agg["bad"], key=lambda x: x["i"])
    plan = None
    for m in bad[:12]:
        orig = make_plan(mod, seed, tier, m["i"])
        first = fork_run(mod, orig)
        if same(first, m["cls"]):
            plan = pin(mod, orig, first, m["cls"])
            break
        print("note: run %d (%s) answered differently when repeated: %s" % (m["i"], m.get("cls"), first.get(
            "cls", first.get("harness", "ok"))[:200]))
    tries, attempts = 0, 1
    if plan is not None:
        small, tries = minimise(mod, plan, m["cls"], a.shrink)
        final = fork_run(mod, small)
        if not same(final, m["cls"]):
            small = orig
            final = fork_run(mod, small)
        plan = small
    else:
        # the code under test behaves differently under equal schedules, inputs and faults: report it, but say so
        for m in bad[:12]:
            plan = make_plan(mod, seed, tier, m["i"])
            for _ in range(20):
                final = fork_run(mod, plan)
                if not final["ok"] and not final.get("harness"):
                    break
            if not final["ok"] and not final.get("harness"):
                attempts = 60
                break
        else:
            print("harness: %d violations were seen, first %s in run %d, and none repeats" % (len(bad), bad[0]["cls"], bad[0]["i"]))
            return 2
    if not same(final, m["cls"]) and attempts == 1:
        attempts = 60
        final = first
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    path = os.path.join(HERE, "out", "%s-seed%d-run%d.json" % (mod.ID, seed, m["i"]))
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "class": final["cls"], "detail": final["detail"], "seed": seed,
                   "run": m["i"], "tier": tier, "minimiser_runs": tries, "attempts": attempts, "plan": plan}, f, indent=1)
    print("violation in run %d of seed %d: %s: %s" % (m["i"], seed, final["cls"], final["detail"]))
    if attempts > 1:
        print("note: the code under test is not deterministic under this seed; a replay makes up to %d attempts" % attempts)
    print("minimised with %d runs; plan: %s" % (tries, json.dumps(plan)[:1500]))
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    return 1


def evidence(mod, seed, tier, agg, wall, nv, samples):
    cov = {
        "evaluations": agg["runs"], "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": mod.RULE, "samples": samples,
        "runs_per_hour": round(agg["runs"] / max(agg["wall"], 1e-6) * 3600),
        "seeds_per_hour": round(agg["runs"] / max(agg["wall"], 1e-6) * 3600),
        "seed_note": "each run has its own stream derived from VERIF_SEED, the property id and the run index",
        "simulated_time": "the system has no clock; simulated time is counted in steps: %d" % agg["steps"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "distinct_shapes": len(agg["shapes"]), "shape_measure": mod.SHAPE,
        "determinism": {"runs_repeated": agg["rep"], "diverged": len(agg["repbad"])},
        "real_code": mod.REAL, "stubbed": mod.STUB,
        "known_findings_hit": agg["known"],
    }
    d = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": mod.ASSUME, "wall_s": round(wall, 2), "violations": nv}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=False)


def no_aslr():
    """Object addresses are a source of nondeterminism too (caches keyed by id): re-execute with a fixed layout where allowed."""
    if os.environ.get("VERIF_ASLR") == "off":
        return
    os.environ["VERIF_ASLR"] = "off"
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        old = libc.personality(0xFFFFFFFF)
        if old == -1 or old & 0x0040000 or libc.personality(old | 0x0040000) == -1:
            return
    except (OSError, AttributeError):
        return
    os.execv(sys.executable, [sys.executable, "-m", "sim.runner"] + sys.argv[1:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--run", type=int, help="execute one run index and print its events")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--replay")
    ap.add_argument("--shrink", type=float, default=25.0)
    ap.add_argument("--digests", action="store_true", help="print the event digest of every run (self-test)")
    a = ap.parse_args()
    t0 = time.monotonic()
    mod = prop_module(a.prop)
    try:
        mod.prepare()
    except Exception:
        traceback.print_exc()
        print("harness: the code under test could not be loaded")
        return 2
    if a.replay:
        d = json.load(open(a.replay))
        plan = d["plan"]
        plan["_trace"] = True
        for _ in range(d.get("attempts", 1)):
            res = fork_run(mod, plan)
            if not res["ok"]:
                break
        for e in res.get("events", []):
            print("  ", e)
        if res["ok"]:
            print("replay: no violation (recorded class %s)" % d["class"])
            return 0
        if res.get("harness"):
            print("harness:", res["harness"])
            return 2
        print("replayed: %s: %s" % (res["cls"], res["detail"]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, os.path.abspath(a.replay)))
        return 1
    if a.run is not None:
        plan = make_plan(mod, a.seed, a.tier, a.run)
        plan["_trace"] = True
        print(json.dumps(plan)[:6000])
        res = fork_run(mod, plan)
        for e in res.pop("events", []):
            print("  ", e)
        print(json.dumps(res, indent=1)[:4000])
        return 0
    total = a.runs or (mod.RUNS_THOROUGH if a.tier == "thorough" else mod.RUNS)
    if a.digests:
        for i in range(total):
            r = fork_run(mod, make_plan(mod, a.seed, a.tier, i))
            print(i, r.get("digest"), r.get("ok"), r.get("cls"), r.get("shape"))
        return 0
    budget = 780.0 if a.tier == "thorough" else 540.0
    for line in load_findings(mod.ID):
        print(line)
    agg = search(mod, a.seed, a.tier, total, max(1, a.workers), budget)
    nv = 0
    rc = 0
    if agg["bad"]:
        nv = len(agg["bad"])
        rc = report_violation(mod, a.seed, a.tier, agg, a)
    elif agg["harness"]:
        print("harness failure in run %s: %s" % (agg["harness"][0].get("i"), agg["harness"][0]["harness"]))
        rc = 2
    elif agg["runs"] < min(total, max(50, total // 10)):
        print("harness: only %d of %d runs finished in the time allowed" % (agg["runs"], total))
        rc = 2
    else:
        zero = [p for p in getattr(mod, "MUST_PROBE", []) if not agg["probes"].get(p) and not agg["faults"].get(p)]
        if zero and agg["runs"] >= 1000:
            print("note: probes never hit: %s" % ", ".join(zero))
    if agg["repbad"]:
        print("note: runs %s answered differently when repeated" % agg["repbad"][:5])
    samples = []
    for i in range(min(2, total)):
        p = make_plan(mod, a.seed, a.tier, i)
        samples.append(json.dumps(p)[:1500])
    evidence(mod, a.seed, a.tier, agg, time.monotonic() - t0, nv, samples)
    print("%s %s seed=%d: %d runs (%d distinct) in %.1fs, %d steps, faults %s, exit %d" % (
        mod.ID, a.tier, a.seed, agg["runs"], len(agg["nontrivial"]), time.monotonic() - t0, agg["steps"],
        json.dumps(dict(sorted(agg["faults"].items()))), rc))
    return rc


if __name__ == "__main__":
    no_aslr()
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)         # no interpreter shutdown: native extensions report their leaks there
