"""C03: concurrent callers get the same answers as callers running alone."""
from .. import world as W
from .. import observers as O
from .. import kernel as K
from ..lib import REPO, load, load_quanv
from ..prng import Rng
from ..world import Violation
from . import c01

ID = "C03"
RUNS, RUNS_THOROUGH = 3400, 60000
RULE = ("a run is 2-4 threads of library calls under one seeded schedule; shared circuits, gates, arguments and modules "
        "are only read, private circuits are built, updated and differentiated; preemption before every tensor "
        "operation, at every source line of the repository and (in a fraction of runs) at every bytecode; non-trivial: "
        "at least two switches between live threads; distinct by the hash of the executed interleaving (task, site)")
SHAPE = "distinct interleavings: hash over the sequence of (task, preemption site)"
REAL = ["deepquantum.gates.*", "deepquantum.layers.qlayers", "deepquantum.nn.modules.quanv", "real CPython threads"]
STUB = ["thread scheduling (seeded baton)", "locks created by the repository (simulated, deadlock-detecting)"]
ASSUME = ["one thread runs at a time: effects needing two threads inside one torch kernel are out of reach",
          "torch's intra-op threads are set to one"]
SHRINK = ["tasks.0", "tasks.1", "tasks.2", "tasks.3", "tasks.0.0.1", "tasks.1.0.1", "tasks.2.0.1", "tasks.0.1.1",
          "tasks.1.1.1", "schedule.switches", "gates"]
MUST_PROBE = ["policy:random", "policy:hot", "policy:write", "policy:pct", "policy:stall"]


def prepare():
    load()
    K.scan_writes(REPO)
    load_quanv()


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 5), (3, 4), (4, 1.5), (5, 0.3), (6, 0.2), (7, 0.05)])
    tn = rng.chance(0.65)
    pool = W.swarm_kinds(rng, N, W.TNKINDS if tn else W.ALL)
    allp = rng.chance(0.25)
    gates = [W.gen_gate(rng, N, pool, tn, forms=["param"] if allp else None) for _ in range(rng.randint(1, 4))]
    if rng.chance(0.5) and not any(g.get("p") for g in gates):
        gates.append(W.gen_gate(rng, N, W.any_kinds(N, ["rx", "u3", "XYZLayer", "cphase", "rzz"]), tn))
    names = [n for n in O.CIR + O.FREE if n != "conv" or rng.chance(0.3)]
    if rng.chance(0.6):
        names = rng.sample(names, rng.randint(1, 4))
    args = [[rng.choice(names), rng.below(10 ** 6), rng.choice(W.STATES)] for _ in range(rng.randint(1, 4))]
    nt = rng.weighted([(2, 5), (3, 3), (4, 1)])
    style = rng.weighted([("mixed", 4), ("shared", 3), ("private", 2), ("same", 2), ("twin", 6)])
    if style == "twin":     # every thread is inside the same function, on data of the same shape and different content
        twin = rng.weighted([(n, {"tn": 3, "exp_tn": 2, "gradadj": 2, "tnc": 1.5, "tncb": 1.5, "gradshift": 1.5}.get(n, 0.5))
                             for n in O.CIR + O.FREE if n != "conv" or rng.chance(0.3)])
        if N >= 2 and rng.chance(0.7):
            gates = gates[:rng.below(3)]
            gates.insert(rng.below(len(gates) + 1), W.gen_gate(rng, N, W.any_kinds(N, W.TWO + W.TWOP + ["cu3", "ring_of_cnot"]), True,
                                                              forms=["param"] if allp else None))
    sized = style == "twin" and rng.chance(0.3)     # ... and on circuits of different sizes with the same kinds of gates
    if sized:
        twin = rng.weighted([("tnc", 3), ("tn", 3), ("U", 2), ("tncb", 1.5), ("exp_tn", 1), ("gradshift", 0.5), (twin, 2)])
    kinds = [g["k"] for g in gates]
    tasks = []
    if rng.chance(0.2):     # cold: the first use of everything in this process happens in the threads, all doing the same
        style = "cold"
        gates = gates[:rng.randint(1, 2)]
        names = [n for n in O.CIR + O.FREE if n != "conv" or rng.chance(0.3)]
        args = [[rng.choice(names), rng.below(10 ** 6), rng.choice(W.STATES)] for _ in range(2)]
    for _ in range(nt):
        ops = []
        if style == "cold":
            tasks.append([["cold", k, rng.chance(0.8)] for k in range(rng.randint(1, 2))])
            continue
        for _ in range(rng.randint(1, 3)):
            if style == "twin" and sized:
                n2 = min(4, max(max(W.NEED.get(k, 1) for k in kinds), N + rng.choice([-1, 0, 1, 1])))
                g2 = [g for g in gates if max(g["w"] if isinstance(g["w"], list) else [g["w"]]) < n2 and rng.chance(0.9)]
                g2 += [W.gen_gate(rng, n2, [rng.choice(kinds)], tn) for _ in range(rng.choice([0, 0, 1]) if g2 else 1)]
                ops.append(["sized", twin, rng.below(10 ** 6), n2, g2])
            elif style == "twin":
                ops.append(["own", twin, rng.below(10 ** 6)])
            elif style == "same":
                ops.append(["obs", 0])
            elif rng.chance(0.12):
                ops.append(rng.choice([["bad", rng.below(6), rng.below(10 ** 6)],
                                       ["fault", rng.below(len(args)), rng.choice(["oom", "opfail_post", "linalg",
                                                                                   "interrupt_op"]), rng.random()]]))
            elif style == "shared" or (style == "mixed" and rng.chance(0.5)):
                if rng.chance(0.7):
                    ops.append(["obs", rng.below(len(args))])
                else:
                    ops.append(["own", rng.choice(names), rng.below(10 ** 6)])
            elif rng.chance(0.7):
                p = c01.gen(Rng("c03prog", rng.u32()), "quick", 0)
                n2 = p["N"]
                if n2 > 4:
                    p = c01.gen(Rng("c03prog2", rng.u32()), "quick", 0)
                ops.append(["prog", [o for o in p["ops"] if o[0] not in ("bad",)][:7] if p["N"] <= 4 else []])
            elif rng.chance(0.5):
                ops.append(["adopt", rng.below(len(gates)), rng.below(10 ** 6), rng.choice(["U", "exp", "gradshift"])])
            else:
                ops.append(["train", rng.below(10 ** 6)])
        tasks.append(ops)
    pol = rng.weighted([("random", 4), ("hot", 4), ("pct", 3), ("stall", 2), ("write", 5),
                        ("serial", 0.2)])
    if sized and style == "twin" and rng.chance(0.4):
        pol = "write"
    spec = {"kind": pol}
    if pol == "random":
        spec["p"] = rng.choice([0.5, 0.2, 0.05, 0.01])
    if pol == "hot":
        spec["frac"], spec["p"] = rng.choice([0.02, 0.08, 0.25]), rng.choice([0.3, 0.7, 1.0])
    if pol == "write":
        spec["frac"], spec["gap"] = rng.choice([0.4, 1.0]), rng.choice([0.3, 0.7, 1.4])
        spec["shared"], spec["p"] = rng.chance(0.7), rng.choice([0.0, 0.003, 0.02])
        spec["stay"], spec["before"] = rng.choice([1.5, 3.0, 4.0]), rng.chance(0.25)
    if pol == "pct":
        spec["depth"] = rng.randint(1, 5)
    spec["h"] = int(10 ** rng.uniform(1.7, 3.8))
    spec["s"] = rng.u32()
    return {"N": N, "gates": gates, "args": args, "tasks": tasks, "schedule": spec,
            "instr": rng.chance(0.12), "cold": style == "cold"}


def one(op, N, gates, cir, pool, args, ctx):
    L = load()
    if op[0] == "cold":
        if op[1] < len(args):
            name, seed, sk = args[op[1]]
            if O.applicable(name, N, gates):
                O.check(name, W.build_circuit(N, gates, "add" if op[2] else "builder"), N, gates, O.prep(name, N, seed, sk),
                        " first used in a thread")
        return
    if op[0] == "obs":
        if op[1] < len(pool) and O.applicable(pool[op[1]][0], N, gates):
            O.check(pool[op[1]][0], cir, N, gates, pool[op[1]][1], " in a thread")
    elif op[0] == "fault":       # this thread's call runs out of memory or is interrupted; nobody else's may notice
        if op[1] < len(pool) and O.applicable(pool[op[1]][0], N, gates):
            reg = K.Region([{"kind": op[2], "at": int(10 ** (op[3] * 2.3)) if op[2] != "linalg" else int(op[3] * 4)}])
            try:
                reg.call(O.call, pool[op[1]][0], cir, N, pool[op[1]][1])
            except (K.Deadlock, K.Abort):
                raise
            except BaseException:
                if not reg.fired:
                    raise
            if reg.fired:
                ctx.fault(reg.fired[0][0])
    elif op[0] == "bad":
        bad(op, N, L, ctx)
    elif op[0] == "own":
        if O.applicable(op[1], N, gates):
            O.check(op[1], cir, N, gates, O.prep(op[1], N, op[2]), " in a thread")
    elif op[0] == "sized":
        if O.applicable(op[1], op[3], op[4]):
            O.check(op[1], W.build_circuit(op[3], op[4], "add"), op[3], op[4], O.prep(op[1], op[3], op[2]),
                    " on a circuit of this thread's own")
    elif op[0] == "prog":
        class Quiet:
            steps = 0
            shape = []

            def ev(self, *a):
                self.steps += 1

            def probe(self, *a):
                pass
            fault = probe
        wd, q = c01.World(), Quiet()
        for o in op[1]:
            c01.step(wd, o, q)
    elif op[0] == "adopt":
        if op[1] < len(gates):
            c2 = L.Circuit(N)
            c2.Hadamard(list(range(N)))
            c2.add(cir.gate[op[1]])
            g2 = [{"k": "HLayer", "w": list(range(N))}, gates[op[1]]]
            if O.applicable(op[3], N, g2):
                O.check(op[3], c2, N, g2, O.prep(op[3], N, op[2]), " of a private circuit holding a shared gate")
    elif op[0] == "train":
        r = Rng("c03train", op[1])
        g = [{"k": "ry", "w": 0, "p": [W.gen_angle(r)], "f": "t0"},
             {"k": "XZLayer", "w": list(range(N)), "p": [W.gen_angle(r) for _ in range(2 * N)], "f": "t1"}]
        c2 = W.build_circuit(N, g)
        a = O.prep("gradshift", N, op[1])
        for _ in range(2):
            raw, got = O.check("gradshift", c2, N, g, a, " in a private training loop")
            k = 0
            for j, gg in enumerate(g):
                p = [float(x) for x in [W.f32(v - 0.3 * float(d)) for v, d in zip(gg["p"], got[k:k + len(gg["p"])])]]
                k += len(p)
                gg["p"] = p
                c2.gate[j].params_update(W.make_params(p, "t0" if len(p) == 1 and gg["k"] == "ry" else "t1",
                                                       gg["k"] == "ry"))


def bad(op, N, L, ctx):
    """A call that must be rejected, made while others are working."""
    t = L.torch
    c = L.Circuit(N)
    c.Hadamard(list(range(N)))
    fs = [lambda: (c.add(L.dq.rx(0.5, N, N)), c.U()), lambda: c.cir_expectation(t.zeros(1, 3) + 0j, t.eye(2 ** N) + 0j),
          lambda: L.qmath.partial_trace(t.eye(2 ** N) + 0j, N, [0]) if N > 0 else None,
          lambda: c.TN_evolution([t.zeros(2, 1, 1) + 0j] * (N + 1)),
          lambda: (c.add(L.dq.cnot(N, [0, 0])), c.U()),
          lambda: L.parameter_shift(c, t.zeros(1, 2 ** (N + 1)) + 0j, t.eye(2 ** N) + 0j).save_mid_MPS(
              L.dq.PauliZ(N, 0))]
    try:
        fs[op[1]]()
    except (K.Deadlock, K.Abort):
        raise
    except Exception:
        ctx.fault("rejected_call")
        return
    raise Violation("accepted", "malformed call %d was accepted in a thread" % op[1])


def execute(plan, ctx):
    N, gates = plan["N"], plan["gates"]
    cold = plan.get("cold")
    cir = None if cold else W.build_circuit(N, gates, "add")
    pool = [] if cold else [[n, O.prep(n, N, s, sk)] for n, s, sk in plan["args"]]
    ctx.probe("cold" if cold else "warm")
    fz = [O.args_frozen(a) for _, a in pool]
    cs = None if cold else O.circuit_frozen(cir)
    spec = plan["schedule"]
    tasks = [t for t in plan["tasks"]]
    if not tasks:
        return
    errs = {}

    def body(ti, ops):
        def f():
            for op in ops:
                one(op, N, gates, cir, pool, plan["args"], ctx)
        return f
    rng = Rng("sched", spec.get("s", 0))
    pol = K.make_policy(spec, rng, len(tasks), spec.get("h", 1000))
    s = K.Scheduler([body(i, t) for i, t in enumerate(tasks)], pol, instr=plan["instr"])
    s.run()
    ctx.schedule = s.switches
    ctx.probe("policy:" + spec["kind"])
    live = len(s.switches)
    ctx.fault("context_switch", live)
    ctx.steps += s.step
    ctx.ev("trace", s.trace, "steps", s.step, "switches", live)
    ctx.shape.append(s.trace)
    if s.aborting is not None:
        raise Violation("no-progress" if isinstance(s.aborting, K.Abort) else "deadlock", "%s after %d steps" % (
            s.aborting, s.step))
    for t in s.tasks:
        if t.error is not None:
            if isinstance(t.error, Violation):
                raise Violation(t.error.cls, "thread %d: %s" % (t.tid, t.error.detail))
            raise t.error
    for (n, a), f in zip(pool, fz):
        bad = O.dict_diff(f, O.args_frozen(a))
        if bad:
            raise Violation("mutated-argument:" + n, "shared argument %s of %s changed" % (bad, n))
    d = None if cold else O.circuit_diff(cs, O.circuit_frozen(cir))
    if d:
        raise Violation("mutated-circuit", "the shared circuit changed: %s" % d)
    if live >= 3:
        ctx.ev("interleaved")
