"""C02: evaluating and inspecting never changes anything."""
from .. import world as W
from .. import observers as O
from ..lib import load
from ..prng import Rng
from ..world import Violation

ID = "C02"
RUNS, RUNS_THOROUGH = 3000, 100000
RULE = ("a run is one circuit and one pool of arguments, on which a random sequence of evaluation, gradient, inversion, "
        "inspection and measurement calls is made with repetition; returned results are overwritten and parameters "
        "updated in between; after every call the circuit, every argument, the process-wide torch/numpy/python state "
        "and the answer are compared; non-trivial: two or more calls; distinct by the sequence of (call, gate kinds)")
SHAPE = "distinct sequences of (call, gate kinds, overwritten or not)"
REAL = ["deepquantum.gates.*", "deepquantum.layers.qlayers", "deepquantum.nn.modules.quanv", "deepquantum.embeddings"]
STUB = ["none: torch is real; reference answers from the numpy model"]
ASSUME = ["returned views documented as views of the caller's own tensor (MatrixProductState, an empty circuit's "
          "contraction, one-qubit MPS2StateVec) are not overwritten",
          "cir_params and info() hand out the live parameter tensors", "an MPS list handed to TN_evolution is consumed"]
SHRINK = ["ops", "gates", "ambient"]
SCALABLE = ["tn", "tnc", "tncb", "exp", "exp_tn", "exp_dense", "gradshift", "gradadj", "svmps", "mps2sv", "inner", "mpsexp",
            "measure", "expval"]
REFILL = ["tn", "tnc", "tncb", "exp", "exp_tn", "exp_dense", "gradshift", "svmps", "measure", "measure_rho", "expval",
          "expval_rho", "ptr", "ptr_old", "ptrace", "rhomps", "conv"]
MUST_PROBE = ["call:" + n for n in O.CIR + O.FREE] + ["overwritten", "refilled", "info"] + [
    "ambient:" + k for k in O.AMBIENT]


def prepare():
    load()
    from ..lib import load_quanv
    load_quanv()


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 4), (3, 5), (4, 4), (5, 1), (6, 0.5), (7, 0.2)])
    tn = rng.chance(0.6)
    pool = W.swarm_kinds(rng, N, W.TNKINDS if tn else W.ALL)
    allp = rng.chance(0.3)
    gates = [W.gen_gate(rng, N, pool, tn, forms=["param"] if allp else None)
             for _ in range(rng.weighted([(0, 0.3), (1, 2), (2, 3), (3, 3), (5, 2), (7, 1)]))]
    names = O.CIR + O.FREE
    if rng.chance(0.5):
        names = rng.sample(names, rng.randint(2, 6))
    args = []
    for _ in range(rng.randint(2, 6)):
        n = rng.choice(names)
        args.append([n, rng.below(10 ** 6), rng.choice(W.STATES + (["scaled"] * 3 if n in SCALABLE else []))])
    ops = []
    for _ in range(rng.randint(4, 14)):
        x = rng.random()
        if x < 0.1:
            ops.append(["refill", rng.below(len(args)), rng.below(10 ** 6)])
        elif x < 0.15:
            ops.append(["info", rng.below(8)])
        elif x < 0.87 or not any(g.get("p") for g in gates):
            ops.append(["call", rng.below(len(args)), rng.chance(0.4)])
        else:
            ops.append(["upd", rng.below(len(gates)), rng.below(10 ** 6)])
    return {"N": N, "gates": gates, "args": args, "ops": ops, "ambient": O.gen_ambient(rng)}


def may_overwrite(name, N, gates, raw):
    if name in ("tnc", "tncb"):
        return any(g["k"] in W.ONE + W.ONEP for g in gates)
    if name == "mps2sv":
        return N > 1
    if name in ("book", "pe"):
        return False
    return True


def overwrite(raw):
    t = load().torch
    n = 0
    for x in raw if isinstance(raw, list) else [raw]:
        if isinstance(x, t.Tensor):
            with t.no_grad():
                try:
                    x.detach().mul_(0).add_(7)
                    n += 1
                except RuntimeError:
                    pass       # an expanded or read-only result cannot be overwritten by the caller either
    return n


def refill(name, a, N, seed):
    """The caller puts new values into its own argument tensors; returns the argument set that now describes them."""
    t = load().torch
    b = O.prep(name, N, seed)
    for k, v in b.items():
        if isinstance(v, t.Tensor) and tuple(v.shape) != tuple(a[k].shape):
            return None
    with t.no_grad():
        for k, v in list(b.items()):
            if isinstance(v, t.Tensor):
                a[k].copy_(v)
                b[k] = a[k]
            elif isinstance(v, t.nn.Module):
                if v.stride != a[k].stride:
                    b["n_s"] = a["n_s"]
                a[k].weight.copy_(v.weight)
                b[k] = a[k]
    return b


def execute(plan, ctx):
    with O.ambient(plan.get("ambient", ())):
        session(plan, ctx)
    for k in plan.get("ambient", ()):
        ctx.probe("ambient:" + k)


def session(plan, ctx):
    N, gates = plan["N"], [dict(g) for g in plan["gates"]]
    cir = W.build_circuit(N, gates, "add")
    pool = []
    for name, seed, sk in plan["args"]:
        pool.append([name, O.prep(name, N, seed, sk), None])
    for e in pool:
        e[2] = O.args_frozen(e[1])
    cs = O.circuit_frozen(cir)
    gl = O.globals_state()
    last = {}
    for op in plan["ops"]:
        if op[0] == "upd":
            if op[1] >= len(gates) or not gates[op[1]].get("p"):
                continue
            g = gates[op[1]]
            r = Rng("c02p", op[2])
            p = W.next_params(g, r)
            form = "param" if g.get("f") == "param" else ("t0" if W.scalar_kind(g["k"]) else "t1")
            cir.gate[op[1]].params_update(W.make_params(p, form, W.scalar_kind(g["k"])))
            g["p"] = p
            cs = O.circuit_frozen(cir)
            gl = O.globals_state()
            last = {}
            ctx.ev("upd", op[1])
            continue
        if op[0] == "info":
            if op[1] < len(gates):
                inf = cir.gate[op[1]].info()
                for k in ("contral_lst", "target_lst"):
                    inf[k].append(0)
                    inf[k][0] = N + 3
                inf["label"] = "x"
                d = O.circuit_diff(cs, O.circuit_frozen(cir))
                if d:
                    raise Violation("aliased-circuit:info", "overwriting the qubit lists info() returned for %s changed "
                                    "the circuit: %s" % (gates[op[1]]["k"], d))
                O.check("Uexp", cir, N, gates, {}, " after the qubit lists of info() were overwritten")
                ctx.probe("info")
                ctx.ev("info", op[1])
            continue
        if op[1] >= len(pool):
            continue
        name, a, fz = pool[op[1]]
        if op[0] == "refill":
            b = refill(name, a, N, op[2]) if name in REFILL else None
            gl = O.globals_state()
            if b is not None:
                pool[op[1]] = [name, b, O.args_frozen(b)]
                last.pop(op[1], None)
                ctx.probe("refilled")
                ctx.shape.append(("refill", name))
                ctx.ev("refill", op[1], name)
            continue
        if not O.applicable(name, N, gates) or (name in ("agrad", "agradc") and "nograd" in plan.get("ambient", ())):
            continue
        where = " (call %d, circuit %s)" % (ctx.steps, [g["k"] for g in gates])
        raw, got = O.check(name, cir, N, gates, a, where)
        d = O.circuit_diff(cs, O.circuit_frozen(cir))
        if d:
            raise Violation("mutated-circuit:" + name, "%s changed the circuit%s: %s" % (name, where, d))
        for j, (n2, a2, f2) in enumerate(pool):
            bad = O.dict_diff(f2, O.args_frozen(a2))
            if bad:
                raise Violation("mutated-argument:" + name, "%s%s changed argument %s of %s" % (
                    name, where, bad, "its own" if j == op[1] else n2))
        bad = O.dict_diff(gl, O.globals_state())
        if bad:
            raise Violation("mutated-global:" + name, "%s%s changed the process-wide %s" % (name, where, ", ".join(bad)))
        if op[1] in last and O.diff(got, last[op[1]]) > 2e-5 * (W.size(a["n_M"]) if a.get("n_M") is not None else 1):
            raise Violation("unstable:" + name, "%s%s gave a different answer when repeated (difference %.3g)" % (
                name, where, O.diff(got, last[op[1]])))
        last[op[1]] = got
        ow = False
        if op[2] and may_overwrite(name, N, gates, raw):
            if overwrite(raw):
                ow = True
                ctx.fault("result_overwritten")
                for n2, a2, f2 in pool:
                    bad = O.dict_diff(f2, O.args_frozen(a2))
                    if bad:
                        raise Violation("aliased-argument:" + name, "overwriting the result of %s%s changed argument %s"
                                        " of %s" % (name, where, bad, n2))
                d = O.circuit_diff(cs, O.circuit_frozen(cir))
                if d:
                    raise Violation("aliased-circuit:" + name, "overwriting the result of %s%s changed the circuit: %s"
                                    % (name, where, d))
                ctx.probe("overwritten")
        ctx.probe("call:" + name)
        ctx.shape.append((name, ow))
        ctx.ev("call", name, op[1], ow)
    ctx.shape.append(tuple((g["k"], str(g["w"])) for g in gates))
