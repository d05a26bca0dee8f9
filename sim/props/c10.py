"""C10: parameter bookkeeping always matches the circuit."""
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import kernel as K
from ..lib import load
from ..prng import Rng
from ..world import Violation
from . import c01

ID = "C10"
RUNS, RUNS_THOROUGH = 5600, 200000
RULE = ("a run is a history of building, updating, sharing, copying, reloading, inverting, clearing, rejected and "
        "failing calls, gradients and training steps over up to three circuits, with parameter count, per-position "
        "parameters, gate information, support flag and gradient lengths checked after the last and most other steps; non-trivial: "
        "two or more operations; distinct by the sequence of operations, gate kinds, qubits and faults")
SHAPE = "distinct sequences of (operation, gate kind, qubits, fault)"
REAL = ["deepquantum.gates.qcircuit (Circuit, parameter_shift)", "deepquantum.gates.qoperator",
        "deepquantum.layers.qlayers"]
STUB = ["failing tensor operations and interrupts at torch's function dispatch and where CPython delivers signals"]
ASSUME = ["the gate list is changed through add, the builders and clear only",
          "updates have the right number of parameters",
          "keyboard interrupts arrive where CPython delivers signals"]
MUT_KINDS = ["oom", "memoryerror", "opfail_post", "interrupt_op", "interrupt_py"]
SHRINK = ["ops"]
MUST_PROBE = ["flag:true", "flag:false", "gradlen", "refill", "fault:add", "fault:upd", "fault:clear", "rejected",
              "flag:exercised"]


def prepare():
    load()


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 3), (3, 5), (4, 3), (5, 0.7), (8, 0.15), (11, 0.15)])
    tn = rng.chance(0.5)
    kinds = W.swarm_kinds(rng, N, W.TNKINDS if tn else W.ALL)
    ops = [["new", 0, N]]
    g = {0: []}
    sz = {0: N}
    n = rng.randint(4, 16)

    def flt(kinds=K.FAULT_KINDS):
        return [rng.choice(kinds), rng.random()] if rng.chance(0.2) else None
    while len(ops) < n:
        o = rng.weighted([("add", 6), ("upd", 4), ("clear", 0.7), ("copy", 0.7), ("dag", 0.5), ("bad", 1.2),
                          ("share", 0.8), ("new", 0.5), ("grad", 1.6), ("train", 0.5), ("eval", 0.8), ("flag", 1),
                          ("refill", 1)])
        c = rng.choice(sorted(g))
        if o == "add" and len(g[c]) < 10:
            gt = W.gen_gate(rng, sz[c], W.fit_kinds(kinds, sz[c]), tn and rng.chance(0.9))
            ops.append(["add", c, gt, rng.choice(["builder", "add"]), flt()])
            g[c].append(gt["k"])
        elif o == "upd":
            ps = [j for j, k in enumerate(g[c]) if k in W.PKINDS]
            if ps:
                j = rng.choice(ps)
                ops.append(["upd", c, j, rng.below(10 ** 6), W.update_form(rng, g[c][j]), flt(MUT_KINDS)])
        elif o == "clear":
            ops.append(["clear", c, ["interrupt_py", rng.random() * 0.15] if rng.chance(0.3) else None])
            g[c] = []
        elif o == "refill":
            gs = [W.gen_gate(rng, sz[c], W.fit_kinds(kinds if rng.chance(0.5) else W.ALL, sz[c]))
                  for _ in range(len(g[c]) if rng.chance(0.7) else rng.randint(0, 4))]
            if rng.chance(0.15):         # a long circuit
                small = W.fit_kinds(["Hadamard", "rx", "cnot", "rzz", "u1", "cz", "PauliY"], sz[c])
                odd = W.fit_kinds(kinds + W.NOTN, sz[c])
                gs += [W.gen_gate(rng, sz[c], small if rng.chance(0.95) else odd) for _ in range(rng.randint(10, 70))]
            ops.append(["refill", c, gs, rng.choice(["builder", "add"])])
            g[c] = [x["k"] for x in gs]
        elif o == "copy" and len(g) < 3:
            ops.append(["copy", c, len(g), rng.choice(["deepcopy", "pickle", "save"])])
            sz[len(g)] = sz[c]
            g[len(g)] = list(g[c])
        elif o == "dag" and len(g) < 3:
            ops.append(["dag", c, len(g)])
            sz[len(g)] = sz[c]
            g[len(g)] = list(reversed(g[c]))
        elif o == "bad":
            ops.append(["bad", c, rng.below(1000)])
        elif o == "share" and len(g) > 1 and g[c]:
            c2 = rng.choice([x for x in sorted(g) if x != c])
            j = rng.below(len(g[c]))
            if sz[c] == sz[c2]:
                ops.append(["share", c, j, c2])
                g[c2].append(g[c][j])
        elif o == "new" and len(g) < 3:
            sz[len(g)] = N if rng.chance(0.6) else rng.randint(1, 4)
            ops.append(["new", len(g), sz[len(g)]])
            g[len(g)] = []
        elif o == "grad":
            ops.append(["grad", c, rng.choice(["shift", "adj"]), rng.below(10 ** 6), flt()])
        elif o == "train":
            ops.append(["train", c, rng.below(10 ** 6)])
        elif o == "eval":
            ops.append(["eval", c, rng.choice(c01.ROUTES), rng.below(10 ** 6), rng.choice(W.STATES)])
        elif o == "flag":
            ops.append(["flag", c])
    return {"N": N, "ops": ops}


def pvals(v):
    if v is None:
        return None
    if isinstance(v, (list, tuple)):
        return np.array([float(x) for x in v])
    return W.npy(v).reshape(-1) if hasattr(v, "detach") else np.array([float(v)])


def audit(wd, ctx, what):
    """The invariant, checked on every circuit after every step."""
    for c in sorted(wd.c):
        cir, N, gs = wd.c[c]
        tag = "circuit %d after %s (operation %d)" % (c, what, ctx.steps)
        kinds = [g["k"] for g in gs]
        if len(cir.gate) != len(gs):
            raise Violation("gates", "%s has %d gates instead of %s" % (tag, len(cir.gate), kinds))
        n = sum(R.nparams(g) for g in gs)
        if cir.cir_num_params != n:
            raise Violation("count", "%s reports %s parameters instead of %d for %s" % (
                tag, cir.cir_num_params, n, kinds))
        cp = cir.cir_params
        if sorted(cp) != list(range(len(gs))):
            raise Violation("positions", "%s reports parameters at positions %s for %d gates" % (
                tag, sorted(cp), len(gs)))
        for j, g in enumerate(gs):
            inf = cir.gate[j].info()
            ws = list(g["w"]) if isinstance(g["w"], (list, tuple)) else [g["w"]]
            c, tg = [int(q) for q in inf["contral_lst"]], [int(q) for q in inf["target_lst"]]
            nc = {"cnot": 1, "cz": 1, "cphase": 1, "cu3": 1, "toffoli": 2, "multi_control_cnot": len(ws) - 1}.get(g["k"])
            if set(c + tg) != set(ws) or (nc and (sorted(c) != sorted(ws[:nc]) or tg != ws[nc:])):
                raise Violation("info", "%s: info() of %s on %s at position %d names controls %s and targets %s" % (
                    tag, g["k"], ws, j, c, tg))
            v = pvals(cp[j])
            if g.get("p") is None:
                if v is not None:
                    raise Violation("values", "%s reports parameters %s for %s" % (tag, v, g["k"]))
                np_ = cir.gate[j].num_params
                if np_ != 0:
                    raise Violation("values", "%s: %s has num_params %s" % (tag, g["k"], np_))
                continue
            if v is None or not W.maxerr(v, np.array(g["p"])) <= 3e-6:
                raise Violation("values", "%s reports parameters %s at position %d (%s) instead of %s" % (
                    tag, v, j, g["k"], g["p"]))
            if cir.gate[j].num_params != len(g["p"]):
                raise Violation("values", "%s: %s at position %d has num_params %s" % (
                    tag, g["k"], j, cir.gate[j].num_params))
            iv = pvals(cir.gate[j].info()["params"])
            if iv is None or not W.maxerr(iv, np.array(g["p"])) <= 3e-6:
                raise Violation("info", "%s: info() of %s at position %d gives parameters %s instead of %s" % (
                    tag, g["k"], j, iv, g["p"]))
        t = W.all_tn(gs, N)
        if bool(cir.TN_check()) != t:
            raise Violation("flag", "%s reports tensor-network support %s for %s" % (
                tag, cir.TN_check(), [(g["k"], g["w"]) for g in gs]))
        ctx.probe("flag:" + str(t).lower())


def exercise(cir, N, gs, ctx):
    """The flag against what really happens: evolve and contract every gate."""
    L = load()
    psi = W.make_state(N, "random", len(gs))
    ok = True
    for g, o in zip(gs, cir.gate):
        want = R.run(N, [g], psi)
        for how in ("mps", "contract", "batch"):
            try:
                if how == "mps":
                    v = W.npy(L.tn.MPS2StateVec(o.TN_operation(L.tn.StateVec2MPS(W.T(psi).view(1, -1), N))))
                elif how == "contract":
                    v = W.npy(o.TN_contract(W.T(psi).view([2] * N)))
                else:
                    v = W.npy(o.TN_contract(W.T(np.stack([psi, psi])).view([2] * (N + 1)), batch_mod=True))[1]
                good = W.maxerr(v.reshape(-1), want) <= W.mps_tol(1, N)
            except Exception:
                good = False
            if not good:
                ok = False
                if o.supportTN:
                    raise Violation("flag", "%s on %s claims tensor-network support but its %s route fails or is wrong"
                                    % (g["k"], g["w"], how))
    if ok != bool(cir.TN_check()):
        raise Violation("flag", "tensor-network support is reported %s, but every gate of %s %s" % (
            cir.TN_check(), [(g["k"], g["w"]) for g in gs], "works" if ok else "does not work"))
    ctx.probe("flag:exercised")


def region(f, lo=0.0):
    top = 2.6 if f[0] == "interrupt_py" else 1.6
    return K.Region([{"kind": f[0], "at": int(10 ** (f[1] * top)) - 1 if f[0] != "linalg" else int(f[1] * 4)}])


def faulted(f, fn, ctx, what):
    """Run fn under a fault; True if it completed."""
    reg = region(f)
    try:
        reg.call(fn)
        return True
    except BaseException:
        if not reg.fired:
            raise
    ctx.fault(f[0])
    ctx.probe("fault:" + what)
    return False


def execute(plan, ctx):
    L = load()
    wd = c01.World()
    for j, op in enumerate(plan["ops"]):
        k = op[0]
        f = op[-1] if k in ("add", "upd", "clear", "grad") else None
        if k != "new" and not wd.has(op[1]):
            continue
        if k in ("new", "copy", "dag", "share", "bad", "eval"):
            c01.step(wd, op, ctx)
            if k == "bad":
                ctx.probe("rejected")
        elif k in ("add", "upd", "clear") and f is None:
            c01.step(wd, op[:-1], ctx)
        elif k == "add":
            cir, N, gs = wd.c[op[1]]
            g = dict(op[2])
            faulted(f, lambda: W.add_gate(cir, N, g, op[3]), ctx, "add")
            if len(cir.gate) == len(gs) + 1:
                gs.append(g)
            ctx.shape.append(("add", op[1], g["k"], str(g["w"]), f[0]))
            ctx.ev("add-faulted", len(gs))
        elif k == "upd":
            cir, N, gs = wd.c[op[1]]
            if op[2] >= len(gs) or gs[op[2]].get("p") is None:
                continue
            g = gs[op[2]]
            form = op[4]
            if W.scalar_kind(g["k"]) and form in ("list", "t1"):
                form = "t0"
            if form == "list" and g["k"] not in ("u3", "cu3"):
                form = "t1"
            p = W.next_params(g, Rng("p", op[3], g["k"]))
            par = W.make_params(p, form, W.scalar_kind(g["k"]))
            o = cir.gate[op[2]]
            faulted(f, lambda: o.params_update(par), ctx, "upd")
            now = pvals(o.params)
            if W.maxerr(now, np.array(p)) <= 3e-6 and p != g["p"]:
                g["p"], g["f"] = p, form
            # the operation performed must be the one the reported parameters describe
            e = W.maxerr(W.npy(o.U_expand()), R.gate_u(N, g))
            if W.tn_supported(g, N):
                psi = W.make_state(N, "random", op[3])
                e = max(e, W.maxerr(W.npy(o.TN_contract(W.T(psi).view([2] * N))).reshape(-1), R.run(N, [g], psi)))
            if not e <= 3e-5:
                raise Violation("mismatch", "after a failed update of %s its parameters and its operation disagree "
                                "by %.3g" % (g["k"], e))
            ctx.shape.append(("upd", op[1], op[2], f[0]))
            ctx.ev("upd-faulted", op[2])
        elif k == "clear":
            cir, N, gs = wd.c[op[1]]
            faulted(f, cir.clear, ctx, "clear")
            if len(cir.gate) == 0:
                wd.c[op[1]][2] = []
            ctx.shape.append(("clear", op[1], f[0]))
            ctx.ev("clear-faulted", len(cir.gate))
        elif k == "refill":      # emptied and filled again before anybody looks
            cir, N, gs = wd.c[op[1]]
            cir.clear()
            wd.c[op[1]][2] = [dict(x) for x in op[2]]
            for x in op[2]:
                W.add_gate(cir, N, x, op[3])
            ctx.probe("refill")
            ctx.shape.append((k, op[1], tuple((x["k"], str(x["w"])) for x in op[2])))
            ctx.ev(k, len(op[2]))
        elif k in ("grad", "train"):
            cir, N, gs = wd.c[op[1]]
            np_ = sum(R.nparams(g) for g in gs)
            how = op[2] if k == "grad" else "shift"
            if np_ * len(gs) > 60 or N > 4 or not gs:
                continue
            if how == "adj" and not (W.all_tn(gs, N) and all(g["k"] in W.INVERTIBLE for g in gs)):
                continue
            seed = op[3] if k == "grad" else op[2]
            psi = W.T(W.make_state(N, "random", seed)).view(1, -1)

            def run():
                if how == "adj":
                    s = L.parameter_shift(cir, psi, None)
                    return s.cal_params_grad2(s.save_mid_MPS(L.dq.PauliZ(N, seed % N))[0])
                return L.parameter_shift(cir, psi, W.T(W.herm(N, "rand", seed))).cal_params_grad()
            if f is not None:
                faulted(f, run, ctx, "grad")
                audit(wd, ctx, "a failed gradient")
            try:
                v = W.npy(run()).reshape(-1)
            except Exception as e:
                raise Violation("error:grad", "%s gradient of %s failed: %s: %s" % (
                    how, [g["k"] for g in gs], type(e).__name__, str(e)[:200]))
            if len(v) != np_:
                raise Violation("gradlen", "%s gradient of %s has %d entries for %d parameters" % (
                    how, [g["k"] for g in gs], len(v), np_))
            ctx.probe("gradlen")
            if k == "train":
                i = 0
                done = {}
                for j, g in enumerate(gs):
                    if g.get("p") is None:
                        continue
                    n = len(g["p"])
                    if id(g) not in done:
                        done[id(g)] = True
                        p = [W.f32(a - 0.1 * float(b)) for a, b in zip(g["p"], v[i:i + n])]
                        cir.gate[j].params_update(W.make_params(p, "t1", W.scalar_kind(g["k"])))
                        g["p"] = p
                    i += n
            ctx.shape.append((k, op[1], how))
            ctx.ev(k, how, len(v))
        elif k == "flag":
            cir, N, gs = wd.c[op[1]]
            exercise(cir, N, gs, ctx)
            ctx.shape.append(("flag", op[1]))
            ctx.ev("flag", bool(cir.TN_check()))
        # most steps are audited, but looking must not be what keeps the books right
        if j == len(plan["ops"]) - 1 or Rng("audit", str(op)).chance(0.75):
            audit(wd, ctx, k)
