"""C07: running a circuit's inverse restores the state, on every route and at the current parameters."""
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import kernel as K
from ..lib import load
from ..prng import Rng
from ..world import Violation

ID = "C07"
RUNS, RUNS_THOROUGH = 5000, 200000
RULE = ("a run holds one state in several representations at once (dense vector, matrix-product form, contracted "
        "tensor, batch) and a pool of gates and layers; it applies, updates, inverts (early or at undo time), undoes "
        "the last k operations, conjugates one operation by another and inverts whole circuits, with failing calls "
        "retried; after every undo each representation must be back at its saved value; non-trivial: two or more "
        "operations; distinct by the sequence of operations, gate kinds, qubits and routes")
SHAPE = "distinct sequences of (operation, gate kind, qubits, routes)"
REAL = ["operation_dagger, U_expand, TN_operation and TN_contract of every invertible gate and layer",
        "deepquantum.gates.qcircuit (U, TN_evolution, TN_contract_evolution)"]
STUB = ["failing tensor operations and interrupts at torch's function dispatch",
        "singular value decompositions may be answered by other valid ones"]
ASSUME = ["gates whose operation_dagger returns nothing (ring_of_cnot2, BasicEntangleLayer) offer no inverse",
          "float32 tolerances grow with the number of operations"]
SHRINK = ["ops"]
ROUTES = ["dense", "mps", "contract", "batch"]
MUST_PROBE = ["undo", "late-inverse", "early-inverse", "twice", "sandwich", "circuit-inverse", "updated"]


def prepare():
    load()


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 3), (3, 5), (4, 4), (5, 2), (6, 0.8), (8, 0.2), (10, 0.15), (11, 0.1)])
    wide = N > 6          # no dense matrices
    tn = rng.chance(0.75) or wide
    pool = [k for k in (W.TNKINDS if tn else W.ALL)]
    kinds = W.swarm_kinds(rng, N, pool)
    ik = [k for k in kinds if k in W.INVERTIBLE] or ["Hadamard", "rx"]
    routes = ["dense"] if not tn else rng.sample(ROUTES, rng.randint(1, 4))
    if wide:
        routes = [r for r in routes if r != "dense"] or ["contract"]
    gates = [W.gen_gate(rng, N, ik, tn) for _ in range(rng.randint(2, 6))]
    ops = []
    n = rng.randint(4, 18 if N <= 4 else 10)
    depth = 0
    while len(ops) < n:
        o = rng.weighted([("do", 6), ("undo", 2.5), ("upd", 2), ("twice", 1), ("sand", 1), ("cir", 0.8),
                          ("noinv", 0.2), ("free", 0.7)])
        j = rng.below(len(gates))
        f = [rng.choice(K.FAULT_KINDS), rng.random()] if rng.chance(0.12) else None
        if wide and o in ("twice", "free", "noinv"):
            o = "do"
        if o == "do":
            ops.append(["do", j, rng.choice(["early", "late", "late"]), f])
            depth += 1
        elif o == "undo" and depth:
            k = rng.randint(1, depth)
            ops.append(["undo", k, f])
            depth -= k
        elif o == "upd" and gates[j].get("p"):
            ops.append(["upd", j, rng.below(10 ** 6), W.update_form(rng, gates[j]["k"])])
        elif o == "twice":
            ops.append(["twice", j])
        elif o == "sand":
            ops.append(["sand", j, rng.below(len(gates))])
        elif o == "cir":
            ops.append(["cir", [rng.below(len(gates)) for _ in range(rng.randint(1, 4))], rng.choice(["batch", "one"])])
        elif o == "free":
            ops.append(["free", j, rng.below(10 ** 6)])
        elif o == "noinv":
            ops.append(["noinv", rng.choice(["ring_of_cnot2", "BasicEntangleLayer"])])
    ops.append(["undo", 99, None])
    return {"N": N, "routes": routes, "gates": gates, "ops": ops, "state": rng.choice(W.STATES),
            "seed": rng.below(10 ** 6), "gauge": [k for k in ("phase", "rotate") if rng.chance(0.3)]}


class Held:
    """One state in every representation this run uses."""

    def __init__(self, N, routes, psi, region):
        L = load()
        self.N, self.routes, self.region = N, routes, region
        self.x = {}
        if "dense" in routes:
            self.x["dense"] = W.T(psi).view(-1, 1)
        if "mps" in routes:
            self.x["mps"] = L.tn.StateVec2MPS(W.T(psi).view(1, -1), N)
        if "contract" in routes:
            self.x["contract"] = L.tn.MatrixProductState(W.T(psi).view(1, -1), N)
        if "batch" in routes:
            self.x["batch"] = W.T(np.stack([W.make_state(N, "random", 77), psi])).view([2] * (N + 1))

    def apply(self, g, fault=None, ctx=None):
        """Apply an operation everywhere; a failed call is repeated."""
        for r in self.routes:
            if fault is not None and r != "mps":
                reg = K.Region([{"kind": fault[0], "at": int(10 ** (fault[1] * (2.2 if fault[0] == "interrupt_py"
                                                                            else 1.3)))}])
                try:
                    reg.call(self.one, g, r)
                except BaseException:
                    if not reg.fired:
                        raise
                if reg.fired:
                    ctx.fault(reg.fired[0][0])
            self.x[r] = self.region().call(self.one, g, r) if r == "mps" else self.one(g, r)

    def one(self, g, r):
        x = self.x[r]
        if r == "dense":
            return g.U_expand() @ x
        if r == "mps":
            return g.TN_operation(list(x))
        if r == "contract":
            return g.TN_contract(x)
        return g.TN_contract(x, batch_mod=True)

    def values(self):
        L = load()
        out = {}
        for r in self.routes:
            if r == "mps":
                out[r] = W.npy(L.tn.MPS2StateVec(self.x[r])).reshape(-1)
            elif r == "batch":
                b = W.npy(self.x[r]).reshape(2, -1)
                out[r] = b[1]
                out["batch-0"] = b[0]
            else:
                out[r] = W.npy(self.x[r]).reshape(-1)
        return out


def execute(plan, ctx):
    L = load()
    N = plan["N"]
    gates = [dict(g) for g in plan["gates"]]
    obj = [W.build_gate(N, g) for g in gates]
    stats = {}
    gauge = K.make_gauge(Rng("g07", plan["seed"]), plan["gauge"], stats) if plan["gauge"] else None
    held = Held(N, plan["routes"], W.make_state(N, plan["state"], plan["seed"]), lambda: K.Region(gauge=gauge))
    ref = W.make_state(N, plan["state"], plan["seed"])
    stack = []            # (gate index, inverse or None, reference before, values before, params then)
    total = 0
    ctx.shape.append((N, tuple(plan["routes"]), tuple(plan["gauge"])))

    def tol():
        return 2e-5 + 5e-6 * total * (2 if "mps" in plan["routes"] else 1)

    def inverse(j, what):
        try:
            d = obj[j].operation_dagger()
        except Exception as e:
            raise Violation("error:dagger", "%s: operation_dagger of %s failed: %s: %s" % (
                what, gates[j]["k"], type(e).__name__, str(e)[:200]))
        if d is None:
            raise Violation("error:dagger", "%s: %s no longer offers an inverse" % (what, gates[j]["k"]))
        return d

    def compare(vals, before, refv, what, names):
        for r in vals:
            e = W.maxerr(vals[r], before[r])
            if not e <= tol():
                raise Violation("notrestored:" + r, "%s (%s) leaves the %s state %.3g from its value before (tolerance "
                                "%.3g)" % (what, names, r, e, tol()))
            if r != "batch-0":
                e = W.maxerr(vals[r], refv)
                if not e <= tol():
                    raise Violation("wrong:" + r, "%s (%s): the %s state is %.3g from the exact one" % (
                        what, names, r, e))

    for op in plan["ops"]:
        k = op[0]
        if k in ("do", "twice", "sand", "free", "upd") and op[1] >= len(obj):
            continue
        if k == "do":
            j = op[1]
            inv = None
            before = held.values()
            if op[2] == "early":
                inv = inverse(j, "early inverse")
                ctx.probe("early-inverse")
            held.apply(obj[j], op[3], ctx)
            total += 1
            stack.append((j, inv, ref, before, dict(gates[j])))
            ref = R.run(N, [gates[j]], ref)
            v = held.values()
            for r in v:
                if r != "batch-0" and not W.maxerr(v[r], ref) <= tol():
                    raise Violation("wrong:" + r, "applying %s on %s by the %s route is %.3g from the exact state" % (
                        gates[j]["k"], gates[j]["w"], r, W.maxerr(v[r], ref)))
            ctx.shape.append(("do", gates[j]["k"], str(gates[j]["w"]), op[2]))
        elif k == "undo":
            names = []
            n = min(op[1], len(stack))
            if n == 0:
                continue
            for _ in range(n):
                j, inv, ref, before, g = stack.pop()
                names.append(g["k"])
                if inv is None:
                    if g.get("p") != gates[j].get("p"):
                        # the gate was updated after it was applied: undo with a gate at the old parameters
                        inv = W.build_gate(N, g).operation_dagger()
                    else:
                        inv = inverse(j, "undo")
                        ctx.probe("late-inverse")
                held.apply(inv, op[2], ctx)
                total += 1
            compare(held.values(), before, ref, "undoing the last %d operations" % n, names)
            ctx.shape.append(("undo", n))
            ctx.probe("undo")
        elif k == "upd":
            j = op[1]
            if gates[j].get("p") is None:
                continue
            r = Rng("c07p", op[2])
            g = gates[j]
            form = op[3]
            sc = W.scalar_kind(g["k"])
            if sc and form in ("list", "t1"):
                form = "t0"
            if form == "list" and g["k"] not in ("u3", "cu3"):
                form = "t1"
            gates[j] = dict(g, p=W.next_params(g, r), f=form)
            obj[j].params_update(W.make_params(gates[j]["p"], form, sc))
            ctx.shape.append(("upd", g["k"]))
            ctx.probe("updated")
        elif k == "twice":
            j = op[1]
            d2 = inverse(j, "inverting twice").operation_dagger()
            g = gates[j]
            if d2 is None:
                raise Violation("error:dagger", "the inverse of %s offers no inverse" % g["k"])
            e = W.maxerr(W.npy(d2.U_expand()), R.gate_u(N, g))
            if not e <= 2e-5:
                raise Violation("twice", "inverting %s on %s twice gives a different operation (by %.3g)" % (
                    g["k"], g["w"], e))
            if (d2.num_params, bool(d2.supportTN)) != (obj[j].num_params, bool(obj[j].supportTN)):
                raise Violation("twice", "inverting %s twice changes its bookkeeping" % g["k"])
            if g.get("p") is not None and not W.maxerr(W.npy(d2.params).reshape(-1), np.array(g["p"])) <= 2e-6:
                raise Violation("twice", "inverting %s twice changes its parameters: %s" % (g["k"], d2.params))
            ctx.shape.append(("twice", g["k"]))
            ctx.probe("twice")
        elif k == "free":
            # the inverse is an operation of its own: it can be updated and inverted further, without the original
            j = op[1]
            g = gates[j]
            d = inverse(j, "free inverse")
            e = W.maxerr(W.npy(d.U_expand()), R.gate_u(N, g).conj().T)
            if not e <= 2e-5:
                raise Violation("notinverse", "the inverse of %s on %s differs by %.3g" % (g["k"], g["w"], e))
            if g.get("p") is not None:
                r = Rng("c07f", op[2])
                k2 = d.label
                if k2 not in W.ALL:
                    continue
                g2 = {"k": k2, "w": g["w"], "p": W.gen_params(r, len(g["p"]))}
                d.params_update(W.make_params(g2["p"], "t1", W.scalar_kind(k2)))
                e = W.maxerr(W.npy(d.operation_dagger().U_expand()), R.gate_u(N, g2).conj().T)
                if not e <= 2e-5:
                    raise Violation("notinverse", "an inverted and updated %s has a wrong inverse (by %.3g)" % (k2, e))
                e = W.maxerr(W.npy(obj[j].U_expand()), R.gate_u(N, g))
                if not e <= 2e-5:
                    raise Violation("shared", "updating the inverse of %s changed the original by %.3g" % (g["k"], e))
            ctx.shape.append(("free", g["k"]))
            ctx.probe("free-inverse")
        elif k == "sand":
            a, b = op[1], op[2]
            if b >= len(obj):
                continue
            before = held.values()
            # b, a, a^-1, b^-1 - with a's inverse taken first
            ia = inverse(a, "conjugation")
            held.apply(obj[b])
            held.apply(obj[a])
            held.apply(ia)
            held.apply(inverse(b, "conjugation"))
            total += 4
            compare(held.values(), before, ref, "compute and uncompute", [gates[b]["k"], gates[a]["k"]])
            ctx.shape.append(("sand", gates[a]["k"], gates[b]["k"]))
            ctx.probe("sandwich")
        elif k == "cir":
            js = [j for j in op[1] if j < len(obj)]
            if not js:
                continue
            gs = [gates[j] for j in js]
            c, ci = L.Circuit(N), L.Circuit(N)
            for j in js:
                c.add(obj[j])
            for g in reversed(c.gate):
                ci.add(g.operation_dagger())
            psi = W.make_state(N, plan["state"], plan["seed"] + len(js))
            tl = 2e-5 + 1e-5 * len(js) * max(1, N - 2)
            dense = N <= 7
            outs = {"U": W.npy(ci.U() @ c.U() @ W.T(psi).view(-1, 1)).reshape(-1)} if dense else {}
            if W.all_tn(gs, N):
                outs["mps"] = W.npy(L.tn.MPS2StateVec(ci.TN_evolution(c.TN_evolution(
                    L.tn.StateVec2MPS(W.T(psi).view(1, -1), N))))).reshape(-1)
                outs["contract"] = W.npy(ci.TN_contract_evolution(c.TN_contract_evolution(
                    W.T(psi).view([2] * N)))).reshape(-1)
                x = W.T(np.stack([psi] * 2)).view([2] * (N + 1))
                outs["batch"] = W.npy(ci.TN_contract_evolution(c.TN_contract_evolution(x, batch_mod=True),
                                                               batch_mod=True)).reshape(2, -1)[0]
                # one way through one route and back through another
                if dense:
                    outs["mixed"] = W.npy(ci.U() @ c.TN_contract_evolution(W.T(psi).view([2] * N)).reshape(-1, 1)
                                          ).reshape(-1)
            for r, v in outs.items():
                e = W.maxerr(v, psi)
                if not e <= tl:
                    raise Violation("notrestored:" + r, "circuit %s followed by its inverse is %.3g from the identity "
                                    "on the %s route" % ([g["k"] for g in gs], e, r))
            ctx.shape.append(("cir", tuple((g["k"], str(g["w"])) for g in gs)))
            ctx.probe("circuit-inverse")
        elif k == "noinv":
            if W.NEED[op[1]] > N:
                continue
            r = Rng("noinv", plan["seed"])
            g = W.gen_gate(r, N, [op[1]])
            try:
                d = W.build_gate(N, g).operation_dagger()
            except Exception:
                d = None
            if d is not None:
                e = W.maxerr(W.npy(d.U_expand()), R.gate_u(N, g).conj().T)
                if not e <= 3e-5:
                    raise Violation("notinverse", "%s offers an inverse that is wrong by %.3g" % (op[1], e))
            ctx.shape.append(("noinv", op[1]))
        ctx.ev(k, *[str(o) for o in op[1:]])
    for a, b in stats.items():
        ctx.fault(a, b)
