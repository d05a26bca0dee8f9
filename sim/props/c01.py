"""C01: every evaluation route computes the circuit's current unitary, after any history."""
import copy as _copy
import numpy as np
from .. import world as W
from .. import refmodel as R
from ..lib import load
from ..prng import Rng
from ..world import Violation

ID = "C01"
RUNS, RUNS_THOROUGH = 5600, 200000
RULE = ("a run is a generated history of circuit operations over 1-3 circuits (build, update, share, copy, pickle, "
        "invert, clear, rejected calls, evaluations on all routes); non-trivial: at least two operations executed; "
        "distinct by the sequence of operation kinds, gate kinds, qubits and routes (parameter values ignored)")
SHAPE = "distinct sequences of (operation, gate kind, qubits, route)"
REAL = ["deepquantum.gates.qcircuit", "deepquantum.gates.qoperator", "deepquantum.layers.qlayers",
        "deepquantum.gates.qtensornetwork", "deepquantum.gates.qgate", "deepquantum.embeddings.qembedding (PauliEncoding)"]
STUB = ["none: torch is real, the reference model is numpy complex128"]
ASSUME = ["float32 default dtype", "gate conventions as documented in the gate classes",
          "wire lists and parameter tensors handed to the library are not modified by the caller afterwards"]
SHRINK = ["ops"]
ROUTES = ["U", "Urev", "Uexp", "tn", "tn2", "tnc", "tncb", "exp", "exp_tn", "exp_dense", "chain", "chain_mps", "zero"]

WIDE = ["tn", "tn2", "tnc", "tncb", "chain", "chain_mps"]


def prepare():
    load()


def gen(rng, tier, i):
    big = tier == "thorough"
    N = rng.weighted([(1, 1), (2, 3), (3, 6), (4, 6), (5, 4), (6, 1.5), (7, 0.3), (8, 0.2 if big else 0.1),
                      (9, 0.1), (10, 0.15), (11, 0.15), (12, 0.15)])       # beyond 8 no dense matrices
    tn_only = rng.chance(0.55) or N > 8
    pool = W.TNKINDS if tn_only else W.ALL
    kinds = W.swarm_kinds(rng, N, pool)
    nops = rng.randint(3, 16 if N <= 5 else 8)
    top = 14
    long = i % 50 == 11
    if long:              # a long-lived process: many more operations, so that anything remembered fills up
        N, nops, top = rng.choice([2, 3, 3, 4]), rng.randint(150, 350), 6
        kinds = W.swarm_kinds(rng, N, pool)
    ops = [["new", 0, N]]
    g = {0: []}           # generator-side model of kinds only
    n = {0: N}
    wts = [("add", 6), ("eval", 4), ("upd", 3), ("copy", 0.7), ("dag", 0.5), ("clear", 0.25), ("bad", 0.6),
           ("share", 0.5), ("legacy", 0.4), ("pe", 0.4), ("new", 0.3)]
    if rng.chance(0.3):
        wts = [(k, w * (3 if rng.chance(0.3) else 0.4 if rng.chance(0.4) else 1)) for k, w in wts]
    if N > 8:
        wts = [(k, w) for k, w in wts if k not in ("bad", "legacy", "pe")]
    for _ in range(rng.randint(1, 4)):
        gt = W.gen_gate(rng, N, kinds, tn_only)
        ops.append(["add", 0, gt, rng.choice(["builder", "add"])])
        g[0].append(gt["k"])
    while len(ops) < nops:
        o = rng.weighted(wts)
        c = rng.choice(sorted(g))
        if long and len(g[c]) >= top and rng.chance(0.2):
            o = "clear"
        if o == "add" and len(g[c]) < top:
            gt = W.gen_gate(rng, n[c], W.fit_kinds(kinds, n[c]), tn_only)
            ops.append(["add", c, gt, rng.choice(["builder", "add"])])
            g[c].append(gt["k"])
        elif o == "eval":
            ops.append(["eval", c, rng.choice(ROUTES if N <= 8 else WIDE), rng.below(10 ** 6), rng.choice(W.STATES + ["scaled"])])
        elif o == "upd":
            ps = [j for j, k in enumerate(g[c]) if k in W.PKINDS]
            if ps:
                j = rng.choice(ps)
                ops.append(["upd", c, j, rng.below(10 ** 6), W.update_form(rng, g[c][j])])
                same = [x for x in ps if x != j and (g[c][x] == g[c][j] or rng.chance(0.2))]
                if same and rng.chance(0.35):
                    if rng.chance(0.5):
                        ops.insert(-1, ["eval", c, rng.choice(ROUTES), rng.below(10 ** 6), rng.choice(W.STATES)])
                    ops[-1] = ["trade", c, j, rng.choice(same)]
                if rng.chance(0.6):
                    ops.append(["eval", c, rng.choice(ROUTES if N <= 8 else WIDE), rng.below(10 ** 6), rng.choice(W.STATES + ["scaled"])])
        elif o == "copy" and len(g) < 3:
            ops.append(["copy", c, len(g), rng.choice(["deepcopy", "pickle", "save"])])
            n[len(g)] = n[c]
            g[len(g)] = list(g[c])
        elif o == "dag" and len(g) < 3:
            ops.append(["dag", c, len(g)])
            n[len(g)] = n[c]
            g[len(g)] = list(reversed(g[c]))
        elif o == "clear":
            ops.append(["clear", c])
            g[c] = []
        elif o == "bad":
            ops.append(["bad", c, rng.below(1000)])
        elif o == "share" and len(g) > 1 and g[c]:
            c2 = rng.choice([x for x in sorted(g) if x != c])
            j = rng.below(len(g[c]))
            if n[c] == n[c2]:
                ops.append(["share", c, j, c2])
                g[c2].append(g[c][j])
        elif o == "new" and len(g) < 3:
            n[len(g)] = N if rng.chance(0.5) else rng.randint(1, 5)     # circuits of different sizes side by side
            ops.append(["new", len(g), n[len(g)]])
            g[len(g)] = []
        elif o == "legacy":
            ops.append(["legacy", N, rng.below(10 ** 6), rng.randint(1, 6)])
        elif o == "pe":
            ops.append(["pe", N, rng.below(10 ** 6)])
    for c in sorted(g):
        for r in rng.sample(ROUTES if N <= 8 else WIDE, 3):
            ops.append(["eval", c, r, rng.below(10 ** 6), rng.choice(W.STATES + ["scaled"])])
    return {"N": N, "ops": ops}


class World:
    def __init__(self):
        self.c = {}       # id -> [circuit, N, [gate records]]

    def has(self, *ids):
        return all(i in self.c for i in ids)


def bad_call(cir, N, gates, sel):
    """A call the library must reject or that fails; the circuit may not change.  Returns a label."""
    L = load()
    forms = [
        lambda: cir.toffoli([0, 1]),
        lambda: cir.XYZLayer([0], [0.1, 0.2]),
        lambda: cir.XZLayer(list(range(N)), L.torch.zeros(2 * N + 1)),
        lambda: cir.ring_of_cnot([0]),
        lambda: cir.BasicEntangleLayer([0, 1], L.torch.zeros(5)),
        lambda: cir.BasicEntangleLayer(list(range(N)), L.torch.zeros(3 * N), 0),
        lambda: cir.Hadamard(list(range(N + 1))),
        lambda: cir.add(L.emb.PauliEncoding(N, [0.1], [0])),
        lambda: cir.add(object()),
        lambda: cir.u3([0.1, 0.2], 0),
        lambda: cir.cu3([0.1], [0, N - 1]),
        lambda: cir.TN_evolution([]),
        lambda: cir.cir_expectation(W.T(np.zeros((2, 2 ** N))), W.T(np.eye(2 ** N))),
        lambda: cir.cir_expectation(W.T(np.zeros((1, 2 ** N + 1))), W.T(np.eye(2 ** N))),
        lambda: cir.rx("a", 0),
        lambda: cir.add(None),
    ]
    f = sel % len(forms)
    try:
        forms[f]()
    except Exception as e:
        return "%d:%s" % (f, type(e).__name__)
    return "%d:accepted" % f


def legacy_run(N, seed, n, ctx):
    """The legacy builder, matrix by matrix."""
    L = load()
    r = Rng("legacy", N, seed)
    c = L.legacy(N)
    gates = []
    names = []
    for _ in range(n):
        k = r.choice(["rx", "ry", "rz", "x_gate", "y_gate", "z_gate", "Hadamard"] + (
            ["cnot", "cz", "rxx", "ryy", "rzz", "multi_control_cnot"] if N >= 2 else []))
        names.append(k)
        if k in ("rx", "ry", "rz"):
            a, q = W.gen_angle(r), r.below(N)
            getattr(c, k)(q, a if r.chance(0.5) else L.torch.tensor(a))
            gates.append({"k": k, "w": q, "p": [a]})
        elif k.endswith("_gate"):
            q = r.below(N)
            getattr(c, k)(q)
            gates.append({"k": "Pauli" + k[0].upper(), "w": q})
        elif k == "Hadamard":
            q = r.below(N)
            c.Hadamard(q)
            gates.append({"k": k, "w": q})
        elif k in ("cnot", "cz"):
            w = r.sample(range(N), 2)
            getattr(c, k)(w[0], w[1])
            gates.append({"k": k, "w": w})
        elif k == "multi_control_cnot":
            w = r.sample(range(N), r.randint(2, min(N, 4)))
            c.multi_control_cnot(w[:-1], w[-1])
            gates.append({"k": k, "w": w})
        else:
            w, a = r.sample(range(N), 2), W.gen_angle(r)
            getattr(c, k)(w[0], w[1], a if r.chance(0.5) else L.torch.tensor(a))
            gates.append({"k": k, "w": w, "p": [a]})
        if r.chance(0.3):
            e = W.maxerr(W.npy(c.U()), R.unitary(N, gates))
            if not e <= W.wt(len(gates)):
                raise Violation("wrong:legacy", "legacy builder unitary after %s differs by %.3g" % (gates, e))
    e = W.maxerr(W.npy(c.U()), R.unitary(N, gates))
    if not e <= W.wt(len(gates)):
        raise Violation("wrong:legacy", "legacy builder unitary after %s differs by %.3g" % (gates, e))
    e = W.maxerr(W.npy(c.gate_sequence_product(left_to_right=False)), R.unitary(N, list(reversed(gates))))
    if not e <= W.wt(len(gates)):
        raise Violation("wrong:legacy", "legacy builder reversed product differs by %.3g" % e)
    return names


def pauli_encoding(N, seed, ctx):
    L = load()
    r = Rng("pe", N, seed)
    w = r.sample(range(N), r.randint(1, N))
    m = r.randint(1, N)
    g = {"k": "PauliEncoding", "w": w, "x": [W.gen_angle(r) for _ in range(m)], "pauli": r.choice("XYZ"),
         "f": r.choice(["list", "t1"])}
    op = W.build_gate(N, g)
    psi = W.make_state(N, r.choice(W.STATES), seed)
    want = R.run(N, [g], psi)
    for name, f in [
            ("U", lambda: W.npy(op.U_expand() + 0j) @ psi),
            ("tnc", lambda: W.npy(op.TN_contract(L.tn.MatrixProductState(W.T(psi).view(1, -1), N))).reshape(-1)),
            ("tncb", lambda: W.npy(op.TN_contract(W.T(np.stack([psi, psi])).view([2] * (N + 1)), batch_mod=True))
             .reshape(2, -1)[1]),
            ("tn", lambda: W.npy(L.tn.MPS2StateVec(op.TN_operation(L.tn.StateVec2MPS(W.T(psi).view(1, -1), N))))
             .reshape(-1))]:
        try:
            got = f()
        except Exception as e:
            raise Violation("error:pe-" + name, "PauliEncoding %s route: %s" % (name, e))
        e = W.maxerr(got, want)
        if not e <= W.mps_tol(1, N):
            raise Violation("wrong:pe-" + name, "PauliEncoding(%s) %s route differs by %.3g" % (g, name, e))
    return g["pauli"], w


def step(wd, op, ctx):
    L = load()
    k = op[0]
    if k == "new":
        wd.c[op[1]] = [L.Circuit(op[2]), op[2], []]
        ctx.shape.append(("new", op[1], op[2]))
    elif k == "add" and wd.has(op[1]):
        cir, N, gs = wd.c[op[1]]
        g = dict(op[2])
        g["w"] = list(g["w"]) if isinstance(g["w"], list) else g["w"]
        try:
            W.add_gate(cir, N, g, op[3])
        except Exception as e:
            raise Violation("error:add", "adding %s failed: %s: %s" % (g, type(e).__name__, str(e)[:200]))
        gs.append(g)
        ctx.shape.append(("add", op[1], g["k"], g["w"]))
        ctx.probe("gate:" + g["k"])
    elif k == "upd" and wd.has(op[1]):
        cir, N, gs = wd.c[op[1]]
        if op[2] >= len(gs) or gs[op[2]].get("p") is None:
            return
        g = gs[op[2]]
        form = op[4]
        if W.scalar_kind(g["k"]) and form in ("list", "t1"):
            form = "t0"
        if form == "list" and g["k"] not in ("u3", "cu3"):
            form = "t1"
        p = W.next_params(g, Rng("p", op[3], g["k"]))
        try:
            cir.gate[op[2]].params_update(W.make_params(p, form, W.scalar_kind(g["k"])))
        except Exception as e:
            raise Violation("error:update", "params_update(%s) of %s failed: %s: %s" % (
                form, g["k"], type(e).__name__, str(e)[:200]))
        g["p"] = p
        g["f"] = form
        ctx.shape.append(("upd", op[1], op[2], g["k"]))
        ctx.probe("updated:" + g["k"])
    elif k == "trade" and wd.has(op[1]):       # two gates exchange their parameters
        cir, N, gs = wd.c[op[1]]
        if max(op[2:4]) >= len(gs) or any(gs[j].get("p") is None for j in op[2:4]):
            return
        g, h = gs[op[2]], gs[op[3]]
        if len(g["p"]) != len(h["p"]):
            return
        g["p"], h["p"] = h["p"], g["p"]
        for j, q in ((op[2], g), (op[3], h)):
            q["f"] = "t0" if W.scalar_kind(q["k"]) else "t1"
            cir.gate[j].params_update(W.make_params(q["p"], q["f"], W.scalar_kind(q["k"])))
        ctx.shape.append(("trade", op[1], g["k"], h["k"]))
        ctx.probe("traded")
    elif k == "share" and wd.has(op[1], op[3]):
        cir, N, gs = wd.c[op[1]]
        c2, N2, gs2 = wd.c[op[3]]
        if op[2] < len(gs) and N == N2:
            c2.add(cir.gate[op[2]])
            gs2.append(gs[op[2]])          # the same record: one gate, two circuits
            ctx.shape.append(("share", op[1], op[2], op[3]))
            ctx.probe("shared-gate")
    elif k == "copy" and wd.has(op[1]):
        cir, N, gs = wd.c[op[1]]
        if any(g.get("f") == "param" for g in gs):
            return
        try:
            wd.c[op[2]] = [W.clone_circuit(cir, op[3]), N, _copy.deepcopy(gs)]
        except Exception as e:
            raise Violation("error:copy", "%s of a circuit failed: %s: %s" % (op[3], type(e).__name__, str(e)[:200]))
        ctx.shape.append(("copy", op[1], op[3]))
    elif k == "dag" and wd.has(op[1]):
        cir, N, gs = wd.c[op[1]]
        if not gs or any(g["k"] not in W.INVERTIBLE for g in gs):
            return
        c2 = L.Circuit(N)
        g2 = []
        for j in range(len(gs) - 1, -1, -1):
            g = gs[j]
            try:
                d = cir.gate[j].operation_dagger()
                c2.add(d)
            except Exception as e:
                raise Violation("error:dagger", "operation_dagger of %s failed: %s: %s" % (
                    g["k"], type(e).__name__, str(e)[:200]))
            r = W.inverse_record(g)[0]     # self-inverse gates may be the same object; they carry no parameters
            g2.append(r)
        wd.c[op[2]] = [c2, N, g2]
        ctx.shape.append(("dag", op[1]))
        ctx.probe("inverted-circuit")
    elif k == "clear" and wd.has(op[1]):
        wd.c[op[1]][0].clear()
        wd.c[op[1]][2] = []
        ctx.shape.append(("clear", op[1]))
        ctx.probe("cleared")
    elif k == "bad" and wd.has(op[1]):
        cir, N, gs = wd.c[op[1]]
        lab = bad_call(cir, N, gs, op[2])
        if lab.endswith("accepted"):
            # the library took it: it is now part of the circuit in a form this program does not know
            wd.c.pop(op[1])
        else:
            ctx.fault("rejected_call")
        ctx.shape.append(("bad", op[1], lab))
    elif k == "legacy":
        try:
            ctx.shape.append(("legacy", tuple(legacy_run(op[1], op[2], op[3], ctx))))
        except Violation:
            raise
        except Exception as e:
            raise Violation("error:legacy", "legacy builder failed: %s: %s" % (type(e).__name__, str(e)[:200]))
        ctx.probe("legacy-builder")
    elif k == "pe":
        ctx.shape.append(("pe", pauli_encoding(op[1], op[2], ctx)))
        ctx.probe("pauli-encoding")
    elif k == "eval" and wd.has(op[1]):
        cir, N, gs = wd.c[op[1]]
        if not W.cost_ok(op[2], N, gs):
            return
        got = W.check_route(op[2], cir, N, gs, op[3], op[4], " after %d operations on %s" % (
            ctx.steps, [g["k"] for g in gs]))
        ctx.shape.append(("eval", op[1], op[2], op[4]))
        ctx.probe("route:" + op[2] + ("" if got is not None else ":refused"))
    else:
        return
    ctx.ev(*[o if not isinstance(o, dict) else o["k"] for o in op])


def execute(plan, ctx):
    wd = World()
    for op in plan["ops"]:
        step(wd, op, ctx)


def simplify(plan):
    """Smaller qubit counts and simpler values are tried after operations have been dropped."""
    for i, op in enumerate(plan["ops"]):
        if op[0] == "eval" and op[4] != "zero":
            q = [list(o) for o in plan["ops"]]
            q[i][4] = "zero"
            yield dict(plan, ops=q)
        if op[0] == "add" and op[2].get("p") and any(x not in (0.0,) for x in op[2]["p"]):
            for v in (0.0, 0.5):
                if all(x == v for x in op[2]["p"]):
                    continue
                q = [list(o) for o in plan["ops"]]
                q[i][2] = dict(op[2], p=[v] * len(op[2]["p"]))
                yield dict(plan, ops=q)
