"""C05: gradients are the derivative at the current parameters."""
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import kernel as K
from ..lib import load
from ..prng import Rng
from ..world import Violation

ID = "C05"
RUNS, RUNS_THOROUGH = 3200, 120000
RULE = ("a run is one parametrised circuit and a history of updates, training steps and gradient requests by the "
        "parameter-shift, stored-state and automatic routes, some of them failed and repeated, each compared with the "
        "exact derivative at the parameters the history has produced; non-trivial: two or more operations; distinct by "
        "the sequence of (operation, method) and gate kinds and qubits")
SHAPE = "distinct (gate kinds and qubits, sequence of operations and methods)"
REAL = ["deepquantum.gates.qcircuit (parameter_shift, Circuit)", "deepquantum.gates.qoperator",
        "deepquantum.layers.qlayers", "torch autograd and optimisers"]
STUB = ["failing tensor operations are injected at torch's function dispatch"]
ASSUME = ["float32: gradients compared to about 5e-4", "a gate object at two positions has one gradient entry per position",
          "automatic differentiation is not claimed through SVD-based evolution, whose derivative is undefined at "
          "degenerate singular values"]
SHRINK = ["ops", "gates"]
METHODS = ["shift", "adj", "dense", "contract", "rebuilt", "densegate"]
MUST_PROBE = ["method:" + m for m in METHODS] + ["train", "tied", "mirror", "twice", "kept-grown", "kept-cleared",
                                                "no-parameters:shift", "no-parameters:adj"]
OBS = ["PauliX", "PauliY", "PauliZ", "Hadamard", "SWAP", "cz", "cnot"]


def prepare():
    load()


def gen(rng, tier, i):
    N = rng.weighted([(1, 1.5), (2, 4), (3, 4), (4, 1.6), (5, 0.2), (6, 0.1), (7, 0.05)])
    tn = rng.chance(0.7)
    pk = [k for k in W.any_kinds(N, W.PKINDS) if k != "BasicEntangleLayer" or not tn]
    pool = W.swarm_kinds(rng, N, W.TNKINDS if tn else W.ALL)
    gates = []
    wide = N >= 4 and rng.chance(0.45)
    budget = 14 if N <= 3 else 16 if wide else 10
    if wide:                     # a layer of three parameters on every qubit
        k = rng.choice([k for k in W.LAY if len(R.LAYERS[k]) == 3] * 2 + W.LAY)
        ws = rng.sample(list(range(N)), N)
        n = W.count_params(k, ws)
        if n <= budget:
            gates.append({"k": k, "w": ws, "p": W.gen_params(rng, n), "f": rng.choice(["list", "t1", "param"])})
    deep = N <= 3 and not wide and rng.chance(0.02)      # a long circuit
    if deep:
        budget = rng.randint(24, 44)
    for _ in range(rng.randint(15, 30) if deep else rng.randint(1, 6)):
        g = W.gen_gate(rng, N, pk if rng.chance(0.6) else pool, tn)
        if sum(R.nparams(x) for x in gates) + R.nparams(g) <= budget:
            gates.append(g)
    if not any(g.get("p") for g in gates):
        gates.append(W.gen_gate(rng, N, [rng.choice(W.any_kinds(N, W.ONEP + W.TWOP + ["cu3", "u3"]))], tn))
    ms = METHODS if rng.chance(0.5) else rng.sample(METHODS, rng.randint(1, 3))
    ops = []
    for _ in range(rng.randint(1, 2) if deep else rng.randint(2, 6)):
        x = rng.random()
        if x < 0.55:
            ops.append(["grad", rng.choice(ms), rng.below(10 ** 6), rng.choice(W.STATES),
                        [rng.choice(K.FAULT_KINDS), rng.random()] if rng.chance(0.12) else None])
        elif x < 0.8:
            ops.append(["upd", rng.below(len(gates)), rng.below(10 ** 6), rng.choice(["t0", "slice", "list", "param"])])
        elif x < 0.93:
            ops.append(["train", rng.choice(ms), rng.below(10 ** 6), rng.randint(2, 3), rng.choice(W.STATES)])
        elif x < 0.965:
            ops.append(["mirror", rng.choice(["dense", "contract", "shift", "adj"]), rng.below(10 ** 6), rng.choice(W.STATES)])
        else:
            ops.append(["tied", rng.below(10 ** 6), rng.choice(["dense", "contract"])])
    keep = rng.chance(0.35)      # gradient objects are made once and used for the rest of the history
    if rng.chance(0.5 if keep else 0.15):
        for _ in range(rng.randint(1, 3)):
            small = [rng.choice(W.any_kinds(N, W.ONEP + W.TWOP + ["cu3", "u3", "Hadamard", "cnot", "SWAP"]))]
            ops.insert(rng.below(len(ops)), ["grow", W.gen_gate(rng, N, small, tn), rng.chance(0.2)])
    if rng.chance(0.04):         # a circuit emptied again has gradients of length 0, and can be filled again
        small = [rng.choice(W.any_kinds(N, W.ONEP + W.TWOP + ["Hadamard", "cnot"]))]
        g = W.gen_gate(rng, N, small, tn)
        ops += [["grow", g, "empty"]] + [["grad", rng.choice(["shift", "adj"]), rng.below(10 ** 6),
                                          rng.choice(W.STATES), None] for _ in range(2)]
        ops += [["grow", g, False], ["grad", rng.choice(["shift", "adj"]), rng.below(10 ** 6), rng.choice(W.STATES), None]]
    plan = {"N": N, "gates": gates, "ops": ops, "buf": not keep and rng.chance(0.5), "keep": keep}
    if rng.chance(0.12):         # one gate object at two positions of the circuit
        plan["twice"] = rng.below(len(gates))
        for o in ops:
            if o[0] in ("grad", "train") and o[1] not in ("shift", "adj", "rebuilt"):
                o[1] = rng.choice(["shift", "adj"])
    return plan


BUF = {}


def PSI(psi):
    """The initial state as the caller holds it: a new tensor, or new values in the tensor used last time."""
    x = W.T(psi).view(1, -1)
    if BUF.get("on"):
        b = BUF.setdefault(x.shape[1], x)
        b.copy_(x)
        return b
    return x


def leaf_params(g, vals):
    t = load().torch
    return t.tensor(vals[0] if W.scalar_kind(g["k"]) else vals, requires_grad=True)


def energy(cir, psi, M, dense):
    L = load()
    if dense:
        f = cir.U() @ W.T(psi).view(-1, 1)
    else:
        f = cir.TN_contract_evolution(L.tn.MatrixProductState(W.T(psi).view(1, -1), cir.nqubits)).reshape(-1, 1)
    return (f.conj().T @ W.T(M) @ f).real.squeeze()


def observable(N, method, seed):
    if method == "adj":
        r = Rng("obsop", N, seed)
        k = r.choice([o for o in OBS if W.NEED.get(o, 1) <= N])
        g = {"k": k, "w": W.gen_wires(r, k, N, True)}
        return g, R.gate_u(N, g)
    return None, W.herm(N, ["rand", "pauli", "proj"][seed % 3], seed)


def usable(method, N, gates):
    if method == "adj":
        return W.all_tn(gates, N) and all(g["k"] in W.INVERTIBLE for g in gates)
    if method == "contract":
        return W.all_tn(gates, N)
    return True


def grad_object(method, cir, psi, M, og):
    L = load()
    if BUF.get("keep") is None:
        return L.parameter_shift(cir, PSI(psi), None if M is None else W.T(M))
    if method not in BUF["keep"]:
        BUF["keep"][method] = L.parameter_shift(cir, PSI(psi), None if M is None else W.T(M))
    return BUF["keep"][method]


def kept(method, N, seed, sk):
    """State and observable of a gradient: the ones asked for, or those of the gradient object made earlier."""
    k = BUF.get("keep")
    if k is not None and method in ("shift", "adj"):
        seed, sk = BUF["seeds"].setdefault(method, (seed, sk))
    psi = W.make_state(N, sk, seed)
    if seed % 11 == 0:           # a state that is not normalised
        psi = psi * (1.5 if seed % 2 else 0.5)
    og, M = observable(N, method, seed)
    return psi, og, M


def gradient(method, cir, N, gates, psi, M, og):
    """One gradient vector by one method, at the circuit's current parameters."""
    L = load()
    t = L.torch
    ps = [j for j, g in enumerate(gates) if g.get("p") is not None]
    if method == "shift":
        return W.npy(grad_object(method, cir, psi, M, og).cal_params_grad())
    if method == "adj":
        s = grad_object(method, cir, psi, None, og)
        sd, sv = s.save_mid_MPS(W.build_gate(N, og))
        g = W.npy(s.cal_params_grad2(sd))
        g2 = W.npy(s.cal_params_grad2(sd))
        if W.maxerr(g, g2) > 1e-6:
            raise Violation("adj-unstable", "the same stored states gave two gradients, differing by %.3g" %
                            W.maxerr(g, g2))
        return g
    if method in ("dense", "contract", "densegate"):
        # a fresh leaf is put into the existing circuit by an update, then differentiated
        leaves = []
        for j in ps:
            x = leaf_params(gates[j], gates[j]["p"])
            cir.gate[j].params_update(x)
            leaves.append(x)
        if method == "densegate":
            f = W.T(psi).view(-1, 1)
            for gt in cir.gate:
                f = gt.U_expand() @ f
            e = (f.conj().T @ W.T(M) @ f).real.squeeze()
        else:
            e = energy(cir, psi, M, method == "dense")
        gr = t.autograd.grad(e, leaves, allow_unused=True)
        for j, x in zip(ps, gr):
            if x is None:
                raise Violation("cut:" + method, "no gradient reaches the parameters of %s on the %s route" % (
                    gates[j]["k"], method))
        for j in ps:
            cir.gate[j].params_update(leaf_params(gates[j], gates[j]["p"]).detach())
        return np.concatenate([W.npy(x).reshape(-1) for x in gr])
    if method == "rebuilt":
        # the usual training style: one weight vector, the circuit built from slices of it
        w = t.tensor([v for j in ps for v in gates[j]["p"]], requires_grad=True)
        k, c2 = 0, L.Circuit(N)
        for j, g in enumerate(gates):
            if j in ps:
                n = len(g["p"])
                x = w[k] if W.scalar_kind(g["k"]) else w[k:k + n]
                if not W.scalar_kind(g["k"]) and g["k"] != "BasicEntangleLayer" and g.get("f") == "list":
                    x = [w[k + m] for m in range(n)]
                k += n
                W.add_gate(c2, N, g, "builder", x)
            else:
                W.add_gate(c2, N, g, "builder")
        e = energy(c2, psi, M, True)
        gr = t.autograd.grad(e, [w])[0]
        return W.npy(gr)
    raise KeyError(method)


def tol(N, gates):
    return 4 * W.mps_tol(len(gates), N)


def checked(method, cir, N, gates, seed, sk, where):
    psi, og, M = kept(method, N, seed, sk)
    try:
        got = gradient(method, cir, N, gates, psi, M, og)
    except Violation:
        raise
    except Exception as e:
        raise Violation("error:" + method, "%s gradient failed%s: %s: %s" % (method, where, type(e).__name__,
                                                                         str(e)[:200]))
    want = R.grad(N, gates, psi, M)
    if got.shape != want.shape:
        raise Violation("length:" + method, "%s gradient has shape %s for %d parameters%s" % (
            method, got.shape, len(want), where))
    e = W.maxerr(got, want)
    if not e <= tol(N, gates) * W.size(M) * max(1.0, float(np.vdot(psi, psi).real)):
        raise Violation("wrong:" + method, "%s gradient differs from the derivative by %.3g%s: %s instead of %s" % (
            method, e, where, np.round(got, 4).tolist()[:9], np.round(want, 4).tolist()[:9]))
    return got, want


def put(cir, gates, j, vals, form):
    g = gates[j]
    sc = W.scalar_kind(g["k"])
    if sc and form == "list":
        form = "t0"
    if not sc and (form == "t0" or (form == "list" and g["k"] not in ("u3", "cu3"))):
        form = "t1"
    cir.gate[j].params_update(W.make_params(vals, form, sc))
    g["p"] = vals


def mirror(cir, N, gates, op, where, ctx):
    """A circuit, other gates and (part of) the circuit's inverse: every parameter then acts twice, the second time
    through operation_dagger, and the gates of the inverse have parameters of their own."""
    L = load()
    t = L.torch
    _, m, seed, sk = op
    r = Rng("mirror", seed)
    if any(g["k"] not in W.INVERTIBLE for g in gates) or (m in ("contract", "adj") and not W.all_tn(gates, N)):
        return
    if sum(R.nparams(g) for g in gates) > (12 if m in ("dense", "contract") else 6) or \
            len({id(g) for g in cir.gate}) < len(gates):
        return
    ps = [j for j, g in enumerate(gates) if g.get("p") is not None]
    if not ps:
        return
    mid = [W.gen_gate(r, N, W.any_kinds(N, ["rx", "ry", "u1", "Hadamard", "cnot", "rzz", "ZXLayer"]), True)
           for _ in range(r.randint(1, 2))]
    back = [j for j in reversed(range(len(gates))) if r.chance(0.85)]
    psi = W.make_state(N, sk, seed)
    og, M = observable(N, m, seed)
    leaves = {}
    try:
        if m in ("dense", "contract"):
            for j in ps:
                leaves[j] = leaf_params(gates[j], gates[j]["p"])
                cir.gate[j].params_update(leaves[j])
        c2 = L.Circuit(N)
        recs, src = [], []
        for j, g in enumerate(gates):
            c2.add(cir.gate[j])
            recs.append(g)
            src.append((j, None))
        for g in mid:
            W.add_gate(c2, N, g, "builder")
            recs.append(g)
            src.append((None, None))
        for j in back:
            c2.add(cir.gate[j].operation_dagger())
            rec, idx = W.inverse_record(gates[j])
            recs.append(rec)
            src.append((j, idx))
        if leaves:
            e = energy(c2, psi, M, m == "dense")
            got = t.autograd.grad(e, [leaves[j] for j in ps], allow_unused=True)
        else:
            got = W.npy(L.parameter_shift(c2, PSI(psi), None if m == "adj" else W.T(M)).cal_params_grad()) if m == "shift" \
                else None
            if m == "adj":
                s = L.parameter_shift(c2, PSI(psi), None)
                got = W.npy(s.cal_params_grad2(s.save_mid_MPS(W.build_gate(N, og))[0]))
        for j in leaves:
            cir.gate[j].params_update(leaf_params(gates[j], gates[j]["p"]).detach())
    except Violation:
        raise
    except Exception as e:
        raise Violation("error:mirror", "%s gradient of a circuit with its inverse failed%s: %s: %s" % (
            m, where, type(e).__name__, str(e)[:200]))
    want = R.grad(N, recs, psi, M)
    if leaves:
        tot = {j: np.zeros(len(gates[j]["p"])) for j in ps}
        k = 0
        for rec, (j, idx) in zip(recs, src):
            n = R.nparams(rec)
            if n and j is not None:
                d = want[k:k + n]
                if idx is None:
                    tot[j] += d
                else:
                    for i, o in enumerate(idx):
                        tot[j][o] -= d[i]
            k += n
        for j, x in zip(ps, got):
            if x is None:
                raise Violation("cut:mirror", "no gradient reaches the parameters of %s (%s)" % (gates[j]["k"], m))
        got = np.concatenate([W.npy(x).reshape(-1) for x in got])
        want = np.concatenate([tot[j] for j in ps])
    e = W.maxerr(got, want) if got.shape == want.shape else np.inf
    if not e <= 2 * tol(N, recs) * W.size(M):
        raise Violation("wrong:mirror", "%s gradient of %s followed by %s and its inverse at %s is %.3g from the derivative" % (
            m, [(g["k"], g["w"]) for g in gates], [g["k"] for g in mid], back, e))
    ctx.probe("mirror")
    ctx.shape.append(("mirror", m, len(back)))


def execute(plan, ctx):
    L = load()
    N = plan["N"]
    gates = [dict(g) for g in plan["gates"]]
    BUF.clear()
    BUF["on"] = plan.get("buf")
    if plan.get("keep"):
        BUF["keep"], BUF["seeds"] = {}, {}
    cir = W.build_circuit(N, gates, "builder")
    if plan.get("twice") is not None and plan["twice"] < len(gates):
        cir.add(cir.gate[plan["twice"]])
        gates.append(gates[plan["twice"]])
        ctx.probe("twice")
    ps = [j for j, g in enumerate(gates) if g.get("p") is not None]
    ctx.shape.append(tuple((g["k"], str(g["w"])) for g in gates))
    if not ps:
        return
    for op in plan["ops"]:
        where = " (operation %d, circuit %s)" % (ctx.steps, [(g["k"], g["w"]) for g in gates])
        if not ps and (op[0] in ("train", "upd") or op[0] == "grad" and op[1] not in ("shift", "adj")):
            continue
        if op[0] == "grad":
            _, m, seed, sk, f = op
            if not usable(m, N, gates):
                continue
            if f is not None:
                psi, og, M = kept(m, N, seed, sk)
                at = int(10 ** (f[1] * (3.0 if f[0] == "interrupt_py" else 2.3)))
                if f[0] == "linalg":
                    at = int(f[1] * 8)
                if m not in ("dense", "contract", "densegate"):
                    reg = K.Region([{"kind": f[0], "at": at}])
                    try:
                        reg.call(gradient, m, cir, N, gates, psi, M, og)
                    except BaseException as e:
                        if not reg.fired:
                            raise
                    if reg.fired:
                        ctx.fault(f[0])
            checked(m, cir, N, gates, seed, sk, where)
            ctx.probe("method:" + m)
            if not ps:
                ctx.probe("no-parameters:" + m)
            ctx.shape.append(("grad", m, sk))
        elif op[0] == "grow":
            g = dict(op[1])
            if op[2]:
                cir.clear()
                gates = []
                BUF.get("seeds", {}) and ctx.probe("kept-cleared")
            if op[2] == "empty":
                ps = []
                ctx.shape.append("emptied")
                continue
            if sum(R.nparams(x) for x in gates) + R.nparams(g) > 16:
                continue
            W.add_gate(cir, N, g, "builder")
            gates.append(g)
            ps = [j for j, x in enumerate(gates) if x.get("p") is not None]
            if BUF.get("seeds"):
                ctx.probe("kept-grown")
            ctx.shape.append(("grow", g["k"], str(g["w"]), op[2]))
        elif op[0] == "upd":
            j = op[1]
            if j >= len(gates) or j not in ps:
                continue
            r = Rng("c05p", op[2])
            put(cir, gates, j, W.next_params(gates[j], r), op[3])
            ctx.shape.append(("upd", j))
        elif op[0] == "train":
            _, m, seed, n, sk = op
            if not usable(m, N, gates):
                continue
            for step in range(n):
                got, want = checked(m, cir, N, gates, seed, sk, where + " in training step %d" % step)
                k = 0
                for j in ps:
                    c = len(gates[j]["p"])
                    if any(gates[i] is gates[j] for i in range(j)):
                        k += c
                        continue
                    put(cir, gates, j, [W.f32(v - 0.2 * float(d)) for v, d in zip(gates[j]["p"], got[k:k + c])],
                        "t0")
                    k += c
            checked(m, cir, N, gates, seed, sk, where + " after training")
            ctx.probe("train")
            ctx.shape.append(("train", m, n))
        elif op[0] == "mirror":
            mirror(cir, N, gates, op, where, ctx)
        elif op[0] == "tied":
            # one weight used by several gates: contributions add up
            r = Rng("tied", op[1])
            if op[2] == "contract" and N < 1:
                continue
            ks = [r.choice(W.any_kinds(N, ["rx", "ry", "rz", "u1", "rxx", "ryy", "rzz", "cphase"])) for _ in range(3)]
            v = W.gen_angle(r)
            gs = [{"k": "HLayer", "w": list(range(N))}] + [
                {"k": k, "w": W.gen_wires(r, k, N, True), "p": [v]} for k in ks]
            w = L.torch.tensor(v, requires_grad=True)
            c2 = L.Circuit(N)
            for g in gs:
                W.add_gate(c2, N, g, "add", w if g.get("p") else None)
            psi, M = W.make_state(N, "random", op[1]), W.herm(N, "rand", op[1])
            got = float(L.torch.autograd.grad(energy(c2, psi, M, op[2] == "dense"), [w])[0])
            want = float(R.grad(N, gs, psi, M).sum())
            if not abs(got - want) <= 5e-4 * W.size(M):
                raise Violation("wrong:tied", "gradient of a shared weight over %s is %.5f, derivative %.5f" % (
                    ks, got, want))
            ctx.probe("tied")
            ctx.shape.append(("tied", tuple(ks)))
        ctx.ev(*[str(o) for o in op])
