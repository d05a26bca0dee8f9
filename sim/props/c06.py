"""C06: matrix-product answers do not depend on which valid decomposition the backend returns."""
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import kernel as K
from ..lib import load
from ..prng import Rng
from ..world import Violation

ID = "C06"
RUNS, RUNS_THOROUGH = 5000, 200000
RULE = ("a run holds up to three matrix-product states and applies conversions, gates, layers, circuits, inverses, "
        "inner products, local expectations, density-matrix round trips and stored-state gradients to them, with every "
        "decomposition the library asks for answered by a seeded valid alternative (phases, degenerate-basis "
        "rotations, rounding noise on the singular values); non-trivial: two or more operations; distinct by the "
        "sequence of operations, gate kinds and qubits, state kinds and gauge kinds")
SHAPE = "distinct sequences of (operation, gate kind, qubits, state kind, gauge kinds)"
REAL = ["deepquantum.gates.qtensornetwork", "TN_operation of every gate and layer",
        "deepquantum.gates.qcircuit (TN_evolution, cir_expectation, parameter_shift)"]
STUB = ["torch.svd and torch.linalg.svd answers are replaced by other valid decompositions of the same matrix"]
ASSUME = ["float32 rounding (1e-6 per step) is not a difference", "inputs are normalised states or density matrices"]
SHRINK = ["ops"]
MUST_PROBE = ["gauge_phase", "gauge_rotate", "gauge_noise", "two-way", "rho", "grad"]
KINDS = W.STATES + ["decay", "decay", "tiny", "maxent", "w", "nearghz", "maxmixcut"]


def prepare():
    load()


def state(N, kind, seed):
    if kind in W.STATES:
        return W.make_state(N, kind, seed)
    r = Rng("c06state", N, kind, seed)
    d = 2 ** N

    def rnd(*n):
        k = int(np.prod(n))
        return np.array([complex(r.gauss(), r.gauss()) for _ in range(k)]).reshape(n)
    if kind in ("decay", "maxent", "maxmixcut"):
        c = N // 2 if kind == "maxent" else r.randint(0, N)
        if N > 8:
            c = N // 2 + c % 2
        a, b = 2 ** c, 2 ** (N - c)
        m = min(a, b)
        qa = np.linalg.qr(rnd(a, a))[0][:, :m]
        qb = np.linalg.qr(rnd(b, b))[0][:, :m]
        if kind == "decay":
            s = np.array([10.0 ** (-r.uniform(0, 6) if j else 0) for j in range(m)])
        elif kind == "maxent":
            s = np.ones(m)
        else:
            s = np.array([1.0 if r.chance(0.6) else 1e-5 for _ in range(m)])
            s[0] = 1
        v = ((qa * s) @ qb.T).reshape(-1)
        if r.chance(0.5) and N > 1:
            v = v.reshape((2,) * N).transpose(r.shuffle(list(range(N)))).reshape(-1)
    elif kind == "tiny":
        v = np.zeros(d, complex)
        v[r.below(d)] = 1
        for _ in range(r.randint(1, 4)):
            v[r.below(d)] += 10.0 ** (-r.uniform(2, 5)) * np.exp(1j * r.uniform(0, 6.28))
    elif kind == "w":
        v = np.zeros(d, complex)
        for q in range(N):
            v[1 << q] = 1
    else:
        v = W.make_state(N, "ghz", seed) + rnd(d) * 10.0 ** (-r.uniform(3, 6))
    v = v / np.linalg.norm(v)
    return v.astype(np.complex64).astype(complex)


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 2.5), (3, 4), (4, 4), (5, 3), (6, 2), (7, 0.7), (8, 0.3),
                      (9, 0.2), (10, 0.4), (11, 0.2), (12, 0.2), (13, 0.05)])       # bonds of up to 64
    gk = [k for k in ("phase", "rotate", "noise") if rng.chance(0.6)]
    if rng.chance(0.15):
        gk = []
    kinds = W.swarm_kinds(rng, N, W.TNKINDS)
    ops = [["new", 0, rng.choice(KINDS), rng.below(10 ** 6), rng.choice(["c64", "c64", "real", "slice", "grad"])]]
    regs = 1
    n = rng.randint(3, 14 if N <= 5 else 8)
    while len(ops) < n:
        o = rng.weighted([("gate", 7), ("back", 3), ("trip", 1.2), ("circ", 1.2), ("inv", 1), ("inner", 1),
                          ("expec", 1), ("rho", 0.8 if N <= 4 else 0.3 if N == 5 else 0), ("cirexp", 0.6 if N <= 8 else 0), ("grad", 0.5 if N <= 4 else 0),
                          ("new", 0.6), ("dbl", 0.6), ("pe", 0.4)])
        x = rng.below(regs)
        if o == "gate":
            ops.append(["gate", x, W.gen_gate(rng, N, kinds, True)])
        elif o in ("back", "trip"):
            ops.append([o, x, rng.chance(0.5)])
        elif o == "inv":
            ops.append(["inv", x, W.gen_gate(rng, N, [k for k in kinds if k in W.INVERTIBLE] or ["Hadamard"], True)])
        elif o == "circ":
            ops.append(["circ", x, [W.gen_gate(rng, N, kinds, True) for _ in range(rng.randint(1, 4))]])
        elif o == "inner" and regs > 1:
            ops.append(["inner", x, rng.below(regs)])
        elif o == "expec":
            ops.append(["expec", x, rng.below(10 ** 6)])
        elif o == "rho":
            ops.append(["rho", rng.below(10 ** 6), rng.randint(1, 3), rng.choice(["rand", "pure", "mixed", "reduced"])])
        elif o == "cirexp":
            ops.append(["cirexp", [W.gen_gate(rng, N, kinds, True) for _ in range(rng.randint(1, 4))],
                        rng.choice(KINDS), rng.below(10 ** 6)])
        elif o == "grad":
            gs = [W.gen_gate(rng, N, kinds, True) for _ in range(rng.randint(1, 3))]
            ops.append(["grad", [g for g in gs if g["k"] in W.INVERTIBLE], rng.choice(KINDS), rng.below(10 ** 6)])
        elif o == "new" and regs < 3:
            ops.append(["new", regs, rng.choice(KINDS), rng.below(10 ** 6), "c64"])
            regs += 1
        elif o == "dbl":
            ops.append(["dbl", rng.choice(KINDS), rng.below(10 ** 6)])
        elif o == "pe":
            ops.append(["pe", x, {"k": "PauliEncoding", "w": rng.sample(range(N), rng.randint(1, N)),
                                  "x": [W.gen_angle(rng) for _ in range(rng.randint(1, N))],
                                  "pauli": rng.choice("XYZ"), "f": rng.choice(["list", "t1"])}])
    ops.append(["back", rng.below(regs), rng.chance(0.5)])
    return {"N": N, "gauge": gk, "gseed": rng.below(10 ** 9), "ops": ops}


def execute(plan, ctx):
    L = load()
    N = plan["N"]
    stats = {}
    gauge = K.make_gauge(Rng("gauge", plan["gseed"]), plan["gauge"], stats) if plan["gauge"] else None
    count = [0]

    def call(fn, *a, **kw):
        reg = K.Region(gauge=gauge)
        try:
            v = reg.call(fn, *a, **kw)
        except Exception as e:
            raise Violation("error", "%s failed: %s: %s" % (getattr(fn, "__name__", "call"), type(e).__name__,
                                                        str(e)[:200]))
        count[0] += reg.decomps
        return v

    def back(x, ref, svds, what, sv=True):
        got = W.npy(call(L.tn.MPS2StateVec, x, sv)).reshape(-1)
        e = W.maxerr(got, ref)
        tol = 2e-6 + 7e-7 * svds
        ctx.err = max(getattr(ctx, "err", 0), e / tol)
        if not e <= tol:
            raise Violation("wrong:" + what, "%s: the state from its matrix-product form differs from the exact one by "
                            "%.3g (tolerance %.3g) after %d operations" % (what, e, tol, ctx.steps))
        # bond dimensions must join up and stay within the exact bound
        b = 1
        for j, t in enumerate(x):
            if t.shape[0] != 2 or t.shape[1] != b:
                raise Violation("malformed", "%s: site %d has shape %s after a left bond of %d" % (
                    what, j, tuple(t.shape), b))
            b = t.shape[2]
        if b != 1:
            raise Violation("malformed", "%s: the last bond is %d" % (what, b))

    reg = {}
    ctx.shape.append((N, tuple(plan["gauge"])))
    for op in plan["ops"]:
        k = op[0]
        c0 = count[0]
        if k == "new":
            psi = state(N, op[2], op[3])
            if op[4] == "real":
                psi = np.abs(psi)
                t = W.TR(psi).view(1, -1)
            elif op[4] == "slice":
                t = W.T(np.stack([psi * 3, psi, psi + 1]).T).T[1:2]
            else:
                t = W.T(psi).view(1, -1)
                if op[4] == "grad":
                    t.requires_grad_(True)
            reg[op[1]] = [call(L.tn.StateVec2MPS, t, N), psi, N]
            back(*reg[op[1]], "conversion of a %s state" % op[2])
            ctx.shape.append(("new", op[2], op[4]))
        elif k in ("gate", "pe", "inv", "circ", "back", "trip", "expec") and op[1] not in reg:
            continue
        elif k in ("gate", "pe"):
            r = reg[op[1]]
            g = W.build_gate(N, op[2])
            r[0] = call(g.TN_operation, r[0])
            r[1] = R.run(N, [op[2]], r[1])
            r[2] += count[0] - c0 + 1
            back(*r, "evolution through %s on %s" % (op[2]["k"], op[2]["w"]))
            ctx.shape.append((k, op[2]["k"], str(op[2]["w"])))
            ctx.probe("evolved:" + op[2]["k"])
        elif k == "inv":
            r = reg[op[1]]
            g = W.build_gate(N, op[2])
            r[0] = call(g.operation_dagger().TN_operation, call(g.TN_operation, r[0]))
            r[2] += count[0] - c0 + 2
            back(*r, "evolution through %s on %s and back" % (op[2]["k"], op[2]["w"]))
            ctx.shape.append((k, op[2]["k"], str(op[2]["w"])))
        elif k == "circ":
            r = reg[op[1]]
            c = W.build_circuit(N, op[2])
            r[0] = call(c.TN_evolution, r[0])
            r[1] = R.run(N, op[2], r[1])
            r[2] += count[0] - c0 + len(op[2])
            back(*r, "circuit evolution through %s" % [g["k"] for g in op[2]])
            ctx.shape.append(("circ", tuple((g["k"], str(g["w"])) for g in op[2])))
        elif k == "back":
            r = reg[op[1]]
            back(*r, "conversion back", sv=op[2])
            ctx.shape.append(("back", op[1]))
        elif k == "trip":
            r = reg[op[1]]
            v = call(L.tn.MPS2StateVec, r[0])
            r[0] = call(L.tn.StateVec2MPS, v, N)
            r[2] += N
            back(*r, "round trip")
            ctx.shape.append(("trip", op[1]))
            ctx.probe("two-way")
        elif k == "inner":
            if op[1] not in reg or op[2] not in reg:
                continue
            a, b = reg[op[1]], reg[op[2]]
            got = complex(W.npy(call(L.tn.MPS_inner_product, a[0], b[0])))
            want = np.vdot(b[1], a[1])
            tol = 1e-5 + 3e-6 * (a[2] + b[2])
            if not abs(got - want) <= tol:
                raise Violation("wrong:inner", "inner product of two matrix-product states is %s, exact %s" % (
                    np.round(got, 6), np.round(want, 6)))
            ctx.shape.append(("inner", op[1], op[2]))
            ctx.probe("inner")
        elif k == "expec":
            r = reg[op[1]]
            q = Rng("c06exp", op[2])
            ws = q.sample(range(N), q.randint(1, N))
            ops = {w: R.PAULI[q.choice("XYZ")] for w in ws}
            got = float(W.npy(call(L.tn.MPS_expec, r[0], ws, [W.T(ops[w]) for w in ws])))
            v = r[1]
            for w in ws:
                v = R.apply(N, v, ops[w], [w])
            want = float(np.vdot(r[1], v).real)
            tol = 1e-5 + 3e-6 * r[2]
            if not abs(got - want) <= tol:
                raise Violation("wrong:expec", "local expectation on qubits %s is %.6f, exact %.6f" % (ws, got, want))
            ctx.shape.append(("expec", len(ws)))
            ctx.probe("expec")
        elif k == "rho":
            if op[3] == "pure":
                v = state(N, Rng("rk", op[1]).choice(KINDS), op[1])
                rho = np.outer(v, v.conj())
            elif op[3] == "mixed":
                rho = np.eye(2 ** N) / 2 ** N
                rho = 0.5 * rho + 0.5 * np.diag(np.eye(2 ** N)[op[1] % 2 ** N])
            elif op[3] == "reduced":
                v = state(N + 1, "random", op[1])
                rho = R.ptrace(np.outer(v, v.conj()), N + 1, [op[1] % (N + 1)])
            else:
                rho = W.rho_rand(N, op[1], op[2])
            x = call(L.tn.Rho2MPS, W.T(rho), N)
            got = W.npy(call(L.tn.MPS2Rho, x))
            # the last tensor's weight is recovered from the trace, so rounding is amplified by its inverse
            e = W.maxerr(got, rho)
            tol = 3e-5
            ctx.err = max(getattr(ctx, "err", 0), e / tol)
            if not e <= tol:
                raise Violation("wrong:rho", "density matrix (%s) through matrix-product form and back differs by %.3g"
                                % (op[3], e))
            ctx.shape.append(("rho", op[3], op[2]))
            ctx.probe("rho")
        elif k == "cirexp":
            psi = state(N, op[2], op[3])
            M = W.herm(N, ["rand", "pauli", "proj"][op[3] % 3], op[3])
            c = W.build_circuit(N, op[1])
            got = float(W.npy(call(c.cir_expectation, W.T(psi).view(1, -1), W.T(M))))
            want = R.expval(R.run(N, op[1], psi), M)
            tol = (2e-5 + 6e-6 * (count[0] - c0 + len(op[1]))) * W.size(M)
            if not abs(got - want) <= tol:
                raise Violation("wrong:cirexp", "expectation after %s is %.6f, exact %.6f" % (
                    [g["k"] for g in op[1]], got, want))
            ctx.shape.append(("cirexp", tuple((g["k"], str(g["w"])) for g in op[1])))
        elif k == "grad":
            gs = op[1]
            if not gs or not any(g.get("p") for g in gs) or sum(R.nparams(g) for g in gs) > 14:
                continue
            psi = state(N, op[2], op[3])
            c = W.build_circuit(N, gs)
            p, q = "XYZ"[op[3] % 3], op[3] // 3 % N
            s = L.parameter_shift(c, W.T(psi).view(1, -1), None)
            sd, sv = call(s.save_mid_MPS, getattr(L.dq, "Pauli" + p)(N, q))
            got = W.npy(call(s.cal_params_grad2, sd))
            want = R.grad(N, gs, psi, R.local_op(N, {q: R.PAULI[p]}))
            e = W.maxerr(got, want)
            if not e <= 4 * W.mps_tol(len(gs), N):
                raise Violation("wrong:grad", "stored-state gradient of %s differs by %.3g" % ([g["k"] for g in gs], e))
            ctx.shape.append(("grad", tuple((g["k"], str(g["w"])) for g in gs)))
            ctx.probe("grad")
        elif k == "dbl":
            # double precision input: whatever is dropped must be at the 1e-8 level the float32 gauge cannot see
            psi = state(N, op[1], op[2])
            r = Rng("dbl", op[2])
            psi = psi + np.array([complex(r.gauss(), r.gauss()) for _ in range(2 ** N)]) * 10.0 ** (-r.uniform(3, 6.5))
            psi = psi / np.linalg.norm(psi)
            nog = K.Region()
            x = nog.call(L.tn.StateVec2MPS, L.torch.tensor(psi).view(1, -1), N)
            got = W.npy(nog.call(L.tn.MPS2StateVec, x)).reshape(-1)
            e = W.maxerr(got, psi)
            if not e <= 1.5e-7:
                raise Violation("wrong:double", "a double-precision state (%s) through matrix-product form and back "
                                "differs by %.3g" % (op[1], e))
            ctx.shape.append(("dbl", op[1]))
            ctx.probe("double")
        else:
            continue
        ctx.ev(k, *[str(o) for o in op[1:3]])
    for a, b in stats.items():
        ctx.fault(a, b)
    ctx.ev("decomps", count[0])
