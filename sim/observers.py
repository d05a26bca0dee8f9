"""Calls that must not change anything ("observers"): how to prepare their arguments, make the call, and what the
answer is.  Shared by the properties on purity, concurrency, failures and persistence."""
import contextlib
import random as _pyrandom
import numpy as np
from . import refmodel as R
from . import world as W
from .lib import load, load_quanv
from .prng import Rng
from .world import Violation

CIR = ["U", "Urev", "Uexp", "tn", "tnc", "tncb", "exp", "exp_tn", "exp_dense", "gradshift", "gradadj", "dag", "book",
       "agrad", "agradc"]
FREE = ["measure", "measure_rho", "expval", "expval_rho", "ptr", "ptr_old", "ptrace", "mpsexp", "inner", "rhomps",
        "svmps", "mps2sv", "zero", "conv", "legacy", "pe", "amp", "prho", "gram", "pred"]
OBS = ["X", "Y", "Z"]


def nmatrix(seed):
    return ["rand", "pauli", "proj"][seed % 3]


def applicable(name, N, gates):
    if N > 5 and name in ("pred", "rhomps", "legacy"):       # cost, and rounding against the predicates' fixed tolerance
        return False
    if name in ("tn", "tnc", "tncb"):
        return W.all_tn(gates, N)
    if name in ("gradshift",):
        return sum(R.nparams(g) for g in gates) * len(gates) <= (60 if N <= 4 else 12)
    if name == "gradadj":
        return (W.all_tn(gates, N) and bool(gates) and all(g["k"] in W.INVERTIBLE for g in gates)
                and sum(R.nparams(g) for g in gates) * len(gates) <= (90 if N <= 4 else 16))
    if name == "dag":
        return bool(gates) and all(g["k"] in W.INVERTIBLE for g in gates)
    if name in ("agrad", "agradc"):
        if name == "agradc" and not W.all_tn(gates, N):
            return False
        ps = [g for g in gates if g.get("p") is not None]
        return bool(ps) and all(g.get("f") == "param" for g in ps) and N <= 4
    return True


def prep(name, N, seed, sk="random"):
    """Argument values for one call, as tensors that the call must leave alone."""
    L = load()
    r = Rng("prep", name, N, seed, sk)
    psi = W.make_state(N, sk, seed)
    a = {}
    if name in ("tn", "agrad", "agradc", "tnc", "svmps", "mps2sv", "exp", "exp_tn", "exp_dense", "gradshift", "gradadj",
                "measure", "expval", "pe"):
        a["psi"] = W.T(psi).view(1, -1)
        a["n_psi"] = psi
    if name in ("exp", "exp_tn", "exp_dense", "gradshift", "expval", "expval_rho", "agrad", "agradc"):
        M = W.herm(N, nmatrix(seed), seed)
        a["M"] = W.T(M)
        a["n_M"] = M
    if name in ("gradshift", "gradadj") and r.chance(0.5):
        a["n_ps"] = {}           # one gradient object per circuit, shared by everybody who makes this call
    if name == "gradadj":
        a["n_P"], a["n_q"] = OBS[seed % 3], (seed // 3) % N
        a["Moper"] = getattr(L.dq, "Pauli" + a["n_P"])(N, a["n_q"])
        a["n_M"] = R.local_op(N, {a["n_q"]: R.PAULI[a["n_P"]]})
    if name in ("tnc", "mps2sv") or name == "agradc":
        a["x"] = L.tn.MatrixProductState(a["psi"], N)
    if name == "tncb":
        B = 1 + seed % 4
        st = np.stack([W.make_state(N, sk, seed + 7 * b) for b in range(B)])
        a["n_st"] = st
        a["x"] = W.T(st).view([B] + [2] * N)
    if name in ("measure_rho", "expval_rho", "ptr", "ptr_old", "ptrace", "rhomps"):
        rho = W.rho_rand(N, seed, 1 + seed % 3)
        a["n_rho"] = rho
        a["rho"] = W.T(rho)
    if name in ("measure", "measure_rho"):
        a["ith"] = r.choice([None, None, r.below(N), r.sample(range(N), r.randint(1, N)), 0])
    if name in ("ptr", "ptr_old"):
        a["lst"] = r.sample(range(N), r.randint(0, N - 1))
    if name == "ptrace":
        a["n_k"] = r.randint(1, N)
    if name in ("mpsexp", "inner", "mps2sv"):
        a["n_a"] = psi
        a["mps"] = L.tn.StateVec2MPS(W.T(psi).view(1, -1), N)
    if name == "mpsexp":
        ws = r.sample(range(N), r.randint(1, N))
        a["wires"] = ws
        a["n_ops"] = {q: R.PAULI[r.choice("XYZ")] for q in ws}
        a["ops"] = [W.T(a["n_ops"][q]) for q in ws]
    if name == "inner":
        b = W.make_state(N, "random", seed + 3)
        a["n_b"] = b
        a["mps2"] = L.tn.StateVec2MPS(W.T(b).view(1, -1), N)
    if name == "conv":
        Q = load_quanv()
        a["n_k"], a["n_s"] = 2, r.choice([1, 2, 2, 3])
        B, h, w = r.choice([1, 1, 2]), r.randint(2, 4), r.randint(2, 4)
        img = np.array([[[[r.uniform(0, 1) for _ in range(w)] for _ in range(h)]] for _ in range(B)])
        a["n_img"] = img.astype(np.float32)
        a["img"] = W.TR(img)
        m = Q.quanv.QuanConv2D(4, a["n_s"], 2)
        with L.torch.no_grad():
            m.weight.copy_(W.TR(np.array([r.uniform(0, 6.28) for _ in range(12)])))
        a["mod"] = m
    if name == "legacy":
        c = L.legacy(N)
        gs = []
        for _ in range(r.randint(1, 5)):
            if N >= 2 and r.chance(0.4):
                w, t = r.sample(range(N), 2), W.gen_angle(r)
                if r.chance(0.5):
                    c.rxx(w[0], w[1], t)
                    gs.append({"k": "rxx", "w": w, "p": [t]})
                else:
                    c.cnot(w[0], w[1])
                    gs.append({"k": "cnot", "w": w})
            else:
                q, t, k = r.below(N), W.gen_angle(r), r.choice(["rx", "ry", "rz"])
                getattr(c, k)(q, t)
                gs.append({"k": k, "w": q, "p": [t]})
        a["leg"], a["n_gs"] = c, gs
    if name == "pe":
        w = r.sample(range(N), r.randint(1, N))
        g = {"k": "PauliEncoding", "w": w, "x": [W.gen_angle(r) for _ in range(r.randint(1, N))],
             "pauli": r.choice("XYZ"), "f": r.choice(["list", "t1"])}
        a["n_g"] = g
        a["op"] = W.build_gate(N, g)
    if name in ("amp", "prho", "gram"):
        n = 2 ** N if name == "prho" or r.chance(0.5) else r.randint(1, 2 ** N)
        cx = name == "prho" or (name == "amp" and r.chance(0.3))
        v = np.array([complex(r.uniform(0.1, 2), r.uniform(-1, 1) if cx else 0.0) for _ in range(n)])
        a["n_v"] = v
        if name == "prho":
            a["lst"] = [complex(z) for z in v]
        else:
            a["v"] = W.T(v) if cx else W.TR(v.real)
            if name == "amp":
                a["enc"] = L.emb.AmplitudeEncoding(N, a["v"])
            else:
                a["v"] = a["v"].view(1, -1)
    if name == "pred":
        u = np.linalg.qr(np.array([[complex(r.gauss(), r.gauss()) for _ in range(2 ** N)] for _ in range(2 ** N)]))[0]
        h = (u + u.conj().T) / 2
        bad = r.chance(0.5)
        if bad:
            u, h = u.copy(), h.copy()
            u[r.below(2 ** N), r.below(2 ** N)] += 0.05
            h[0, 1] += 0.05
        v = W.make_state(N, "random", seed) * (1.1 if bad else 1.0)
        a["n_ans"] = not bad
        a["u"], a["h"], a["v"] = W.T(u), W.T(h), W.T(v)
    return a


def gradient_object(cir, a):
    ps = a.get("n_ps", {}).get(id(cir))
    if ps is None:
        ps = load().parameter_shift(cir, a["psi"], a.get("M"))
        if "n_ps" in a:
            ps = a["n_ps"].setdefault(id(cir), ps)
    return ps


def call(name, cir, N, a):
    """Make the call; returns the raw library result (tensor, list of tensors or plain values)."""
    L = load()
    t = L.torch
    if name == "U":
        return cir.U()
    if name == "Urev":
        return cir.U(left_to_right=False)
    if name == "Uexp":
        return [g.U_expand() for g in cir.gate]
    if name == "tn":
        return L.tn.MPS2StateVec(cir.TN_evolution(L.tn.StateVec2MPS(a["psi"], N)))
    if name == "tnc":
        return cir.TN_contract_evolution(a["x"])
    if name == "tncb":
        return cir.TN_contract_evolution(a["x"], batch_mod=True)
    if name == "exp":
        return cir.cir_expectation(a["psi"], a["M"])
    if name in ("exp_tn", "exp_dense"):
        return cir.cir_expectation(a["psi"], a["M"], TN=(name == "exp_tn"))
    if name == "gradshift":
        return gradient_object(cir, a).cal_params_grad()
    if name == "gradadj":
        ps = gradient_object(cir, a)
        sd, sv = ps.save_mid_MPS(a["Moper"])
        g1 = ps.cal_params_grad2(sd)
        return [g1, sv]
    if name == "dag":
        return [g.operation_dagger().U_expand() for g in cir.gate]
    if name == "book":
        return [cir.cir_num_params, sorted((k, None if v is None else v.detach().clone())
                                           for k, v in cir.cir_params.items()) if not any(
            isinstance(v, list) for v in cir.cir_params.values()) else None, bool(cir.TN_check()),
            [g.info()["label"] for g in cir.gate]]
    if name in ("agrad", "agradc"):
        if name == "agrad":
            f = cir.U() @ a["psi"].view(-1, 1)
        else:
            f = cir.TN_contract_evolution(a["x"]).reshape(-1, 1)
        e = (f.conj().T @ a["M"] @ f).real.squeeze()
        ps = [g.params for g in cir.gate if g.num_params]
        gr = t.autograd.grad(e, ps, retain_graph=True)
        return t.cat([x.reshape(-1) for x in gr])
    if name == "measure":
        return L.qmath.measure(N, a["psi"], a["ith"]) if a["ith"] is not None else L.qmath.measure(N, a["psi"])
    if name == "measure_rho":
        return L.qmath.measure(N, a["rho"], a["ith"]) if a["ith"] is not None else L.qmath.measure(N, a["rho"])
    if name == "expval":
        return L.qmath.expval(a["psi"], a["M"])
    if name == "expval_rho":
        return L.qmath.expval(a["rho"], a["M"], rho=True)
    if name == "ptr":
        return L.qmath.partial_trace(a["rho"], N, a["lst"])
    if name == "ptr_old":
        return L.qmath.partial_trace_old(a["rho"], N, a["lst"])
    if name == "ptrace":
        return L.qmath.ptrace(a["rho"], a["n_k"], N - a["n_k"])
    if name == "mpsexp":
        return L.tn.MPS_expec(a["mps"], a["wires"], a["ops"])
    if name == "inner":
        return L.tn.MPS_inner_product(a["mps"], a["mps2"])
    if name == "rhomps":
        return L.tn.MPS2Rho(L.tn.Rho2MPS(a["rho"], N))
    if name == "svmps":
        return L.tn.MPS2StateVec(L.tn.StateVec2MPS(a["psi"], N))
    if name == "mps2sv":
        return [L.tn.MPS2StateVec(a["mps"]), L.tn.MPS2StateVec(a["mps"], return_sv=False)]
    if name == "zero":
        return (cir if cir is not None else L.Circuit(N)).state_init()
    if name == "conv":
        return a["mod"](a["img"])
    if name == "legacy":
        return a["leg"].U()
    if name == "pe":
        op = a["op"]
        return [op.U_expand() + 0j, op.TN_contract(L.tn.MatrixProductState(a["psi"], N)),
                L.tn.MPS2StateVec(op.TN_operation(L.tn.StateVec2MPS(a["psi"], N)))]
    if name == "amp":
        return a["enc"].encoded_state()
    if name == "prho":
        import deepquantum.embeddings.qstate as qstate
        return [qstate.PrepareState(a["lst"]), qstate.PrepareRho(a["lst"])]
    if name == "gram":
        return L.emb.gram_encoding(a["v"])
    if name == "pred":
        q = L.qmath
        return [bool(q.IsUnitary(a["u"])), bool(q.IsHermitian(a["h"])), bool(q.IsNormalized(a["v"]))]
    raise KeyError(name)


def rejected(cir, N, gates, seed):
    """An observing call with arguments it has to reject: (name, function of the arguments, arguments)."""
    L = load()
    t, q = L.torch, L.qmath
    r = Rng("rejected", N, seed)
    psi = W.T(W.make_state(N, "random", seed)).view(1, -1)
    M = W.T(W.herm(N, "rand", seed))
    rho = W.T(W.rho_rand(N, seed, 2))
    k = r.choice(["exp-M", "exp-state", "tn-short", "tn-long", "tnc-rank", "tnc-batch", "ptr-trace", "ptr-index", "ptr-dim", "ptrold-trace",
                  "ptrold-index", "expval-rho", "sv2mps-column", "sv2mps-1d", "mps-1d", "rho2mps-1d", "rho2mps-rect", "mpdo-1d",
                  "detached-gate", "detached-tn", "detached-tnc", "wires-outside", "grad-state", "adj-observable", "adj-unsupported",
                  "mpsexp-index", "normalized-2d", "unitary-rect", "inner-length", "conv-depth", "foreign-circuit"])
    if k == "adj-unsupported" and N == 1:
        k = "normalized-2d"
    if k == "exp-M":
        return k, lambda a: cir.cir_expectation(a["psi"], a["M"]), {"psi": psi, "M": M[:-1]}
    if k == "exp-state":
        return k, lambda a: cir.cir_expectation(a["psi"], a["M"]), {"psi": psi[:, :-1].clone(), "M": M}
    if k in ("tn-short", "tn-long"):
        m = L.tn.StateVec2MPS(psi, N)
        m = m[:-1] if k == "tn-short" else m + [m[-1].clone()]
        return k, lambda a: cir.TN_evolution(a["mps"]), {"mps": m}
    if k == "tnc-rank":
        return k, lambda a: cir.TN_contract_evolution(a["x"]), {"x": psi.view([1] + [2] * N)}
    if k == "tnc-batch":
        return k, lambda a: cir.TN_contract_evolution(a["x"], batch_mod=True), {"x": psi.view([2] * N)}
    if k.startswith("ptr"):
        f = q.partial_trace_old if k.startswith("ptrold") else q.partial_trace
        lst, n, x = [r.below(N)], N, rho
        if k.endswith("trace"):
            x = rho * 1.7
        elif k.endswith("index"):
            lst = r.sample([N] + lst, 2)
        else:
            n = N + 1
        return k, lambda a: f(a["rho"], n, a["lst"]), {"rho": x, "lst": lst}
    if k == "expval-rho":
        return k, lambda a: q.expval(a["rho"], a["M"], rho=True), {"rho": rho * 0.5, "M": M}
    if k == "sv2mps-column":
        return k, lambda a: L.tn.StateVec2MPS(a["psi"], N), {"psi": psi.view(-1, 1)}
    if k == "sv2mps-1d":
        return k, lambda a: L.tn.StateVec2MPS(a["psi"], N), {"psi": psi.view(-1)}
    if k == "mps-1d":
        return k, lambda a: L.tn.MatrixProductState(a["psi"], N), {"psi": psi.view(-1)}
    if k == "rho2mps-1d":
        return k, lambda a: L.tn.Rho2MPS(a["rho"], N), {"rho": rho.reshape(-1)}
    if k == "rho2mps-rect":
        return k, lambda a: L.tn.Rho2MPS(a["rho"], N), {"rho": rho[:-1].clone()}
    if k == "mpdo-1d":
        return k, lambda a: L.tn.MatrixProductDensityOperator(a["rho"], N), {"rho": rho.reshape(-1)}
    if k.startswith("detached"):
        n = r.choice(["Hadamard", "PauliX", "PauliZ", "cnot", "cz", "SWAP", "toffoli"])
        g = getattr(L.dq, n)()
        if k == "detached-gate":
            return k, lambda a: a["g"].U_expand(), {"g": g}
        if k == "detached-tn":
            return k, lambda a: a["g"].TN_operation(a["mps"]), {"g": g, "mps": L.tn.StateVec2MPS(psi, N)}
        return k, lambda a: a["g"].TN_contract(a["x"]), {"g": g, "x": psi.view([2] * N)}
    if k == "wires-outside":
        n = r.choice(["rxx", "cnot", "cz", "cphase", "SWAP", "rzz"])
        g = getattr(L.dq, n)(N, [0, N], t.tensor(0.3)) if n in ("rxx", "rzz", "cphase") else getattr(L.dq, n)(N, [0, N])
        return k, lambda a: a["g"].U_expand(), {"g": g}
    if k == "grad-state":
        return k, lambda a: L.parameter_shift(cir, a["psi"], a["M"]).cal_params_grad(), {"psi": psi[:, :-1].clone(), "M": M}
    if k == "adj-observable":
        return k, lambda a: L.parameter_shift(cir, a["psi"], a["M"]).save_mid_MPS(a["M"]), {"psi": psi, "M": M}
    if k == "adj-unsupported":
        g = L.dq.PauliX(N, N - 1)
        c = L.Circuit(N)
        for x in cir.gate:
            c.add(x)
        c.add(L.dq.multi_control_cnot(N, [0, N - 1]))
        return k, lambda a: L.parameter_shift(c, a["psi"], a["M"]).save_mid_MPS(a["g"]), {"psi": psi, "M": M, "g": g}
    if k == "mpsexp-index":
        return k, lambda a: L.tn.MPS_expec(a["mps"], a["w"], a["o"]), {"mps": L.tn.StateVec2MPS(psi, N), "w": [0, N][:1 + r.below(2)] + [N + 1],
                                                                  "o": [t.eye(2) + 0j] * 3}
    if k == "normalized-2d":
        return k, lambda a: q.IsNormalized(a["x"]), {"x": rho}
    if k == "unitary-rect":
        return k, lambda a: [q.IsUnitary(a["x"]), q.IsHermitian(a["x"])], {"x": rho[:-1].clone()}
    if k == "inner-length":
        m = L.tn.StateVec2MPS(psi, N)
        return k, lambda a: L.tn.MPS_inner_product(a["m1"], a["m2"]), {"m1": m, "m2": [x.clone() for x in m] + [m[-1].clone()]}
    if k == "conv-depth":
        a = prep("conv", N, seed)
        return k, lambda a: a["mod"](a["x"]), {"mod": a["mod"], "x": a["img"].reshape(-1)}
    c = L.Circuit(N + 1)
    return "foreign-circuit", lambda a: [c.add(g) for g in a["gs"]] and c.U() @ psi.view(-1, 1), {"gs": list(cir.gate)}


def arr(x):
    """Plain comparable value of a raw result."""
    t = load().torch
    if isinstance(x, t.Tensor):
        return W.npy(x).copy()
    if isinstance(x, (list, tuple)):
        return [arr(y) for y in x]
    if isinstance(x, dict):
        return [[k, arr(v)] for k, v in sorted(x.items(), key=str)]
    return x


def want(name, N, gates, a):
    """Reference answer and tolerance in the form arr() gives."""
    ng = len(gates)
    mt = W.mps_tol(ng, N)
    if name == "U":
        return R.unitary(N, gates), W.wt(ng)
    if name == "Urev":
        return R.unitary(N, list(reversed(gates))), W.wt(ng)
    if name == "Uexp":
        return [R.gate_u(N, g) for g in gates], 3e-5
    if name in ("tn", "tnc"):
        return R.run(N, gates, a["n_psi"]).reshape((1, -1) if name == "tn" else (2,) * N), mt
    if name == "tncb":
        st = a["n_st"]
        return np.stack([R.run(N, gates, s).reshape((2,) * N) for s in st]), W.wt(ng)
    if name in ("exp", "exp_tn", "exp_dense"):
        return np.array(R.expval(R.run(N, gates, a["n_psi"]), a["n_M"])), 2 * mt * W.size(a["n_M"])
    if name == "gradshift":
        return R.grad(N, gates, a["n_psi"], a["n_M"]), 4 * mt * W.size(a["n_M"])
    if name == "gradadj":
        return [R.grad(N, gates, a["n_psi"], a["n_M"]), R.run(N, gates, a["n_psi"]).reshape(1, -1)], 4 * mt
    if name == "dag":
        return [R.gate_u(N, g).conj().T for g in gates], 3e-5
    if name == "book":
        return [sum(R.nparams(g) for g in gates),
                [[i, None if g.get("p") is None else np.array(g["p"][0] if W.scalar_kind(g["k"]) else g["p"])]
                 for i, g in enumerate(gates)], W.all_tn(gates, N), None], 1e-6
    if name in ("agrad", "agradc"):
        return R.grad(N, gates, a["n_psi"], a["n_M"]), (1e-4 + 1e-5 * ng) * W.size(a["n_M"])
    if name in ("measure", "measure_rho"):
        rho = np.outer(a["n_psi"], a["n_psi"].conj()) if name == "measure" else a["n_rho"]
        qs = list(range(N)) if a["ith"] is None else [a["ith"]] if isinstance(a["ith"], int) else a["ith"]
        return np.array([np.trace(rho @ R.local_op(N, {q: R.Z})).real for q in qs]), 3e-5
    if name == "expval":
        return np.array(R.expval(a["n_psi"], a["n_M"])), 3e-5 * W.size(a["n_M"])
    if name == "expval_rho":
        return np.array(np.trace(a["n_rho"] @ a["n_M"]).real), 3e-5 * W.size(a["n_M"])
    if name in ("ptr", "ptr_old"):
        return R.ptrace(a["n_rho"], N, a["lst"]), 3e-5
    if name == "ptrace":
        return R.ptrace(a["n_rho"], N, list(range(a["n_k"], N))), 3e-5
    if name == "mpsexp":
        return np.array(R.expval(a["n_a"], R.local_op(N, a["n_ops"]))), 1e-4
    if name == "inner":
        return np.array(np.vdot(a["n_b"], a["n_a"])), 1e-4
    if name == "rhomps":
        return a["n_rho"], 2e-4
    if name == "svmps":
        return a["n_psi"].reshape(1, -1), 1e-4
    if name == "mps2sv":
        return [a["n_a"].reshape(1, -1), a["n_a"].reshape((2,) * N)], 1e-4
    if name == "zero":
        v = np.zeros(2 ** N)
        v[0] = 1
        return v, 0.0
    if name == "conv":
        w = W.npy(a["mod"].weight).astype(float) * a["mod"].w_mul
        return conv_ref(a["n_img"], w, 4, 2, a["n_s"]), 1e-4
    if name == "legacy":
        return R.unitary(N, a["n_gs"]), 5e-5
    if name == "pe":
        v = R.run(N, [a["n_g"]], a["n_psi"])
        return [R.gate_u(N, a["n_g"]), v.reshape((2,) * N), v.reshape(1, -1)], 1e-4
    if name == "amp":
        z = np.zeros(2 ** N, complex)
        z[:len(a["n_v"])] = a["n_v"] / np.linalg.norm(a["n_v"])
        return z, 1e-5
    if name == "prho":
        return [a["n_v"], np.outer(a["n_v"], a["n_v"].conj())], 1e-4
    if name == "gram":
        x = np.abs(a["n_v"]) / np.linalg.norm(a["n_v"])
        return np.outer(x, x), 1e-5
    if name == "pred":
        return [a["n_ans"]] * 3, 0.0
    raise KeyError(name)


def conv_ref(img, w, n, k, s):
    B, _, h, wd = img.shape
    oh, ow = (h - k) // s + 1, (wd - k) // s + 1
    out = np.zeros((B, n, oh, ow))
    for b in range(B):
        for y in range(oh):
            for x in range(ow):
                win = img[b, 0, y * s:y * s + k, x * s:x * s + k].reshape(-1)
                out[b, :, y, x] = R.conv_window(win, w, n)
    return out


def diff(got, ref):
    """Largest difference between two arr() structures; None in the reference means "anything"."""
    if ref is None:
        return 0.0 if not isinstance(got, np.ndarray) else float("inf")
    if isinstance(ref, list):
        if not isinstance(got, list) or len(got) != len(ref):
            return float("inf")
        return max([diff(g, r) for g, r in zip(got, ref)] or [0.0])
    if isinstance(ref, np.ndarray) or isinstance(got, np.ndarray):
        return W.maxerr(got, ref)
    if isinstance(ref, (int, float)) and isinstance(got, (int, float)):
        return abs(float(ref) - float(got))
    return 0.0 if ref == got else float("inf")


def clean(name, got):
    """Drop parts of a result the reference leaves open."""
    if name == "book":
        got = list(got)
        got[3] = None
    return got


def check(name, cir, N, gates, a, where=""):
    """Call, compare with the reference, return (raw, plain)."""
    try:
        raw = call(name, cir, N, a)
    except Violation:
        raise
    except Exception as e:
        raise Violation("error:" + name, "%s failed%s: %s: %s" % (name, where, type(e).__name__, str(e)[:200]))
    got = arr(raw)
    judge(name, got, N, gates, a, where)
    return raw, got


def judge(name, got, N, gates, a, where="", slack=1.0):
    ref, tol = want(name, N, gates, a)
    e = diff(clean(name, got), ref)
    if not e <= tol * slack:
        raise Violation("wrong:" + name, "%s%s differs from the reference by %.3g (tolerance %.3g)" % (
            name, where, e, tol * slack))


# ------------------------------------------------------------------ snapshots
def frozen(x):
    t = load().torch
    if isinstance(x, t.Tensor):
        y = x.detach()
        return ("T", tuple(y.shape), str(y.dtype), bool(x.requires_grad), y.resolve_conj().contiguous().numpy().tobytes())
    if isinstance(x, np.ndarray):
        return ("A", x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(frozen(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), frozen(v)) for k, v in x.items()))
    if x is None or isinstance(x, (int, float, str, bool, complex)):
        return x
    if isinstance(x, t.nn.Module):
        return ("M",) + tuple((k, frozen(v)) for k, v in sorted(x.state_dict().items()))
    if hasattr(x, "U_expand") and hasattr(x, "wires"):
        return gate_frozen(x)
    return "?"


def gate_frozen(g):
    p = getattr(g, "params", None)
    if isinstance(p, (list, tuple)):
        p = list(p)
    return ("G", g.label if hasattr(g, "label") else type(g).__name__, frozen(g.wires), g.nqubits,
            getattr(g, "num_params", None), getattr(g, "supportTN", None), frozen(p))


def circuit_frozen(cir):
    return (cir.nqubits, len(cir.gate), tuple(id(g) for g in cir.gate), tuple(gate_frozen(g) for g in cir.gate))


def args_frozen(a):
    return {k: frozen(v) for k, v in a.items() if not k.startswith("n_")}


AMBIENT = ["nograd", "deterministic", "numpy-errors", "print", "precision"]


@contextlib.contextmanager
def ambient(kinds):
    """Process-wide settings as a caller may have them, other than the defaults; put back at the end."""
    t = load().torch
    old = (t.is_grad_enabled(), t.are_deterministic_algorithms_enabled(), np.geterr(), np.get_printoptions(),
           t.get_float32_matmul_precision())
    try:
        for k in kinds:
            if k == "nograd":
                t._C._set_grad_enabled(False)
            elif k == "deterministic":
                t.use_deterministic_algorithms(True)
            elif k == "numpy-errors":
                np.seterr(divide="ignore", over="ignore")
            elif k == "print":
                np.set_printoptions(precision=3)
            elif k == "precision":
                t.set_float32_matmul_precision("high")
        yield
    finally:
        t._C._set_grad_enabled(old[0])
        t.use_deterministic_algorithms(old[1])
        np.seterr(**old[2])
        np.set_printoptions(**old[3])
        t.set_float32_matmul_precision(old[4])


def gen_ambient(rng):
    return rng.sample(AMBIENT, rng.randint(1, 2)) if rng.chance(0.25) else []


def globals_state():
    t = load().torch
    ns = np.random.get_state()
    return {
        "default dtype": str(t.get_default_dtype()), "grad mode": t.is_grad_enabled(),
        "inference mode": t.is_inference_mode_enabled(), "threads": t.get_num_threads(),
        "deterministic": t.are_deterministic_algorithms_enabled(), "anomaly": t.is_anomaly_enabled(),
        "default device": str(t.get_default_device()),
        "torch random stream": t.random.get_rng_state().numpy().tobytes(),
        "numpy random stream": (ns[0], ns[1].tobytes(), ns[2], ns[3]),
        "python random stream": hash(_pyrandom.getstate()),
        "numpy error mode": str(sorted(np.geterr().items())),
        "print options": str(np.get_printoptions()),
        "matmul precision": t.get_float32_matmul_precision(),
        "mkldnn": t.backends.mkldnn.is_available() and t.backends.mkldnn.enabled,
    }


def dict_diff(a, b):
    return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]


def circuit_diff(a, b):
    if a == b:
        return None
    if a[0] != b[0]:
        return "qubit count"
    if a[1] != b[1]:
        return "number of gates %d -> %d" % (a[1], b[1])
    if a[2] != b[2]:
        return "gate objects replaced"
    names = ["", "label", "wires", "nqubits", "num_params", "supportTN", "params"]
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        for n, u, v in zip(names, x, y):
            if u != v:
                return "gate %d (%s) %s changed" % (i, x[1], n)
    return "changed"
