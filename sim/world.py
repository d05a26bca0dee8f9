"""Vocabulary shared by the simulated user programs: gate records, how they are built through the public API, input
states and observables, evaluation routes with their reference answers."""
import io
import math
import pickle
import copy
import numpy as np
from . import refmodel as R
from .prng import Rng
from .lib import load

ONE = ["Hadamard", "PauliX", "PauliY", "PauliZ"]
ONEP = ["rx", "ry", "rz", "u1"]
TWO = ["cnot", "cz", "SWAP"]
TWOP = ["rxx", "ryy", "rzz", "cphase"]
LAY = list(R.LAYERS)
RINGS = ["ring_of_cnot", "ring_of_cnot_dagger"]
NOTN = ["multi_control_cnot", "ring_of_cnot2", "BasicEntangleLayer"]
ALL = ONE + ONEP + ["u3"] + TWO + TWOP + ["cu3", "toffoli", "HLayer"] + LAY + RINGS + NOTN
TNKINDS = [k for k in ALL if k not in NOTN]
INVERTIBLE = [k for k in ALL if k not in ("ring_of_cnot2", "BasicEntangleLayer")]
PKINDS = ONEP + ["u3"] + TWOP + ["cu3"] + LAY + ["BasicEntangleLayer"]
NEED = {"u3": 1, "toffoli": 3, "cu3": 2, "ring_of_cnot": 2, "ring_of_cnot_dagger": 2, "ring_of_cnot2": 3,
        "BasicEntangleLayer": 2, "multi_control_cnot": 2}
for _k in TWO + TWOP:
    NEED[_k] = 2


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls + ": " + detail)
        self.cls, self.detail = cls, detail


def f32(x):
    return float(np.float32(x))


SPECIAL = [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, 2 * math.pi, 3 * math.pi, 4 * math.pi, math.pi / 3,
           -math.pi / 4, 1e-3, -1e-4, 12.5, -20.0]


def gen_angle(rng):
    if rng.chance(0.25):
        return f32(rng.choice(SPECIAL))
    return f32(rng.uniform(-2 * math.pi, 2 * math.pi))


def gen_params(rng, n):
    p = [gen_angle(rng) for _ in range(n)]
    if rng.chance(0.1):      # as freshly initialised models have them: all alike
        p = [f32(rng.choice([0.0, 0.0, 0.5, math.pi, p[0]]))] * n
    return p


def next_params(g, r):
    """New values for a gate that has some: unrelated ones, ones close to or a full turn from the current ones, or the current
    ones in another order (all that a summary of them - a sum, a set, a rounded value - would not notice)."""
    x = r.random()
    p = list(g["p"])
    n = len(p)
    if x < 0.2:
        d = r.choice([1e-3, -1e-3, 3e-4, f32(2 * math.pi), f32(-2 * math.pi), f32(4 * math.pi), math.pi])
        j = r.below(n + 1)
        p = [f32(v + d) if j in (i, n) else v for i, v in enumerate(p)]
        if max(abs(v) for v in p) < 40:
            return p
    elif x < 0.36 and n > 1:
        h = r.below(4)
        i, j = r.sample(range(n), 2)
        if h == 0:
            p[i], p[j] = p[j], p[i]
        elif h == 1:
            p = p[::-1]
        elif h == 2:
            p = p[1:] + p[:1]
        else:
            d = r.choice([0.5, -1.0, 2.0])
            p[i], p[j] = f32(p[i] + d), f32(p[j] - d)
        if max(abs(v) for v in p) < 40:
            return p
    elif x < 0.4:
        return [f32(-v) for v in p]
    return gen_params(r, n)


INV = {"XYZLayer": "ZYXLayer", "ZYXLayer": "XYZLayer", "XZLayer": "ZXLayer", "ZXLayer": "XZLayer",
       "ring_of_cnot": "ring_of_cnot_dagger", "ring_of_cnot_dagger": "ring_of_cnot"}


def inverse_record(g):
    """The record of a gate's inverse, and which parameter of the gate each of its (negated) parameters is."""
    r = dict(g)
    r["k"] = INV.get(g["k"], g["k"])
    p = g.get("p")
    if p is None:
        return r, []
    if g["k"] in ("u3", "cu3"):
        idx = [0, 2, 1]
    elif g["k"] in R.LAYERS:
        m = len(R.LAYERS[g["k"]])
        idx = [b + m - 1 - i for b in range(0, len(p), m) for i in range(m)]
    else:
        idx = [0]
    r["p"] = [-p[i] for i in idx]
    return r, idx


def count_params(k, w, r=1):
    if k in ONEP or k in TWOP:
        return 1
    if k in ("u3", "cu3"):
        return 3
    if k in R.LAYERS:
        return len(R.LAYERS[k]) * len(w)
    if k == "BasicEntangleLayer":
        return 3 * len(w) * r
    return 0


def gen_wires(rng, k, N, tn_only=False):
    q = list(range(N))
    if k in ONE or k in ONEP or k == "u3":
        return rng.below(N)
    if k in TWO or k in TWOP or k == "cu3":
        return rng.sample(q, 2)
    if k == "toffoli":
        return rng.sample(q, 3)
    if k == "multi_control_cnot":
        return rng.sample(q, rng.randint(2, min(N, 5)))
    if k in RINGS:
        if tn_only or rng.chance(0.45):
            return q
        return rng.sample(q, rng.randint(2, N))
    if k == "ring_of_cnot2":
        if rng.chance(0.5):
            return q
        m = rng.randint(2, N)
        return rng.sample(q, m)
    if k == "BasicEntangleLayer":
        return q if rng.chance(0.5) else rng.sample(q, rng.randint(2, N))
    # single-qubit layers
    if rng.chance(0.35):
        return q
    return rng.sample(q, rng.randint(1, N))


def gen_form(rng, k):
    if k in ONEP or k in TWOP:
        return rng.choice(["float", "t0", "slice", "t0", "param"])
    if k in ("u3", "cu3"):
        return rng.choice(["list", "t1", "slice", "param"])
    if k == "BasicEntangleLayer":
        return rng.choice(["t1", "slice", "param", "t1"])
    return rng.choice(["list", "t1", "slice", "param"])


def gen_gate(rng, N, kinds, tn_only=False, forms=None):
    while True:
        k = rng.choice(kinds)
        if NEED.get(k, 1) <= N and not (k == "HLayer" and N < 1):
            break
    g = {"k": k, "w": gen_wires(rng, k, N, tn_only)}
    r = 1
    if k == "BasicEntangleLayer":
        r = rng.choice([1, 1, 2, 3])
        g["r"] = r
    n = count_params(k, g["w"] if isinstance(g["w"], list) else [g["w"]], r)
    if n:
        g["p"] = gen_params(rng, n)
        g["f"] = rng.choice(forms) if forms else gen_form(rng, k)
        if forms and g["f"] in ("float", "t0") and n > 1:
            g["f"] = "t1"
        if forms and g["f"] in ("list", "t1") and k in ONEP + TWOP:
            g["f"] = "t0"
        if g["f"] == "list" and k == "BasicEntangleLayer":
            g["f"] = "t1"
        if not forms and rng.chance(0.08):     # whole numbers, or double precision where the gate takes it
            if rng.chance(0.3) and k not in ("u1", "cphase", "BasicEntangleLayer") and k not in LAY:
                g["f"] = "f64"
            else:
                g["p"] = [float(rng.choice([0, 0, 1, 1, -1, 2, -2, 3, 5, -6])) for _ in g["p"]]
                g["f"] = "intt" if k == "BasicEntangleLayer" else rng.choice(["ints", "intt"])
    return g


def any_kinds(N, kinds):
    return [k for k in kinds if NEED.get(k, 1) <= N]


def fit_kinds(kinds, N):
    return any_kinds(N, kinds) or ["rx", "Hadamard", "u3"]


def swarm_kinds(rng, N, pool):
    """A random subset of gate kinds for this run (swarm testing), never empty."""
    pool = any_kinds(N, pool)
    if rng.chance(0.25):
        return pool
    ks = [k for k in pool if rng.chance(0.35)]
    while len(ks) < 2:
        ks.append(rng.choice(pool))
    return ks


def scalar_kind(k):
    return k in ONEP or k in TWOP


def make_params(p, form, scalar):
    t = load().torch
    if form == "f64":
        return t.tensor(p[0] if scalar else list(p), dtype=t.float64)
    if form in ("ints", "intt"):
        v = int(p[0]) if scalar else [int(x) for x in p]
        return v if form == "ints" else t.tensor(v)
    if scalar:
        v = p[0]
        if form == "float":
            return v
        if form == "slice":
            return t.tensor([9.0, v, -9.0])[1]
        if form == "param":
            return t.nn.Parameter(t.tensor(v))
        return t.tensor(v)
    if form == "list":
        return list(p)
    if form == "slice":
        return t.tensor([9.0] + list(p) + [-9.0])[1:len(p) + 1]
    if form == "param":
        return t.nn.Parameter(t.tensor(list(p)))
    return t.tensor(list(p))


def wires_of(g):
    return list(g["w"]) if isinstance(g["w"], list) else g["w"]


def build_gate(N, g, params=None):
    L = load()
    k, w = g["k"], wires_of(g)
    if k == "PauliEncoding":
        x = g["x"] if g.get("f") == "list" else L.torch.tensor(g["x"])
        return L.emb.PauliEncoding(N, x, w, g["pauli"])
    cls = getattr(L.dq, k)
    if g.get("p") is None:
        return cls(N, w)
    if params is None:
        params = make_params(g["p"], g.get("f", "t1"), scalar_kind(k))
    if k in LAY:
        return cls(N, w, params)
    if k == "BasicEntangleLayer":
        return cls(N, w, params, g.get("r", 1))
    return cls(params, N, w)


def add_gate(cir, N, g, via, params=None):
    k, w = g["k"], wires_of(g)
    if via != "builder" or k in ("ring_of_cnot_dagger",):
        cir.add(build_gate(N, g, params))
        return
    if k == "HLayer":
        cir.Hadamard(w)
        return
    m = getattr(cir, k)
    if g.get("p") is None:
        m(w)
        return
    if params is None:
        params = make_params(g["p"], g.get("f", "t1"), scalar_kind(k))
    if k in LAY:
        m(w, params)
    elif k == "BasicEntangleLayer":
        m(w, params, g.get("r", 1))
    else:
        m(params, w)


def update_form(rng, k):
    if scalar_kind(k):
        return rng.choice(["t0", "slice", "t0", "param"])
    if k in ("u3", "cu3"):
        return rng.choice(["list", "t1", "slice", "param"])
    return rng.choice(["t1", "slice", "param"])


def build_circuit(N, gates, via="builder"):
    c = load().Circuit(N)
    for g in gates:
        add_gate(c, N, g, via)
    return c


def tn_supported(g, N):
    if g["k"] in NOTN:
        return False
    if g["k"] in RINGS:
        return list(g["w"]) == list(range(N))
    return True


def all_tn(gates, N):
    return all(tn_supported(g, N) for g in gates)


# ---------------------------------------------------------------- states and observables
STATES = ["zero", "basis", "product", "ghz", "random", "random", "random", "sparse", "nearprod", "bellpairs"]


def make_state(N, kind, seed):
    r = Rng("state", N, kind, seed)
    d = 2 ** N

    def rnd(n):
        return np.array([complex(r.gauss(), r.gauss()) for _ in range(n)])
    if kind == "zero":
        v = np.zeros(d, complex)
        v[0] = 1
    elif kind == "basis":
        v = np.zeros(d, complex)
        v[r.below(d)] = np.exp(1j * r.uniform(0, 6.28))
    elif kind == "product" or kind == "nearprod":
        v = np.ones(1, complex)
        for _ in range(N):
            v = np.kron(v, rnd(2))
        v = v / np.linalg.norm(v)
        if kind == "nearprod":
            e = rnd(d)
            v = v + e / np.linalg.norm(e) * 10.0 ** (-r.uniform(1, 4.0))
    elif kind == "ghz":
        v = np.zeros(d, complex)
        a = r.below(d)
        v[a] += 1
        v[d - 1 - a] += np.exp(1j * r.uniform(0, 6.28))
    elif kind == "bellpairs":
        v = np.ones(1, complex)
        n = N
        while n >= 2:
            v = np.kron(v, np.array([1, 0, 0, r.choice([1, -1, 1j])], complex))
            n -= 2
        if n:
            v = np.kron(v, rnd(2))
    elif kind == "sparse":
        v = np.zeros(d, complex)
        for _ in range(r.randint(1, 3)):
            v[r.below(d)] += complex(r.choice([1, -1, 0.5]), r.choice([0, 1]))
        if not np.any(v):
            v[0] = 1
    else:
        v = rnd(d)
    v = v / np.linalg.norm(v)
    if kind == "scaled":
        v = v * r.choice([0.2, 0.7, 1.5, 2.0])
    return v.astype(np.complex64).astype(complex)


def herm(N, kind, seed):
    r = Rng("herm", N, kind, seed)
    d = 2 ** N
    if kind == "pauli":
        ops = {q: r.choice([R.X, R.Y, R.Z]) for q in r.sample(range(N), r.randint(1, N))}
        return R.local_op(N, ops)
    if kind == "proj":
        v = make_state(N, "random", seed + 1)
        return np.outer(v, v.conj())
    big = Rng("hermscale", N, kind, seed)
    big = big.choice([3.0, 12.0, 40.0]) if big.chance(0.3) else 1.0
    if r.chance(0.15):          # a sum of local terms, as energies are
        A = sum(R.local_op(N, {q: r.choice([R.X, R.Z]) for q in {j, (j + 1) % N}}) for j in range(N)) * (big / 3)
    else:
        A = np.array([[complex(r.gauss(), r.gauss()) for _ in range(d)] for _ in range(d)])
        A = A + A.conj().T
        A = A / np.linalg.norm(A, 2) * big
    return A.astype(np.complex64).astype(complex)


def size(M):
    """What the tolerance of an observable's expectation has to be multiplied by."""
    return max(1.0, float(np.linalg.norm(M, 2)))


def T(a):
    return load().torch.tensor(np.asarray(a).astype(np.complex64))


def TR(a):
    return load().torch.tensor(np.asarray(a).astype(np.float32))


def npy(t):
    return t.detach().resolve_conj().cpu().numpy()


def rho_rand(N, seed, rank):
    r = Rng("rho", N, seed, rank)
    d = 2 ** N
    A = np.array([[complex(r.gauss(), r.gauss()) for _ in range(rank)] for _ in range(d)])
    rho = A @ A.conj().T
    rho = rho / np.trace(rho).real
    return rho.astype(np.complex64).astype(complex)


def maxerr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.abs(a.astype(complex) - b.astype(complex))
    m = float(np.max(d)) if np.all(np.isfinite(d)) else float("inf")
    return m


def clone_circuit(cir, how):
    t = load().torch
    if how == "deepcopy":
        return copy.deepcopy(cir)
    if how == "pickle":
        return pickle.loads(pickle.dumps(cir))
    b = io.BytesIO()
    t.save(cir, b)
    b.seek(0)
    return t.load(b, weights_only=False)


# ---------------------------------------------------------------- evaluation routes
def wt(ng, N=4):
    return 3e-5 + 4e-6 * ng


def mps_tol(ng, N):
    return 1e-4 + 1e-5 * ng * max(1, N - 2)


class Unsupported(Exception):
    pass


def run_route(name, cir, N, gates, seed, skind):
    """Evaluate one route on the real circuit; returns numpy result.  Library exceptions pass through."""
    L = load()
    t = L.torch
    if name == "U":
        return npy(cir.U())
    if name == "Urev":
        return npy(cir.U(left_to_right=False))
    if name == "Uexp":
        return np.stack([npy(g.U_expand()) for g in cir.gate]) if cir.gate else np.zeros((0,))
    psi = make_state(N, skind, seed)
    if name in ("tn", "tn2"):
        mps = cir.TN_evolution(L.tn.StateVec2MPS(T(psi).view(1, -1), N))
        if name == "tn":
            return npy(L.tn.MPS2StateVec(mps)).reshape(-1)
        return npy(L.tn.MPS2StateVec(mps, return_sv=False)).reshape(-1)
    if name == "tnc":
        out = cir.TN_contract_evolution(L.tn.MatrixProductState(T(psi).view(1, -1), N))
        return npy(out).reshape(-1)
    if name == "tncb":
        B = 1 + seed % 4
        st = np.stack([make_state(N, skind, seed + 7 * b) for b in range(B)])
        out = cir.TN_contract_evolution(T(st).view([B] + [2] * N), batch_mod=True)
        return npy(out).reshape(B, -1)
    if name.startswith("exp"):
        M = herm(N, ["rand", "pauli", "proj"][seed % 3], seed)
        a = (T(psi).view(1, -1), T(M))
        if name == "exp":
            return npy(cir.cir_expectation(*a))
        return npy(cir.cir_expectation(*a, TN=(name == "exp_tn")))
    if name == "gradshift":
        M = herm(N, ["rand", "pauli", "proj"][seed % 3], seed)
        return npy(L.parameter_shift(cir, T(psi).view(1, -1), T(M)).cal_params_grad())
    if name == "gradadj":
        P, q = "XYZ"[seed % 3], (seed // 3) % N
        ps = L.parameter_shift(cir, T(psi).view(1, -1), T(R.local_op(N, {q: R.PAULI[P]})))
        sd, sv = ps.save_mid_MPS(getattr(L.dq, "Pauli" + P)(N, q))
        return npy(ps.cal_params_grad2(sd))
    if name == "chain":      # gate by gate through the operators' own routes, without a circuit
        x = L.tn.MatrixProductState(T(psi).view(1, -1), N)
        for g in cir.gate:
            x = g.TN_contract(x)
        return npy(x).reshape(-1)
    if name == "chain_mps":
        x = L.tn.StateVec2MPS(T(psi).view(1, -1), N)
        for g in cir.gate:
            x = g.TN_operation(x)
        return npy(L.tn.MPS2StateVec(x)).reshape(-1)
    if name == "dag":
        return np.stack([npy(g.operation_dagger().U_expand()) for g in cir.gate]) if cir.gate else np.zeros((0,))
    if name == "zero":
        return npy(cir.state_init()).reshape(-1)
    raise KeyError(name)


def ref_route(name, N, gates, seed, skind):
    ng = len(gates)
    if name == "U":
        return R.unitary(N, gates), wt(ng)
    if name == "Urev":
        return R.unitary(N, list(reversed(gates))), wt(ng)
    if name == "Uexp":
        return (np.stack([R.gate_u(N, g) for g in gates]) if gates else np.zeros((0,))), 3e-5
    psi = make_state(N, skind, seed)
    if name in ("tn", "tn2", "chain_mps"):
        return R.run(N, gates, psi), mps_tol(ng, N)
    if name in ("tnc", "chain"):
        return R.run(N, gates, psi), wt(ng)
    if name == "tncb":
        B = 1 + seed % 4
        return np.stack([R.run(N, gates, make_state(N, skind, seed + 7 * b)) for b in range(B)]), wt(ng)
    if name.startswith("exp"):
        M = herm(N, ["rand", "pauli", "proj"][seed % 3], seed)
        return np.array(R.expval(R.run(N, gates, psi), M)), 2 * mps_tol(ng, N) * size(M)
    if name == "gradshift":
        M = herm(N, ["rand", "pauli", "proj"][seed % 3], seed)
        return R.grad(N, gates, psi, M), 4 * mps_tol(ng, N) * size(M)
    if name == "gradadj":
        M = R.local_op(N, {(seed // 3) % N: R.PAULI["XYZ"[seed % 3]]})
        return R.grad(N, gates, psi, M), 4 * mps_tol(ng, N) * size(M)
    if name == "dag":
        return (np.stack([R.gate_u(N, g).conj().T for g in gates]) if gates else np.zeros((0,))), 3e-5
    if name == "zero":
        v = np.zeros(2 ** N)
        v[0] = 1
        return v, 0.0
    raise KeyError(name)


def route_supported(name, N, gates):
    if name in ("tn", "tn2", "tnc", "tncb", "chain", "chain_mps", "gradadj"):
        if not all_tn(gates, N):
            return False
    if name == "gradadj" and not gates:
        return False
    if name in ("dag", "gradadj") and any(g["k"] not in INVERTIBLE for g in gates):
        return False
    return True


def cost_ok(name, N, gates):
    """Keep single evaluations cheap."""
    np_ = sum(R.nparams(g) for g in gates)
    if name in ("gradshift", "gradadj"):
        return N <= 4 and np_ * len(gates) <= 120
    if name in ("tn", "tn2", "chain_mps", "exp", "exp_tn"):
        return (N <= 6 and len(gates) <= 14) or (N <= (8 if name[0] == "e" else 12) and len(gates) <= 8)
    return N <= 8 or name in ("tnc", "tncb", "chain", "zero")


def check_route(name, cir, N, gates, seed, skind, where=""):
    """Evaluate and compare with the reference.  Unsupported routes must raise, or be right."""
    sup = route_supported(name, N, gates)
    try:
        got = run_route(name, cir, N, gates, seed, skind)
    except Violation:
        raise
    except Exception as e:
        if sup:
            raise Violation("error:" + name, "%s route failed on a supported circuit%s: %s: %s" % (
                name, where, type(e).__name__, str(e)[:200]))
        return None
    try:
        want, tol = ref_route(name, N, gates, seed, skind)
    except KeyError:
        return got
    e = maxerr(got, want)
    if not e <= tol:
        raise Violation("wrong:" + name, "%s route%s differs from the reference by %.3g (tolerance %.3g), shape %s vs %s"
                        % (name, where, e, tol, np.shape(got), np.shape(want)))
    return got
