"""C13: encoders and matrix checks are functions of their data, in every history, under faults and concurrently."""
import copy
import io
import pickle
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import observers as O
from .. import kernel as K
from ..lib import REPO, load
from ..prng import Rng
from ..world import Violation

ID = "C13"
RUNS, RUNS_THOROUGH = 5600, 200000
RULE = ("a run is a session with up to six data sources (amplitude, Pauli and Gram encoders, state preparation, matrices for "
        "the unitary/Hermitian/normalised checks): seeded sequences of encoding, overwriting the encoded state, feeding it to a "
        "circuit, differentiating with respect to the data, saving and reloading the encoder, failed, interrupted and rejected "
        "calls, and encoding from several threads at once; every encoded state and answer is compared with the model and the "
        "data must not change; non-trivial: two or more operations; distinct by the sequence of operations, source kinds and "
        "data forms")
SHAPE = "distinct sequences of (operation, source kind, data form, size)"
REAL = ["deepquantum.embeddings.qembedding", "deepquantum.embeddings.qstate", "deepquantum.gates.qmath (IsUnitary, IsHermitian, "
        "IsNormalized, multi_kron, dag)", "circuits fed with encoded states"]
STUB = ["thread scheduling (seeded baton) in the concurrent steps", "failing tensor operations and interrupts at torch's dispatch"]
ASSUME = ["the data handed to an encoder are not changed by the caller while the encoder is used",
          "Gram encoding: non-negative data (the encoding keeps amplitudes' magnitudes only)",
          "matrix checks: exact matrices for 'true', deviations of at least 0.003 for 'false'"]
SHRINK = ["ops", "srcs"]
MUST_PROBE = ["src:amp", "src:pauli", "src:gram", "src:prep", "src:prho", "src:pred", "src:kron", "used", "overwritten", "grad",
              "reload", "rejected_call", "retry", "parallel"]


def prepare():
    L = load()
    import deepquantum.embeddings.qstate as qstate
    L.qstate = qstate
    K.scan_writes(REPO)


def gen_data(rng, n, cx):
    style = rng.weighted([("plain", 5), ("sparse", 1.5), ("equal", 1), ("tiny", 1), ("huge", 1), ("unit", 1.5), ("neg", 2)])
    sc = {"tiny": 1e-4, "huge": 1e5}.get(style, 1.0)
    out = []
    for _ in range(n):
        a = rng.uniform(0.05, 2) * (rng.choice([1, -1]) if style == "neg" else 1)
        b = rng.uniform(-2, 2)
        if style == "equal":
            a, b = 1.0, 0.0
        if style == "sparse" and rng.chance(0.6):
            a = b = 0.0
        out.append([a * sc, b * sc if cx else 0.0])
    if all(x == [0.0, 0.0] for x in out):
        out[rng.below(n)] = [1.0, 0.0]
    if style == "unit":
        s = sum(x * x + y * y for x, y in out) ** 0.5
        out = [[x / s, y / s] for x, y in out]
        if rng.chance(0.4):
            out = [[0.0, 0.0] for _ in range(n)]
            out[rng.below(n)] = [1.0, 0.0]
    return [[W.f32(x), W.f32(y)] for x, y in out]


def gen_src(rng, N):
    k = rng.weighted([("amp", 4), ("pauli", 3), ("gram", 1.2), ("prep", 1), ("prho", 1), ("pred", 3), ("kron", 1)])
    if k == "amp":
        cx = rng.chance(0.4)
        n = rng.choice([2 ** N, 2 ** N, rng.randint(1, 2 ** N)])
        return [k, N, gen_data(rng, n, cx), rng.choice(["c", "c", "strided", "grad"]) if cx else rng.choice(
            ["f32", "f32", "f64", "strided", "grad", "c", "int"])]
    if k == "pauli":
        return [k, N, rng.sample(range(N), rng.randint(1, N)), [W.gen_angle(rng) for _ in range(rng.randint(1, N))],
                rng.choice("XYZ"), rng.choice(["list", "t1", "grad", "list", "t1", "int", "ints"])]
    if k == "gram":
        n = 2 ** rng.weighted([(1, 2), (2, 2), (3, 2), (4, 0.3)])
        return [k, N, [[abs(x), 0.0] for x, _ in gen_data(rng, n, False)], rng.choice(["f32", "f32", "f64"])]
    if k in ("prep", "prho"):
        return [k, N, gen_data(rng, 2 ** N, rng.chance(0.6)), "list"]
    if k == "kron":
        return [k, N, rng.below(10 ** 6), rng.randint(1, 4)]
    return [k, rng.choice(["IsUnitary", "IsHermitian", "IsNormalized"]), rng.weighted([(1, 2), (2, 2), (3, 2), (4, 0.5), (5, 0.3)]), rng.below(10 ** 6),
            rng.choice(["exact", "exact", "perm", "broken", "broken", "scaled", "conj"])]


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 4), (3, 3), (4, 1), (5, 0.2), (6, 0.2)])
    srcs = [gen_src(rng, N if rng.chance(0.8) else rng.randint(1, 3)) for _ in range(rng.randint(1, 6))]
    ops = []
    w = {"enc": rng.uniform(2, 5), "over": rng.uniform(0, 2), "use": rng.uniform(0, 2), "grad": rng.uniform(0, 1), "reload": 0.7,
         "bad": 0.4, "fault": rng.uniform(0, 1.5), "par": rng.uniform(0, 0.5), "fresh": 0.6}
    for _ in range(rng.randint(3, 14)):
        o = rng.weighted(list(w.items()))
        e, s = rng.below(64), rng.below(10 ** 6)
        if o == "par":
            nt = rng.randint(2, 3)
            pol = rng.choice(["random", "hot", "pct", "stall", "write", "write"])
            ops.append([o, [[rng.below(64) for _ in range(rng.randint(1, 2))] for _ in range(nt)],
                        {"kind": pol, "p": 0.01 if pol == "write" else rng.choice([0.5, 0.1]), "frac": 0.2 if pol != "write" else 1.0,
                         "gap": rng.choice([0.3, 0.7]), "stay": rng.choice([1.5, 3.0]), "before": rng.chance(0.25),
                         "shared": False, "depth": 3, "h": int(10 ** rng.uniform(1.3, 3)), "s": s}])
        elif o == "fault":
            ops.append([o, e, rng.choice(K.FAULT_KINDS), rng.random()])
        elif o == "use":
            ops.append([o, e, [W.gen_gate(rng, 4, W.any_kinds(4, ["Hadamard", "rx", "cnot", "u3", "XZLayer", "toffoli", "rzz"]), True)
                               for _ in range(rng.randint(0, 3))], s])
        else:
            ops.append([o, e, s])
    return {"N": N, "srcs": srcs, "ops": ops}


def whole(v):
    """Whole numbers in place of the data, not all zero."""
    a = np.clip(np.round(v.real * 3), -50, 50)
    if not a.any():
        a[0] = 1
    return a + 0j


class Src:
    def __init__(self, spec):
        L = load()
        t = L.torch
        self.spec, self.kind = spec, spec[0]
        k = self.kind
        self.obj = None
        if k in ("amp", "gram", "prep", "prho"):
            self.v = np.array([complex(x, y) for x, y in spec[2]])
            if spec[3] == "int":
                self.v = whole(self.v)
        if k in ("amp", "gram"):
            form = spec[3]
            a = self.v if form == "c" or (form in ("strided", "grad") and np.any(self.v.imag)) else self.v.real
            x = t.tensor(a, dtype={"f64": t.float64, "int": t.int64}.get(form, t.complex64 if a.dtype == complex else t.float32))
            if form == "strided":
                big = t.zeros(2 * len(a), dtype=x.dtype)
                big[::2] = x
                x = big[::2]
            if k == "gram":
                x = x.view(1, -1)
            if form == "grad":
                x.requires_grad_(True)
            self.data = x
        if k == "amp":
            self.N = spec[1]
            self.obj = L.emb.AmplitudeEncoding(self.N, self.data)
        if k == "pauli":
            self.N = spec[1]
            if spec[5] in ("int", "ints"):
                spec = self.spec = spec[:3] + [[float(round(x)) for x in spec[3]]] + spec[4:]
                self.data = [int(x) for x in spec[3]]
                if spec[5] == "int":
                    self.data = t.tensor(self.data)
            else:
                self.data = list(spec[3]) if spec[5] == "list" else t.tensor(spec[3])
            if spec[5] == "grad":
                self.data.requires_grad_(True)
            self.wires = list(spec[2])
            self.obj = L.emb.PauliEncoding(self.N, self.data, self.wires, spec[4])
        if k in ("prep", "prho"):
            self.N = spec[1]
            self.data = [complex(z) if z.imag else int(z.real) if z.real == round(z.real) else float(z.real) for z in self.v]
        if k == "pred":
            self.mat, self.truth = matrix(spec)
            d = t.complex128 if np.iscomplexobj(self.mat) else t.float64
            if spec[4] in ("perm", "conj") and spec[3] % 2:
                d = t.complex64 if d == t.complex128 else t.float32
                if d == t.float32 and spec[3] % 4 == 1 and np.array_equal(self.mat, np.round(self.mat)):
                    d = t.int64
            self.data = t.tensor(self.mat, dtype=d)
        if k == "kron":
            r = Rng("c13k", spec[2])
            self.mats = [np.array([[complex(r.gauss(), r.gauss()) for _ in range(2)] for _ in range(2)]) for _ in range(spec[3])]
            self.data = [W.T(m) for m in self.mats]

    def call(self):
        L = load()
        k = self.kind
        if k == "amp":
            return self.obj.encoded_state()
        if k == "pauli":
            return self.obj.U_expand() + 0j
        if k == "gram":
            return L.emb.gram_encoding(self.data)
        if k == "prep":
            return L.qstate.PrepareState(self.data)
        if k == "prho":
            return L.qstate.PrepareRho(self.data)
        if k == "kron":
            m = L.qmath.multi_kron(self.data)
            return [m, L.qmath.dag(m)]
        return bool(getattr(L.qmath, self.spec[1])(self.data))

    def want(self):
        k = self.kind
        if k == "amp":
            z = np.zeros(2 ** self.N, complex)
            z[:len(self.v)] = self.v / np.linalg.norm(self.v)
            return z, 2e-6
        if k == "pauli":
            return R.gate_u(self.N, {"k": "PauliEncoding", "w": self.spec[2], "x": self.spec[3], "pauli": self.spec[4]}), 5e-6
        if k == "gram":
            a = np.abs(self.v) / np.linalg.norm(self.v)
            return np.outer(a, a), 3e-6
        if k == "prep":
            return self.v, 1e-6 * max(1.0, np.abs(self.v).max())
        if k == "prho":
            return np.outer(self.v, self.v.conj()), 1e-6 * max(1e-20, np.abs(self.v).max() ** 2) * 4
        if k == "kron":
            m = self.mats[0]
            for x in self.mats[1:]:
                m = np.kron(m, x)
            s = 3e-6 * max(1.0, np.abs(m).max())
            return [m, m.conj().T], s
        return self.truth, 0.0

    def judge(self, got, where):
        ref, tol = self.want()
        e = O.diff(got, ref)
        if not e <= tol:
            raise Violation("wrong:" + (self.spec[1] if self.kind == "pred" else self.kind),
                            "%s%s is %s from the model (tolerance %.3g); answer %s" % (
                                self.spec[:2], where, "%.3g" % e, tol, str(got)[:80]))

    def check(self, where=""):
        try:
            raw = self.call()
        except Exception as e:
            raise Violation("error:" + self.kind, "%s failed%s: %s: %s" % (self.spec[:2], where, type(e).__name__, str(e)[:200]))
        self.judge(O.arr(raw), where)
        return raw

    def frozen(self):
        x = [O.frozen(self.data)]
        if self.kind == "pauli":
            x.append(tuple(self.wires))
        return x


def matrix(spec):
    """A matrix (or vector) and whether the named check must accept it; deviations are far from the tolerance."""
    _, fn, n, seed, kind = spec
    r = Rng("c13m", seed, kind)
    d = 2 ** n if seed % 3 else n + 1

    def ortho():
        a = np.array([[complex(r.gauss(), r.gauss()) for _ in range(d)] for _ in range(d)])
        return np.linalg.qr(a)[0]
    if fn == "IsNormalized":
        v = np.array([complex(r.gauss(), r.gauss()) for _ in range(d)])
        v /= np.linalg.norm(v)
        if kind == "perm":
            v = np.zeros(d, complex)
            v[r.below(d)] = r.choice([1, -1, 1j])
        if kind == "conj":
            v = np.abs(v)
        if kind == "broken":
            v[r.below(d)] += 10 ** r.uniform(-3.2, -1.5) * r.choice([1, -1, 1j])
        if kind == "scaled":
            v = v * r.choice([0.9, 1.01, 2.0, -3.0])
            if seed % 2 and d > 1:      # normalised up to some position, too much (or not enough) in the rest
                i = r.randint(1, d - 1)
                v[:i] /= np.linalg.norm(v[:i])
                v[i:] *= r.choice([0.1, 1.0])
        dev = abs(np.linalg.norm(v) ** 2 - 1)
        if 1e-7 <= dev <= 1e-4:
            v, dev = np.eye(d)[0], 0
        return v, bool(dev < 1e-7)
    if fn == "IsHermitian":
        u = ortho()
        m = u @ np.diag([r.uniform(-2, 2) for _ in range(d)]) @ u.conj().T
        m = (m + m.conj().T) / 2
        if kind == "perm":
            m = np.round(m * 4) / 4
        if kind == "conj":
            m = m.real
        if kind == "scaled":
            m = m * 1j if seed % 2 else m * 3.0
        if kind == "broken":
            i, j = r.below(d), r.below(d)
            m = m.astype(complex)
            m[i, j] += 10 ** r.uniform(-3.2, -1.5) * (r.choice([1, 1j]) if i != j else 1j)
        return m, bool(np.abs(m - m.conj().T).max() < 1e-7)
    m = ortho()
    if kind == "perm":
        m = np.zeros((d, d), complex)
        for i, j in enumerate(r.shuffle(list(range(d)))):
            m[i, j] = r.choice([1, -1, 1j, -1j])
    if kind == "conj":
        m = np.eye(d)[r.shuffle(list(range(d)))]
    if kind == "scaled":        # rows orthogonal, one row too long - or rows normalised, two of them parallel
        if seed % 2 or d == 1:
            m[r.below(d)] *= 1.02
        else:
            i = r.below(d - 1)
            m[d - 1] = m[i] * 1j
    if kind == "broken":
        m[r.below(d), r.below(d)] += 10 ** r.uniform(-3.2, -1.3) * r.choice([1, 1j, -1])
        if seed % 4 < 2:        # every row normalised, two of them not quite orthogonal
            m = m / np.linalg.norm(m, axis=1, keepdims=True)
    dev = np.abs(m @ m.conj().T - np.eye(d)).max()
    if 1e-7 <= dev <= 3e-4:
        m = np.eye(d)
        dev = 0
    return m, bool(dev < 1e-7)


def use(s, raw, gates, seed, ctx):
    """Feed the encoded state (or the encoding layer) to a circuit and observe it."""
    L = load()
    t = L.torch
    if s.kind not in ("amp", "pauli"):
        return False
    gates = [g for g in gates if all(q < s.N for q in (g["w"] if isinstance(g["w"], list) else [g["w"]]))]
    r = Rng("c13use", seed)
    if s.kind == "amp":
        psi = s.want()[0]
        x = raw.detach().view(1, -1).to(t.complex64)         # the precision of the answer is the library's choice
    elif s.kind == "pauli":
        psi = W.make_state(s.N, "random", seed)
        x = W.T(psi).view(1, -1)
        if r.chance(0.5):
            x = L.tn.MPS2StateVec(s.obj.TN_operation(L.tn.StateVec2MPS(x, s.N))).detach()
        else:
            x = s.obj.TN_contract(L.tn.MatrixProductState(x, s.N)).reshape(1, -1).detach()
        psi = R.run(s.N, [{"k": "PauliEncoding", "w": s.spec[2], "x": s.spec[3], "pauli": s.spec[4]}], psi)
    else:
        return False
    cir = W.build_circuit(s.N, gates)
    out = R.run(s.N, gates, psi)
    M = W.herm(s.N, "rand", seed)
    how = r.choice(["exp", "exp_dense", "measure"])
    if how == "measure":
        got = L.qmath.measure(s.N, cir.U() @ x.view(-1, 1))
        ref = np.array([R.expval(out, R.local_op(s.N, {q: R.Z})) for q in range(s.N)])
    else:
        got = cir.cir_expectation(x, W.T(M), TN=(how == "exp"))
        ref = np.array(R.expval(out, M))
    e = W.maxerr(W.npy(got), ref)
    tol = 3 * W.mps_tol(len(gates) + 1, s.N) * W.size(M)
    if not e <= tol:
        raise Violation("wrong:use", "%s of %s after %d gates is %.3g from the model" % (how, s.spec[:2], len(gates), e))
    return True


def gradient(s, seed):
    """Derivative of an expectation value with respect to the encoded data."""
    L = load()
    t = L.torch
    if s.kind not in ("amp", "pauli") or s.spec[-1] != "grad":
        return False
    M = W.herm(s.N, "rand", seed)
    if s.kind == "amp":
        if s.data.is_complex():
            return False
        f = s.obj.encoded_state().view(-1, 1)
        x = s.v.real
        n2 = float(x @ x)
        A = M[:len(x), :len(x)]
        e = float((x @ A @ x).real) / n2
        ref = (2 * (A @ x).real - 2 * e * x) / n2
        tol = 2e-5 / n2 ** 0.5
    else:
        psi = W.make_state(s.N, "random", seed)
        f = (s.obj.U_expand() + 0j) @ W.T(psi).view(-1, 1)
        gs = [{"k": "r" + s.spec[4].lower(), "w": q, "p": [s.spec[3][i % len(s.spec[3])]]} for i, q in enumerate(s.spec[2])]
        g = R.grad(s.N, gs, psi, M)
        ref = np.zeros(len(s.spec[3]))
        for i, v in enumerate(g):
            ref[i % len(ref)] += v
        tol = 1e-4
    f = f.to(t.complex64)
    e = (f.conj().T @ W.T(M) @ f).real.squeeze()
    try:
        got = t.autograd.grad(e, s.data)[0]
    except RuntimeError as err:
        raise Violation("grad", "no derivative with respect to the data of %s: %s" % (s.spec[:2], str(err)[:150]))
    d = W.maxerr(W.npy(got), ref)
    if not d <= tol * W.size(M):
        raise Violation("grad", "derivative with respect to the data of %s is %.3g from the model (tolerance %.3g)" % (
            s.spec[:2], d, tol))
    return True


def reject(k, ctx):
    L = load()
    t = L.torch
    fs = [lambda: L.emb.AmplitudeEncoding(2, t.ones(5)), lambda: L.emb.PauliEncoding(2, [0.1, 0.2, 0.3], [0, 1]),
          lambda: L.emb.PauliEncoding(2, [0.1], [0, 1], "Q").U_expand(), lambda: L.qmath.IsUnitary(t.ones(2, 3)),
          lambda: L.qmath.IsNormalized(t.ones(2, 2)), lambda: L.qmath.IsHermitian(t.ones(3, 2)), lambda: L.qmath.dag(t.ones(3))]
    try:
        fs[k % len(fs)]()
    except Exception:
        ctx.fault("rejected_call")
        return
    raise Violation("accepted", "malformed call %d was accepted" % (k % len(fs)))


def execute(plan, ctx):
    L = load()
    srcs = [Src(s) for s in plan["srcs"]]
    if not srcs:
        return
    fz = [s.frozen() for s in srcs]
    for s in srcs:
        ctx.probe("src:" + s.kind)
    glob = O.globals_state()
    last = None

    def still(what):
        for s, f in zip(srcs, fz):
            if s.frozen() != f:
                raise Violation("changed", "%s changed the data of %s" % (what, s.spec[:2]))
        d = O.dict_diff(glob, O.globals_state())
        if d:
            raise Violation("changed-global", "%s changed %s" % (what, d))

    for op in plan["ops"]:
        o = op[0]
        if o == "par":
            tasks = [[srcs[k % len(srcs)] for k in lst] for lst in op[1]]

            def body(lst):
                def f():
                    for s in lst:
                        s.check(" in a thread")
                return f
            sc = K.Scheduler([body(x) for x in tasks], K.make_policy(op[2], Rng("c13s", op[2]["s"]), len(tasks), op[2]["h"]))
            sc.run()
            ctx.fault("context_switch", len(sc.switches))
            ctx.steps += sc.step
            if sc.aborting is not None:
                raise Violation("deadlock", str(sc.aborting))
            for t in sc.tasks:
                if t.error is not None:
                    raise t.error
            ctx.probe("parallel")
            ctx.ev("par", sc.trace)
            ctx.shape.append(("par", [[s.kind for s in x] for x in tasks]))
            still("encoding in threads")
            continue
        s = srcs[op[1] % len(srcs)]
        ctx.ev(o, s.kind)
        ctx.shape.append((o, s.kind, str(s.spec[-1])[:8], s.spec[1]))
        if o == "enc":
            last = s.check(" at a later call" if last is not None else "")
        elif o == "over" and s.kind == "kron":      # one factor is its own product, and dag is a view
            s.check()
        elif o == "over":
            last = s.check()
            for x in last if isinstance(last, list) else [last]:
                if isinstance(x, L.torch.Tensor):
                    with L.torch.no_grad():
                        x.detach().fill_(7.5)
            s.check(" after its returned value was overwritten")
            ctx.probe("overwritten")
        elif o == "use":
            raw = s.check()
            if use(s, raw, op[2], op[3], ctx):
                ctx.probe("used")
        elif o == "grad":
            if gradient(s, op[2]):
                ctx.probe("grad")
        elif o == "fresh":
            s2 = Src(s.spec)
            s2.check(" by a second encoder of the same data")
            s.check()
        elif o == "reload":
            if s.obj is None or s.spec[-1] == "grad":
                continue
            q = Src(s.spec)
            if op[2] % 2:
                q.obj = pickle.loads(pickle.dumps(s.obj))
            else:
                b = io.BytesIO()
                L.torch.save(s.obj, b)
                b.seek(0)
                q.obj = L.torch.load(b, weights_only=False)
            q.check(" after saving and reloading")
            if op[2] % 3 == 0:
                q.obj = copy.deepcopy(s.obj)
                q.check(" by a copy")
            ctx.probe("reload")
        elif o == "bad":
            reject(op[2], ctx)
        elif o == "fault":
            reg = K.Region([{"kind": op[2], "at": int(10 ** (op[3] * (2.4 if op[2] == "interrupt_py" else 1.5)))}])
            try:
                reg.call(s.call)
            except BaseException:
                if not reg.fired:
                    raise
            if reg.fired:
                ctx.fault(reg.fired[0][0])
                ctx.probe("retry")
                still("a failed call of %s" % s.kind)
            s.check(" after a failed call")
        still("%s of %s" % (o, s.kind))
