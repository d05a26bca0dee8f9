"""C11: observations agree across representations and when repeated."""
import contextlib
import io
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import kernel as K
from ..lib import load
from ..prng import Rng
from ..world import Violation
from . import c06

ID = "C11"
RUNS, RUNS_THOROUGH = 6500, 250000
RULE = ("a run is a laboratory holding one physical state in several representations at once (vector, rank-N tensor, "
        "matrix-product list, density matrix, density tensor, matrix-product density list), which a seeded schedule "
        "converts, evolves, reduces in stages and observes again and again, with other valid decompositions and "
        "failing calls; every observation is compared with one density-matrix model of that state; non-trivial: two or "
        "more operations; distinct by the sequence of operations, representations, qubits and functions")
SHAPE = "distinct sequences of (operation, representation, qubits, function)"
REAL = ["deepquantum.gates.qgate (measure, expecval_ZI)", "deepquantum.gates.qmath (measure, expval, ptrace, partial_trace, partial_trace_old)",
        "deepquantum.gates.qtensornetwork", "U_expand, TN_operation, TN_contract of every gate"]
STUB = ["torch.svd answers are replaced by other valid decompositions of the same matrix", "failing tensor operations"]
ASSUME = ["float32 rounding is not a difference", "states are normalised", "qubit index lists have no repeats except in "
          "measurements"]
SHRINK = ["ops"]
MUST_PROBE = ["rep:" + k for k in ("vec", "ten", "mps", "rho", "rhot", "mpdo")] + [
    "fn:" + k for k in ("measure", "expval", "local", "inner", "partial_trace", "partial_trace_old", "ptrace",
                        "cirexp", "grad", "legacy-measure")] + ["staged", "repeat", "retry", "unordered", "traced-all"]


def prepare():
    load()


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 3), (3, 5), (4, 4), (5, 1.5), (6, 0.6), (7, 0.3), (8, 0.25)])
    gk = [k for k in ("phase", "rotate", "noise") if rng.chance(0.6)]
    kinds = W.swarm_kinds(rng, N, W.TNKINDS)
    pure = rng.chance(0.6)
    st = [rng.choice(c06.KINDS) if pure else "mixed", rng.below(10 ** 6), rng.randint(1, min(4, 2 ** N)),
          rng.choice(["c64", "c64", "slice", "strided", "real"])]
    w = {"conv": rng.uniform(1, 5), "trace": rng.uniform(0.3, 3), "obs": rng.uniform(2, 6), "again": 1.5,
         "inner": 1, "evolve": rng.uniform(0, 2), "grad": 0.35, "drop": 0.3}
    ops = []
    for _ in range(rng.randint(4, 16 if N <= 4 else 9)):
        o = rng.weighted(list(w.items()))
        e, s = rng.below(1000), rng.below(10 ** 6)
        f = [rng.choice(K.FAULT_KINDS), rng.random()] if rng.chance(0.1) else None
        if o == "evolve":
            ops.append(["evolve", e, W.gen_gate(rng, N, kinds, True), f])
        elif o == "grad":
            ops.append(["grad", s, [W.gen_gate(rng, N, kinds, True) for _ in range(rng.randint(1, 3))]])
        else:
            ops.append([o, e, s, f])
    return {"N": N, "gauge": gk, "gseed": rng.below(10 ** 9), "state": st, "ops": ops}


def initial(N, st):
    kind, seed, rank, form = st
    if kind == "mixed":
        return None, W.rho_rand(N, seed, rank)
    v = c06.state(N, kind, seed)
    if form == "real":
        v = np.abs(v).astype(np.complex64).astype(complex)
        v = (v / np.linalg.norm(v)).astype(np.complex64).astype(complex)
    return v, np.outer(v, v.conj())


def layout(x, form):
    """The same tensor in another memory layout."""
    t = load().torch
    if form == "slice":
        return t.cat([x[:1] * 0 + 9, x, x[:1] * 0 - 9])[1:-1]
    if form == "strided":
        big = t.zeros(x.shape[0], 2 * x.shape[1], dtype=x.dtype)
        big[:, ::2] = x
        return big[:, ::2]
    if form == "real" and float(x.imag.abs().max()) == 0:
        return x.real.clone()
    return x


class Rep:
    """One holding of a state: kind, library object, qubits it covers, model density matrix (and vector if pure)."""

    def __init__(self, kind, obj, n, psi, rho, depth, origin):
        self.kind, self.obj, self.n, self.psi, self.rho, self.depth, self.origin = kind, obj, n, psi, rho, depth, origin
        self.version = 0

    def tol(self):
        return 1e-4 + 6e-5 * self.depth


CONV = {"vec": ["mps", "ten", "rho", "vec"], "mps": ["vec", "ten", "mps"], "ten": ["vec", "rho"],
        "rho": ["mpdo", "rhot", "rho"], "rhot": ["rho"], "mpdo": ["rho", "mpdo"]}


def convert(r, to, flag):
    L = load()
    t = L.torch
    k, x, n = r.kind, r.obj, r.n
    if k == to:
        return x.detach().clone() if not isinstance(x, list) else [y.detach().clone() for y in x]
    if k == "vec":
        if to == "mps":
            return L.tn.StateVec2MPS(x, n)
        if to == "ten":
            return L.tn.MatrixProductState(x.contiguous() + 0j, n)
        return x.reshape(-1, 1) @ L.dq.dag(x.reshape(-1, 1)) + 0j
    if k == "mps":
        return L.tn.MPS2StateVec(x) if to == "vec" else L.tn.MPS2StateVec(x, return_sv=False).reshape([2] * n)
    if k == "ten":
        v = x.reshape(1, -1) + 0j
        return v if to == "vec" else v.T @ v.conj()
    if k == "rho":
        return L.tn.Rho2MPS(x.contiguous() + 0j, n) if to == "mpdo" else L.tn.MatrixProductDensityOperator(
            x.contiguous(), n)
    if k == "rhot":
        return x.reshape(2 ** n, 2 ** n)
    return L.tn.MPS2Rho(x).reshape(2 ** n, 2 ** n)


def value(r, kind=None, obj=None):
    """Model form of a library object: vector or density matrix."""
    kind, obj = kind or r.kind, r.obj if obj is None else obj
    if kind in ("vec", "ten"):
        return W.npy(obj).reshape(-1)
    if kind == "mps":
        return dense_mps(obj)
    if kind in ("rho", "rhot"):
        return W.npy(obj).reshape(2 ** r.n, 2 ** r.n)
    return dense_mpdo(obj, r.n)


def dense_mps(lst):
    """Contract a matrix-product list with numpy."""
    cur = np.ones((1, 1), complex)
    for x in lst:
        a = W.npy(x).astype(complex)
        cur = np.einsum("pa,iab->pib", cur, a).reshape(-1, a.shape[2])
    return cur.reshape(-1)


def dense_mpdo(lst, n):
    cur = np.ones((1, 1, 1), complex)
    for x in lst:
        a = W.npy(x).astype(complex)
        cur = np.einsum("rca,ijab->ricjb", cur, a)
        s = cur.shape
        cur = cur.reshape(s[0] * s[1], s[2] * s[3], s[4])
    m = cur.reshape(2 ** n, 2 ** n)
    return m / np.trace(m)


def match(r, got, tol, what):
    ref = r.psi if got.ndim == 1 else r.rho
    e = W.maxerr(got, ref)
    if not e <= tol:
        raise Violation("state", "%s: held state is %.3g from the model (tolerance %.3g)" % (what, e, tol))


def snapshot(r):
    x = r.obj if isinstance(r.obj, list) else [r.obj]
    return (len(x),) + tuple((tuple(y.shape), W.npy(y).tobytes()) for y in x)


def execute(plan, ctx):
    L = load()
    t = L.torch
    N = plan["N"]
    gauge = K.make_gauge(Rng("c11g", plan["gseed"]), plan["gauge"], ctx.faults) if plan["gauge"] else None
    psi, rho = initial(N, plan["state"])
    if psi is None:
        pool = [Rep("rho", layout(W.T(rho), plan["state"][3]), N, None, rho, 0, ())]
    else:
        pool = [Rep("vec", layout(W.T(psi).view(1, -1), plan["state"][3]), N, psi, rho, 0, ())]
    ctx.shape.append((N, plan["state"][0], tuple(plan["gauge"])))
    history = []

    def run(fn, f, what):
        """Call through the seams; a failed call is repeated without the fault and must then work."""
        if f is not None:
            before = [snapshot(r) for r in pool]
            reg = K.Region([{"kind": f[0], "at": int(f[1] * 4) if f[0] == "linalg" else
                             int(10 ** (f[1] * (2.4 if f[0] == "interrupt_py" else 1.5)))}], gauge)
            try:
                reg.call(fn)
            except BaseException:
                if not reg.fired:
                    raise
            if reg.fired:
                ctx.fault(reg.fired[0][0])
                ctx.probe("retry")
                if [snapshot(r) for r in pool] != before:
                    raise Violation("changed", "%s failed by %s changed a held state" % (what, reg.fired[0]))
        try:
            return K.Region([], gauge).call(fn)
        except Violation:
            raise
        except Exception as e:
            raise Violation("error:" + what.split(" ")[0], "%s failed: %s: %s" % (what, type(e).__name__, str(e)[:200]))

    def ask(r, fn, want, tol, key, f, what):
        """One observation, with purity and repeatability checks."""
        before = [snapshot(x) for x in pool]
        got = run(fn, f, what)
        g = W.npy(got) if isinstance(got, t.Tensor) else np.array(got)
        if [snapshot(x) for x in pool] != before:
            raise Violation("changed", "%s changed a held state" % what)
        want = np.array(want)
        if g.size != want.size:
            raise Violation("shape", "%s has shape %s instead of %s" % (what, g.shape, want.shape))
        e = W.maxerr(g.reshape(-1), want.reshape(-1))
        if not e <= tol:
            raise Violation("wrong:" + what.split(" ")[0], "%s of a state held as %s after %s is %.3g from the model "
                            "(tolerance %.3g)" % (what, r.kind, list(r.origin), e, tol))
        history.append((key, g, what))
        return got

    for k, op in enumerate(plan["ops"]):
        f = op[-1] if op[0] not in ("grad",) else None
        if op[0] == "grad":
            gradient(N, op, ctx)
            continue
        r = pool[op[1] % len(pool)]
        ctx.probe("rep:" + r.kind)
        if op[0] == "drop":
            if len(pool) > 1:
                pool.remove(r)
            ctx.ev("drop", r.kind)
            continue
        if op[0] == "evolve":
            g = op[2]
            if r.n != N or r.kind in ("mpdo", "rhot"):
                continue
            evolve(r, g, run, f)
            ctx.shape.append(("evolve", r.kind, g["k"], str(g["w"])))
            ctx.ev("evolve", r.kind, g["k"])
            match(r, value(r), r.tol(), "%s on a state held as %s" % (g["k"], r.kind))
            continue
        q = Rng("c11", op[2])
        if op[0] == "conv":
            to = q.choice(CONV[r.kind])
            before = [snapshot(x) for x in pool]
            what = "%s-to-%s" % (r.kind, to)
            x = run(lambda: convert(r, to, q), f, what)
            if [snapshot(y) for y in pool] != before:
                raise Violation("changed", "%s changed a held state" % what)
            d = r.depth + (1 if "m" in to[:1] or r.kind == "mpdo" else 0)
            new = Rep(to, x, r.n, r.psi, r.rho, d, r.origin + (what,))
            match(new, value(new), new.tol(), "conversion %s" % what)
            pool.append(new)
            ctx.shape.append(("conv", r.kind, to, r.n))
            ctx.ev("conv", r.kind, to)
        elif op[0] == "trace":
            if r.kind != "rho":
                continue
            fn = q.choice(["partial_trace", "partial_trace_old", "ptrace"])
            m = r.n if q.chance(0.1) and fn != "ptrace" else q.randint(0 if q.chance(0.1) else min(1, r.n - 1),
                                                                       max(0, r.n - 1))
            lst = q.sample(range(r.n), m)
            if lst != sorted(lst):
                ctx.probe("unordered")
            if fn == "ptrace":
                lst = list(range(r.n - m, r.n))
                arg = None
                call = lambda: L.qmath.ptrace(r.obj, r.n - m, m)
            else:
                arg = tuple(lst) if q.chance(0.2) else list(lst)
                call = lambda: getattr(L.qmath, fn)(r.obj, r.n, arg)
            ctx.probe("fn:" + fn)
            what = "%s of qubits %s of %d" % (fn, lst, r.n)
            before = [snapshot(x) for x in pool]
            out = run(call, f, what)
            if [snapshot(x) for x in pool] != before:
                raise Violation("changed", "%s changed a held state" % what)
            if arg is not None and list(arg) != lst:
                raise Violation("changed", "%s reordered its argument" % what)
            ref = R.ptrace(r.rho, r.n, lst)
            e = W.maxerr(W.npy(out), ref)
            if not e <= r.tol():
                raise Violation("wrong:" + fn, "%s after %s is %.3g from the model" % (what, list(r.origin), e))
            if any("race" in o for o in r.origin):
                ctx.probe("staged")
            if m == r.n:
                ctx.probe("traced-all")
            elif r.n - m >= 1:
                pool.append(Rep("rho", out, r.n - m, None, ref, r.depth, r.origin + (what,)))
            ctx.shape.append(("trace", fn, tuple(lst), r.n))
            ctx.ev("trace", fn, lst)
        elif op[0] == "obs":
            observe(r, q, op[2], f, ask, ctx)
        elif op[0] == "again":
            same = [h for h in history if h[0][0] is r and h[0][4] == r.version]
            if not same:
                continue
            h = q.choice(same)
            got = ask(r, h[0][1], h[0][2], h[0][3], h[0], None, h[2])
            e = W.maxerr(W.npy(got).reshape(-1), h[1].reshape(-1))
            # the same question to the same state: the same answer (decompositions play no part in observing)
            if not e <= max(2e-6, 0.01 * h[0][3]):
                raise Violation("repeat", "%s asked again differs by %.3g from its first answer" % (h[2], e))
            ctx.probe("repeat")
            ctx.ev("again", h[2])
            ctx.shape.append(("again", h[2].split(" ")[0]))
        elif op[0] == "inner":
            ms = [x for x in pool if x.kind == "mps" and x.n == r.n]
            if not ms:
                continue
            a, b = q.choice(ms), q.choice(ms)
            want = np.vdot(b.psi, a.psi)
            v = ask(a, lambda: L.tn.MPS_inner_product(a.obj, b.obj), want, a.tol() + b.tol(), (None,), f, "inner product")
            u = ask(b, lambda: L.tn.MPS_inner_product(b.obj, a.obj), np.conj(want), a.tol() + b.tol(), (None,), None,
                    "inner product reversed")
            ctx.probe("fn:inner")
            ctx.shape.append(("inner", a.n))
            ctx.ev("inner", a.n)


def evolve(r, g, run, f):
    L = load()
    o = W.build_gate(r.n, g)
    u = R.gate_u(r.n, g)
    what = "%s on %s" % (g["k"], r.kind)
    if r.kind == "vec":
        r.obj = run(lambda: (o.U_expand() @ r.obj.reshape(-1, 1).to(L.torch.complex64)).reshape(1, -1), f, what)
    elif r.kind == "ten":
        r.obj = run(lambda: o.TN_contract(r.obj), f, what)
    elif r.kind == "mps":
        r.obj = run(lambda: o.TN_operation(list(r.obj)), f, what)
        r.depth += 1
    else:
        U = run(lambda: o.U_expand(), f, what)
        r.obj = run(lambda: U @ r.obj.to(L.torch.complex64) @ L.dq.dag(U), None, what)
    r.depth += 0.3
    r.rho = u @ r.rho @ u.conj().T
    if r.psi is not None:
        r.psi = u @ r.psi
    r.origin = r.origin + (g["k"],)
    r.version += 1


def observe(r, q, seed, f, ask, ctx):
    L = load()
    n = r.n
    if r.kind in ("vec", "rho"):
        fn = q.choice(["measure", "measure", "expval", "local"] + (["cirexp"] if r.kind == "vec" else []))
    elif r.kind == "mps":
        fn = "local"
    else:
        return
    if r.kind == "vec" and not r.obj.is_complex():
        r.obj = r.obj + 0j      # observations need a complex state
    tol = 3e-5 + r.tol() if r.depth else 5e-5
    if fn == "measure":
        ith = q.choice([None, [], q.below(n), q.sample(range(n), q.randint(1, n)),
                        [q.below(n) for _ in range(q.randint(1, n + 1))], tuple(q.sample(range(n), q.randint(1, n)))])
        qs = list(range(n)) if ith is None or (not isinstance(ith, int) and not len(ith)) else [ith] if isinstance(
            ith, int) else list(ith)
        x = r.obj
        if r.kind == "vec":
            x = q.choice([x, x.reshape(-1), x.reshape(-1, 1)])
        want = [np.trace(r.rho @ R.local_op(n, {a: R.Z})).real for a in qs]
        fun = (lambda: L.qmath.measure(n, x)) if ith is None and q.chance(0.5) else (lambda: L.qmath.measure(n, x, ith))
        what = "measure of %s" % (ith,)
        if r.kind == "rho" and q.chance(0.2):       # the legacy circuit's own measurement, which also prints
            lc = L.legacy(n)
            if len(qs) == 1:
                fun = lambda: quiet(lambda: lc.expecval_ZI(x, n, qs[0]))
            else:
                qs = list(range(n))
                want = [np.trace(r.rho @ R.local_op(n, {a: R.Z})).real for a in qs]
                fun = lambda: quiet(lambda: lc.measure(x, n))
            what = "legacy-measure of %s" % (qs,)
            ctx.probe("fn:legacy-measure")
        if qs != sorted(qs):
            ctx.probe("unordered")
    elif fn == "expval" or fn == "cirexp":
        M = W.herm(n, q.choice(["rand", "pauli", "proj"]), seed)
        MT = W.T(M)
        want = np.trace(r.rho @ M).real
        what = "%s" % fn
        tol *= W.size(M)
        if fn == "cirexp":
            c = L.Circuit(n)
            how = q.choice([None, True, False])
            x = r.obj.reshape(1, -1)
            fun = (lambda: c.cir_expectation(x, MT)) if how is None else (lambda: c.cir_expectation(x, MT, TN=how))
            tol += 2e-4 * W.size(M)
        else:
            fun = lambda: L.qmath.expval(r.obj, MT, rho=(r.kind == "rho"))
    else:
        ws = q.sample(range(n), q.randint(1, n))
        ops = {}
        for a in ws:
            h = W.herm(1, "rand", seed + a)
            if len(ws) > 1:
                h = h / W.size(h)
            ops[a] = q.choice([R.X, R.Y, R.Z, h])
        lo = [W.T(ops[a]) for a in ws]
        if r.kind == "mps" and q.chance(0.08):      # an observable applied twice on one qubit is its square there
            a = q.choice(ws)
            lo.append(W.T(ops[a]))
            ws = ws + [a]
            ops[a] = ops[a] @ ops[a]
            ctx.probe("squared")
        want = np.trace(r.rho @ R.local_op(n, ops)).real
        tol *= float(np.prod([W.size(h) for h in ops.values()]))
        what = "local %s" % ws
        if ws != sorted(ws):
            ctx.probe("unordered")
        if r.kind == "mps":
            fun = lambda: L.tn.MPS_expec(r.obj, ws, lo)
        else:
            MT = W.T(R.local_op(n, ops))
            fun = lambda: L.qmath.expval(r.obj, MT, rho=(r.kind == "rho"))
    ctx.probe("fn:" + fn)
    ask(r, fun, want, tol, (r, fun, want, tol, r.version), f, what)
    ctx.shape.append((fn, r.kind, what, n))
    ctx.ev(fn, r.kind, what)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def gradient(N, op, ctx):
    """The derivative of an observation is the same in every representation."""
    L = load()
    t = L.torch
    gates = [g for g in op[2] if g.get("p") is not None]
    if not gates or N > 4:
        return
    q = Rng("c11grad", op[1])
    psi = W.make_state(N, "random", op[1])
    qs = q.sample(range(N), q.randint(1, N))
    keep = q.sample(range(N), q.randint(1, N))
    ops = {a: q.choice([R.X, R.Y, R.Z]) for a in keep}
    for how in q.sample(["measure-vec", "measure-rho", "expval-vec", "expval-rho", "reduced", "reduced_old",
                         "kept", "mps"], 4):
        ps = [t.tensor(g["p"][0] if W.scalar_kind(g["k"]) else g["p"], requires_grad=True) for g in gates]
        c = L.Circuit(N)
        for g, p in zip(gates, ps):
            W.add_gate(c, N, g, "builder", p)
        v = c.TN_contract_evolution(L.tn.MatrixProductState(W.T(psi).view(1, -1), N)).reshape(1, -1)
        rho = v.T @ v.conj()
        M = R.local_op(N, {a: R.Z for a in qs[:1]})
        P = R.local_op(N, ops)
        rest = [a for a in range(N) if a not in keep]
        tol = 3e-4
        if how == "measure-vec":
            y = L.qmath.measure(N, v, qs)[0]
        elif how == "measure-rho":
            y = L.qmath.measure(N, rho, qs)[0]
        elif how.startswith("expval"):
            y = L.qmath.expval(v if how[-1] == "c" else rho, W.T(P), rho=how[-1] == "o")
            M = P
        elif how.startswith("reduced"):
            fn = L.qmath.partial_trace if how == "reduced" else L.qmath.partial_trace_old
            red = fn(rho, N, q.shuffle(list(rest)))
            y = L.qmath.expval(red, W.T(R.local_op(len(keep), {j: ops[a] for j, a in enumerate(sorted(keep))})), rho=True)
            M = P
        elif how == "kept":
            m = q.randint(1, N)
            red = L.qmath.ptrace(rho, m, N - m)
            o2 = {a: x for a, x in ops.items() if a < m}
            y = L.qmath.expval(red, W.T(R.local_op(m, o2)), rho=True)
            M = R.local_op(N, o2)
        else:       # a matrix-product list differentiated through one of its tensors
            mp = L.tn.StateVec2MPS(W.T(psi).view(1, -1), N)
            mps_grad(N, mp, keep, ops, q, ctx)
            continue
        want = R.grad(N, gates, psi, M)
        try:
            gr = t.autograd.grad(y, ps)
        except RuntimeError as e:
            raise Violation("error:grad", "%s has no derivative: %s" % (how, str(e)[:150]))
        got = np.concatenate([W.npy(x).reshape(-1) for x in gr])
        e = W.maxerr(got, want)
        if not e <= tol:
            raise Violation("wrong:grad", "derivative of %s through %s is wrong by %.3g" % (
                how, [g["k"] for g in gates], e))
        e = abs(float(y.detach()) - R.expval(R.run(N, gates, psi), M))
        if not e <= 1e-4:
            raise Violation("wrong:value", "%s is wrong by %.3g" % (how, e))
        ctx.probe("fn:grad")
        ctx.probe("fn:grad:" + how)
        ctx.ev("grad", how)
        ctx.shape.append(("grad", how, tuple(g["k"] for g in gates)))


def mps_grad(N, mp, keep, ops, q, ctx):
    """Observations are differentiable in every tensor of the list; derivative against a numpy difference quotient."""
    L = load()
    t = L.torch
    j = q.below(N)
    d = t.tensor([q.gauss() for _ in range(mp[j].numel())], dtype=t.complex64).view(mp[j].shape)
    s = t.tensor(0.0, requires_grad=True)
    lst = list(mp)
    lst[j] = mp[j] + s * d
    P = R.local_op(N, {a: ops[a] for a in keep})
    y = L.tn.MPS_expec(lst, keep, [W.T(ops[a]) for a in keep])
    got = float(t.autograd.grad(y, s)[0])
    v, dv = dense_mps(mp), dense_mps([d if i == j else x for i, x in enumerate(mp)])
    want = 2 * np.vdot(v, P @ dv).real
    if not abs(got - want) <= 1e-4 * (1 + abs(want)):
        raise Violation("wrong:grad", "derivative of MPS_expec in tensor %d is %.5f instead of %.5f" % (j, got, want))
    ctx.probe("fn:grad:mps")
    ctx.ev("grad", "mps")
