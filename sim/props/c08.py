"""C08: members of a batch never influence each other."""
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import kernel as K
from ..lib import load, load_quanv
from ..prng import Rng
from ..world import Violation

ID = "C08"
RUNS, RUNS_THOROUGH = 4000, 160000
RULE = ("a run is a simulated batching server: requests (normalised, unnormalised, not-a-number, infinite, zero "
        "members; images with corrupted pixels) are grouped, ordered, split, duplicated and regrouped between gates by "
        "a seeded scheduler, some batched calls fail and are repeated; every uncorrupted member and image window must "
        "equal the reference for it alone; non-trivial: two or more dispatches; distinct by gate kinds and qubits, "
        "member kinds and the grouping of every dispatch")
SHAPE = "distinct (gate kinds, qubits, member kinds, groupings)"
REAL = ["TN_contract of every gate and layer", "deepquantum.gates.qcircuit.TN_contract_evolution",
        "deepquantum.nn.modules.quanv.QuanConv2D"]
STUB = ["failing tensor operations and interrupts at torch's function dispatch",
        "the batching front end is part of the simulation"]
ASSUME = ["float32 tolerances relative to the member's own norm", "a corrupted member's own answer is only required to "
          "be corrupted exactly when it is corrupted alone"]
SHRINK = ["members", "gates", "rounds", "imgs"]
MKINDS = ["norm", "norm", "norm", "big", "small", "nan", "inf", "zero", "nan1", "huge"]
MUST_PROBE = ["regrouped", "corrupt-member", "grad", "conv", "corrupt-pixel", "dup", "whole-circuit"]


def prepare():
    load_quanv()


def gen(rng, tier, i):
    if rng.chance(0.22):
        k, s = 2, rng.choice([1, 2, 2, 3])
        imgs = []
        h, w = rng.randint(2, 5), rng.randint(2, 5)
        while ((h - k) // s + 1) * ((w - k) // s + 1) > 9:
            h, w = rng.randint(2, 5), rng.randint(2, 5)
        rough = rng.chance(0.2)
        few = ((h - k) // s + 1) * ((w - k) // s + 1) <= 2 and rng.chance(0.3)
        for _ in range(rng.randint(4, 9) if few else rng.randint(1, 3)):
            bad = [[rng.below(h), rng.below(w), rng.choice(["nan", "inf", "huge"])] for _ in
                   range(rng.weighted([(0, 3), (1, 3), (2, 1)]) if not rough else rng.randint(1, 3))]
            imgs.append([rng.below(10 ** 6), bad])
        rounds = []
        for _ in range(rng.randint(1, 3)):
            rounds.append([rng.sample(range(len(imgs)), rng.randint(1, len(imgs))),
                           [rng.choice(K.FAULT_KINDS), rng.random()] if rng.chance(0.2) else None])
        return {"mode": "conv", "h": h, "w": w, "s": s, "imgs": imgs, "rounds": rounds, "seed": rng.below(10 ** 6),
                "grad": rng.chance(0.4)}
    N = rng.weighted([(1, 1), (2, 2), (3, 4), (4, 4), (5, 2), (6, 0.8), (8, 0.2), (10, 0.15), (11, 0.1)])
    kinds = W.swarm_kinds(rng, N, W.TNKINDS)
    gates = [W.gen_gate(rng, N, kinds, True) for _ in range(rng.randint(1, 6))]
    m = rng.weighted([(1, 0.5), (2, 2), (3, 2), (4, 2), (5, 1), (7, 1), (8, 0.6), (16, 0.3), (33, 0.15), (65, 0.1 if N <= 6 else 0)])
    members = [[rng.choice(MKINDS if rng.chance(0.6) else ["norm"]), rng.choice(W.STATES), rng.below(10 ** 6)]
               for _ in range(m)]
    mode = rng.choice(["regroup", "regroup", "whole", "grad"])
    rounds = []
    for _ in range(rng.randint(1, 3)):
        rounds.append([rng.below(10 ** 6), rng.choice(["all", "random", "single", "random"]),
                       rng.choice(["plain", "plain", "expand", "strided"]),
                       [rng.choice(K.FAULT_KINDS), rng.random()] if rng.chance(0.15) else None,
                       rng.below(10 ** 6) if rng.chance(0.3) else None])
    return {"mode": mode, "N": N, "gates": gates, "members": members, "rounds": rounds}


def member(N, m):
    v = W.make_state(N, m[1], m[2])
    r = Rng("mem", m[2])
    k = m[0]
    if k == "big":
        v = v * r.uniform(2, 500)
    elif k == "small":
        v = v * 10.0 ** (-r.uniform(1, 4))
    elif k == "huge":
        v = v * 1e18
    elif k == "zero":
        v = v * 0
    elif k == "nan":
        v = v * np.nan
    elif k == "inf":
        v = np.full(2 ** N, np.inf + 0j)
    elif k == "nan1":
        v = v.copy()
        v[r.below(2 ** N)] = np.nan
    with np.errstate(invalid="ignore"):
        return v.astype(np.complex64).astype(complex)


def clean(k):
    return k not in ("nan", "inf", "nan1")


def partition(rng, idx, how):
    """Split a list of requests into ordered groups."""
    idx = rng.shuffle(list(idx))
    if how == "all":
        return [idx]
    if how == "single":
        return [[i] for i in idx]
    out = []
    while idx:
        n = rng.randint(1, len(idx))
        g, idx = idx[:n], idx[n:]
        if rng.chance(0.15):
            g = g + [rng.choice(g)]
        out.append(g)
    return out


def pack(st, N, layout):
    """The same batch in different memory layouts."""
    t = load().torch
    B = len(st)
    x = W.T(np.stack(st)).view([B] + [2] * N)
    if layout == "expand" and all(np.array_equal(s, st[0], equal_nan=True) for s in st):
        return W.T(st[0]).view([1] + [2] * N).expand([B] + [2] * N)
    if layout == "strided":
        big = t.full([2 * B] + [2] * N, float("nan"), dtype=x.dtype)
        big[::2] = x
        return big[::2]
    return x


def attempt(fn, fault, ctx):
    if fault is not None:
        at = int(10 ** (fault[1] * (2.6 if fault[0] == "interrupt_py" else 1.5)))
        reg = K.Region([{"kind": fault[0], "at": at}])
        try:
            reg.call(fn)
        except BaseException:
            if not reg.fired:
                raise
        if reg.fired:
            ctx.fault(reg.fired[0][0])
    return fn()


def judge(kinds, vals, refs, st, what, depth):
    for i, (k, v, rf) in enumerate(zip(kinds, vals, refs)):
        if not clean(k[0]):
            continue
        n = np.linalg.norm(st[i])
        e = W.maxerr(v, rf)
        tol = (3e-5 + 4e-6 * depth) * max(n, 1e-30)
        if not e <= tol:
            raise Violation("influenced", "%s: member %d of %s (%s) is %.3g away from its own result (tolerance %.3g)"
                            % (what, i, [m[0] for m in kinds], k[0], e, tol))


def corrupt(cir, N, mem, st, vals):
    """A corrupted member is corrupted exactly when it is processed alone."""
    for i, m in enumerate(mem):
        if not clean(m[0]):
            alone = W.npy(cir.TN_contract_evolution(pack([st[i]], N, "plain"), batch_mod=True))
            if np.all(np.isfinite(alone)) != np.all(np.isfinite(vals[i])):
                raise Violation("influenced", "a corrupted member (%s) is finite %s" % (
                    m[0], "alone only" if np.all(np.isfinite(alone)) else "in the batch only"))


def execute(plan, ctx):
    if plan["mode"] == "conv":
        return conv(plan, ctx)
    L = load()
    t = L.torch
    N = plan["N"]
    gates = [dict(g) for g in plan["gates"]]
    mem = plan["members"]
    if not mem or not gates:
        return
    st = [member(N, m) for m in mem]
    cir = W.build_circuit(N, gates)
    ctx.shape.append((N, plan["mode"], tuple((g["k"], str(g["w"])) for g in gates), tuple(m[0] for m in mem)))
    if any(not clean(m[0]) for m in mem):
        ctx.probe("corrupt-member")
    for seed, how, layout, fault, upd in plan["rounds"]:
        r = Rng("c08", seed)
        if upd is not None:
            ps = [j for j, g in enumerate(gates) if g.get("p") is not None]
            if ps:
                j = ps[upd % len(ps)]
                p = W.next_params(gates[j], r)
                gates[j] = dict(gates[j], p=p)
                cir.gate[j].params_update(W.make_params(p, "t1", W.scalar_kind(gates[j]["k"])))
        with np.errstate(all="ignore"):
            refs = [R.run(N, gates, s) for s in st]
        names = [(g["k"], g["w"]) for g in gates]
        if plan["mode"] == "whole":
            vals = [None] * len(mem)
            for grp in partition(r, range(len(mem)), how):
                x = pack([st[i] for i in grp], N, layout)
                out = W.npy(attempt(lambda: cir.TN_contract_evolution(x, batch_mod=True), fault, ctx))
                if out.shape != (len(grp),) + (2,) * N:
                    raise Violation("shape", "a batch of %d came back with shape %s" % (len(grp), out.shape))
                for i, v in zip(grp, out.reshape(len(grp), -1)):
                    vals[i] = v
                if len(set(grp)) < len(grp):
                    ctx.probe("dup")
                ctx.ev("batch", grp, layout)
                ctx.shape.append((tuple(grp), layout))
            judge(mem, vals, refs, st, "circuit %s in batches" % names, len(gates))
            corrupt(cir, N, mem, st, vals)
            ctx.probe("whole-circuit")
        elif plan["mode"] == "regroup":
            cur = [s.copy() for s in st]
            for gi, g in enumerate(cir.gate):
                for grp in partition(r, range(len(mem)), how):
                    x = pack([cur[i] for i in grp], N, layout)
                    if len(grp) == 1 and r.chance(0.4):
                        out = W.npy(attempt(lambda: g.TN_contract(x[0]), fault, ctx))[None]
                    else:
                        out = W.npy(attempt(lambda: g.TN_contract(x, batch_mod=True), fault, ctx))
                    if out.shape != (len(grp),) + (2,) * N:
                        raise Violation("shape", "a batch of %d came back from %s with shape %s" % (
                            len(grp), gates[gi]["k"], out.shape))
                    for i, v in zip(grp, out.reshape(len(grp), -1)):
                        cur[i] = v
                    if len(set(grp)) < len(grp):
                        ctx.probe("dup")
                    ctx.ev("gate", gi, grp)
                    ctx.shape.append((gi, tuple(grp), layout))
                fault = None
            corrupt(cir, N, mem, st, cur)
            judge(mem, cur, refs, st, "%s with members regrouped between gates" % names, len(gates))
            ctx.probe("regrouped")
        else:
            # loss on one member: the others' gradient is exactly zero, its own is the true derivative
            grp = partition(r, [i for i, m in enumerate(mem) if m[0] in ("norm", "big", "small", "zero")], "all")[0]
            if not grp:
                continue
            x = pack([st[i] for i in grp], N, "plain").requires_grad_(True)
            out = cir.TN_contract_evolution(x, batch_mod=True)
            b = r.below(len(grp))
            w = W.make_state(N, "random", seed)
            loss = (out[b].reshape(-1) * W.T(w.conj())).sum()
            gr = W.npy(t.autograd.grad(loss.real, [x])[0]).reshape(len(grp), -1)
            want = R.unitary(N, gates).conj().T @ w
            for i in range(len(grp)):
                e = W.maxerr(gr[i], want if i == b else np.zeros(2 ** N))
                if not e <= (3e-5 + 5e-6 * len(gates) if i == b else 0.0):
                    raise Violation("influenced:grad", "the loss of member %d has a gradient at member %d that is "
                                    "wrong by %.3g (batch of %d, %s)" % (b, i, e, len(grp), names))
            ctx.ev("grad", grp, b)
            ctx.shape.append(("grad", tuple(grp), b))
            ctx.probe("grad")


BADV = {"nan": np.nan, "inf": np.inf, "huge": 1e30}


def conv(plan, ctx):
    L = load_quanv()
    t = L.torch
    h, w, s, k, n = plan["h"], plan["w"], plan["s"], 2, 4
    r = Rng("c08conv", plan["seed"])
    m = L.quanv.QuanConv2D(n, s, k)
    with t.no_grad():
        m.weight.copy_(W.TR(np.array([r.uniform(0, 6.28) for _ in range(12)])))
    weff = W.npy(m.weight).astype(float) * m.w_mul
    imgs, bad = [], []
    for seed, corrupt in plan["imgs"]:
        q = Rng("c08img", seed)
        a = np.array([[q.uniform(0, 1) for _ in range(w)] for _ in range(h)]).astype(np.float32)
        b = np.zeros((h, w), bool)
        for y, x, kind in corrupt:
            a[y, x] = BADV[kind]
            b[y, x] = True
        imgs.append(a)
        bad.append(b)
        if corrupt:
            ctx.probe("corrupt-pixel")
    oh, ow = (h - k) // s + 1, (w - k) // s + 1
    ref = {}
    ctx.shape.append(("conv", h, w, s, tuple(tuple(map(tuple, c[1])) for c in plan["imgs"])))

    def want(i, y, x):
        if (i, y, x) not in ref:
            ref[i, y, x] = R.conv_window(imgs[i][y * s:y * s + k, x * s:x * s + k].reshape(-1), weff, n)
        return ref[i, y, x]

    def alone(b, i, y, x, out):
        """A corrupted window is corrupted exactly when it is processed alone."""
        if (i, y, x, "ok") not in ref:
            with t.no_grad():
                one = W.npy(m(W.TR(imgs[i][y * s:y * s + k, x * s:x * s + k][None, None])))
            ref[i, y, x, "ok"] = bool(np.all(np.isfinite(one)))
        if bool(np.all(np.isfinite(out[b, :, y, x]))) != ref[i, y, x, "ok"]:
            raise Violation("influenced:corrupt", "output position (%d,%d) of image %d is a number %s" % (
                y, x, i, "alone only" if ref[i, y, x, "ok"] else "in its batch only"))
        ctx.probe("corrupt-alone")
    for grp, fault in plan["rounds"]:
        grp = [i for i in grp if i < len(imgs)]
        if not grp:
            continue
        x = W.TR(np.stack([imgs[i] for i in grp])[:, None])
        with t.no_grad():
            out = W.npy(attempt(lambda: m(x), fault, ctx))
        if out.shape != (len(grp), n, oh, ow):
            raise Violation("shape", "convolution of a %dx%d image with stride %d has shape %s" % (h, w, s, out.shape))
        for b, i in enumerate(grp):
            for yy in range(oh):
                for xx in range(ow):
                    if bad[i][yy * s:yy * s + k, xx * s:xx * s + k].any():
                        alone(b, i, yy, xx, out)
                        continue
                    e = W.maxerr(out[b, :, yy, xx], want(i, yy, xx))
                    if not e <= 1e-4:
                        raise Violation("influenced:window", "output position (%d,%d) of image %d in batch %s is %.3g "
                                        "from its window's own result; corrupted pixels elsewhere: %s" % (
                                            yy, xx, i, grp, e, [c[1] for c in plan["imgs"]]))
        ctx.ev("conv", grp)
        ctx.shape.append(tuple(grp))
        ctx.probe("conv")
    if plan["grad"] and not any(b.any() for b in bad) and imgs:
        x = W.TR(np.stack(imgs)[:, None]).requires_grad_(True)
        out = m(x)
        b, yy, xx = r.below(len(imgs)), r.below(oh), r.below(ow)
        g = W.npy(t.autograd.grad(out[b, :, yy, xx].sum(), [x])[0])[:, 0]
        inside = np.zeros(g.shape, bool)
        inside[b, yy * s:yy * s + k, xx * s:xx * s + k] = True
        if np.abs(g[~inside]).max(initial=0) != 0:
            raise Violation("influenced:pixelgrad", "output position (%d,%d) has a gradient outside its window" % (yy, xx))
        ctx.ev("convgrad", b, yy, xx)
        ctx.probe("conv-grad")
