"""C12: quantum convolution is a function of weights and input only."""
import copy
import io
import pickle
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import observers as O
from .. import kernel as K
from ..lib import load_quanv
from ..prng import Rng
from ..world import Violation

ID = "C12"
RUNS, RUNS_THOROUGH = 1000, 40000
RULE = ("a run is a training session with up to two convolution layers: seeded forward calls, losses, optimiser steps, "
        "accumulated gradients, in-place and replaced weights, reloads, copies, mode switches, reseeding and failed or "
        "interrupted calls; every output, weight gradient, pixel gradient and weight after a step is compared with a "
        "per-window reference circuit; non-trivial: two or more operations; distinct by the sequence of operations "
        "with layer, sizes, strides and faults")
SHAPE = "distinct sequences of (operation, layer, image shape, stride, optimiser, fault)"
REAL = ["deepquantum.nn.modules.quanv (QuanConv2D, Net)", "deepquantum.gates.qmath.measure", "deepquantum.gates.qcircuit",
        "torch optimisers and autograd"]
STUB = ["failing tensor operations and interrupts at torch's function dispatch and where CPython delivers signals"]
ASSUME = ["kernel size 2 or 3 (a 1x1 kernel has no two qubits for its CNOT ring and is rejected)",
          "only channel 0 of the input is read", "single-precision images and weights"]
SHRINK = ["ops"]
MUST_PROBE = ["fwd", "step", "inplace", "reload", "mode", "fault", "bad", "accum", "pixelgrad", "two-layers", "no-window",
              "opt:sgd", "opt:adam", "opt:momentum", "opt:rmsprop", "net", "kernel3", "stream"]


def prepare():
    load_quanv()


def nwin(h, w, k, s):
    return max(0, (h - k) // s + 1) * max(0, (w - k) // s + 1)


def gen_img(rng, k, s, top=9):
    while True:
        h, w = rng.randint(1, 6), rng.randint(1, 6)
        if k == 3:
            h, w = rng.randint(3, 4), rng.randint(3, 5)
        elif top == 9 and rng.chance(0.02):       # a larger picture
            h, w, top = rng.randint(5, 12), rng.randint(5, 12), 30
        n = nwin(h, w, k, s)
        if n <= top and (n or rng.chance(0.1)):
            break
    b = rng.choice([1, 1, 2, 3]) if n <= 4 and k == 2 else 1
    if n <= 1 and k == 2 and rng.chance(0.2):
        b = rng.randint(4, 9)
    return [b, rng.weighted([(1, 5), (2, 1), (3, 1)]), h, w, rng.below(10 ** 6),
            rng.choice(["plain", "plain", "wide", "strided", "permuted", "int", "expand"])]


def gen(rng, tier, i):
    if i % 400 == 7:
        return {"mode": "net", "seed": rng.below(10 ** 6)}
    k = 3 if i % 100 == 3 else 2
    layers = [[k, rng.choice([1, 1, 2, 2, 3, 4]), rng.below(10 ** 6), rng.choice([None, None, [2.0, True, 1],
              [1.0, False, 1], [2 ** 0.5, True, 0.5], [0.7, False, 2.0]])] for _ in range(rng.choice([1, 1, 2]))]
    if k == 3:
        layers = layers[:1]
    ops = []
    for _ in range(rng.randint(2, 9) if k == 2 else 2):
        o = rng.weighted([("fwd", 4), ("step", 3), ("inplace", 1.2), ("reload", 1), ("mode", 0.7), ("bad", 0.5),
                          ("rng", 0.6), ("accum", 0.6), ("pixel", 0.6), ("zero", 0.3), ("stream", 0.5)])
        m = rng.below(len(layers))
        s = layers[m][1]
        flt = [rng.choice(K.FAULT_KINDS), rng.random()] if rng.chance(0.25) else None
        if o in ("fwd", "accum", "pixel"):
            ops.append([o, m, gen_img(rng, k, s, 9 if k == 2 else 2), rng.below(10 ** 6), flt])
        elif o == "step":
            ops.append([o, m, gen_img(rng, k, s, 6 if k == 2 else 1), rng.below(10 ** 6),
                        rng.choice(["sgd", "momentum", "adam", "rmsprop"]), flt])
        else:
            ops.append([o, m, rng.below(10 ** 6)])
    return {"mode": "train", "layers": layers, "ops": ops}


def image(im):
    """(tensor, numpy of channel 0)"""
    t = load_quanv().torch
    b, c, h, w, seed, form = im
    r = Rng("c12img", seed)
    lo, hi = (-2, 3) if form == "wide" else (0, 1)
    a = np.array([r.uniform(lo, hi) for _ in range(b * c * h * w)]).reshape(b, c, h, w).astype(np.float32)
    if form == "int":
        a = np.round(a)
        return t.tensor(a.astype(np.int64)), a[:, 0]
    if form == "expand":
        a = np.repeat(a[:1], b, axis=0)
        return W.TR(a[:1]).expand(b, c, h, w), a[:, 0]
    x = W.TR(a)
    if form == "strided":
        big = t.full((b, c, 2 * h, 2 * w), 7.0)
        big[:, :, ::2, ::2] = x
        x = big[:, :, ::2, ::2]
    elif form == "permuted":
        x = x.permute(0, 1, 3, 2).contiguous().permute(0, 1, 3, 2)
    return x, a[:, 0]


class Layer:
    def __init__(self, m, k, s):
        self.m, self.k, self.s, self.n = m, k, s, k * k
        self.w = W.npy(m.weight).astype(float).copy()
        self.mul = float(m.w_mul)
        self.opts = {}

    def ref(self, a, w=None):
        """Reference outputs for channel-0 images a."""
        w = (self.w if w is None else w) * self.mul
        B, h, wd = a.shape
        oh, ow = (h - self.k) // self.s + 1, (wd - self.k) // self.s + 1
        out = np.zeros((B, self.n, oh, ow))
        for b in range(B):
            for y in range(oh):
                for x in range(ow):
                    out[b, :, y, x] = R.conv_window(a[b, y * self.s:y * self.s + self.k,
                                                      x * self.s:x * self.s + self.k].reshape(-1), w, self.n)
        return out

    def wgrad(self, a, c):
        """Exact derivative of sum(c * output) in the weights (every weight is one rotation angle)."""
        g = np.zeros(len(self.w))
        for j in range(len(g)):
            d = np.zeros(len(g))
            d[j] = np.pi / 2 / self.mul
            g[j] = 0.5 * self.mul * float(np.sum(c * (self.ref(a, self.w + d) - self.ref(a, self.w - d))))
        return g

    def xgrad(self, a, c):
        g = np.zeros(a.shape)
        B, h, wd = a.shape
        for b in range(B):
            for y in range(c.shape[2]):
                for x in range(c.shape[3]):
                    y0, x0 = y * self.s, x * self.s
                    win = a[b, y0:y0 + self.k, x0:x0 + self.k].astype(float).reshape(-1)
                    for j in range(self.n):
                        d = np.zeros(self.n)
                        d[j] = 0.5
                        v = R.conv_window(win + d, self.w * self.mul, self.n) - R.conv_window(
                            win - d, self.w * self.mul, self.n)
                        g[b, y0 + j // self.k, x0 + j % self.k] += 0.5 * np.pi * float(np.dot(c[b, :, y, x], v))
        return g


def new_layer(spec):
    L = load_quanv()
    k, s, seed, extra = spec
    L.torch.manual_seed(seed)
    m = L.quanv.QuanConv2D(k * k, s, k, *(extra or []))
    return Layer(m, k, s)


def optimiser(kind, params):
    o = load_quanv().torch.optim
    if kind == "sgd":
        return o.SGD(params, lr=0.1)
    if kind == "momentum":
        return o.SGD(params, lr=0.05, momentum=0.9)
    if kind == "adam":
        return o.Adam(params, lr=0.05)
    return o.RMSprop(params, lr=0.02)


def execute(plan, ctx):
    if plan["mode"] == "net":
        return net(plan, ctx)
    L = load_quanv()
    t = L.torch
    ls = [new_layer(s) for s in plan["layers"]]
    if len(ls) > 1:
        ctx.probe("two-layers")
    if ls[0].k == 3:
        ctx.probe("kernel3")
    ctx.shape.append(tuple((l.k, l.s) for l in ls))
    kept = []
    for op in plan["ops"]:
        k = op[0]
        if op[1] >= len(ls):
            continue
        ly = ls[op[1]]
        r = Rng("c12", str(op[2:]))
        if k in ("fwd", "step", "accum", "pixel"):
            learn(ly, op, r, ctx, kept)
        elif k == "inplace":
            look = r.chance(0.6)
            im = [1, 1, ly.k, ly.k + r.below(2), r.below(10 ** 6), "plain"]
            if look:
                glance(ly, im)
            inplace(ly, r)
            if look:
                glance(ly, im)
            ctx.probe("inplace")
        elif k == "reload":
            how = r.choice(["state", "deepcopy", "pickle", "save"])
            reload(ly, how, r)
            ctx.probe("reload")
        elif k == "mode":
            r.choice([ly.m.train, ly.m.eval])()
            ctx.probe("mode")
        elif k == "zero":
            ly.m.zero_grad(set_to_none=r.chance(0.5))
        elif k == "rng":
            t.manual_seed(r.below(10 ** 6))
            np.random.seed(r.below(10 ** 6))
        elif k == "stream":
            stream(ly, r)
            ctx.probe("stream")
        elif k == "bad":
            h = r.choice([(3, 3), (1, 3, 3), (1, 1, 3), (1, 1, 2, 3, 3), "none", "str"])
            x = None if h == "none" else "x" if h == "str" else t.zeros(h)
            before = W.npy(ly.m.weight).tobytes()
            try:
                ly.m(x)
                raise Violation("accepted", "an input of shape %s was accepted" % (h,))
            except Violation:
                raise
            except Exception:
                pass
            if W.npy(ly.m.weight).tobytes() != before:
                raise Violation("changed", "a rejected input changed the weights")
            ctx.probe("bad")
        ctx.shape.append((k, op[1], str(op[2][:4]) if isinstance(op[2], list) else ""))
        ctx.ev(k, op[1])
        for i, l2 in enumerate(ls):
            e = W.maxerr(W.npy(l2.m.weight), l2.w)
            if not e <= 2e-6 * (1 + np.abs(l2.w).max()):
                raise Violation("weights", "after %s on layer %d the weights of layer %d are %.3g from their history's" % (
                    k, op[1], i, e))
        for y, b in kept:
            if W.npy(y).tobytes() != b:
                raise Violation("alias", "%s changed an output returned earlier" % k)


def call(ly, x, flt, ctx):
    """Forward under an optional fault, then again; process-wide state untouched."""
    w0, st = W.npy(ly.m.weight).tobytes(), O.globals_state()
    g0 = None if ly.m.weight.grad is None else W.npy(ly.m.weight.grad).tobytes()
    xb = W.npy(x).tobytes()
    if flt is not None:
        reg = K.Region([{"kind": flt[0], "at": int(10 ** (flt[1] * (3.4 if flt[0] == "interrupt_py" else 3.0)))}])
        try:
            reg.call(ly.m, x)
        except BaseException:
            if not reg.fired:
                raise
        if reg.fired:
            ctx.fault(reg.fired[0][0])
            ctx.probe("fault")
    try:
        y = ly.m(x)
    except Exception as e:
        raise Violation("error", "a %s image with stride %d failed: %s: %s" % (
            tuple(x.shape), ly.s, type(e).__name__, str(e)[:200]))
    if W.npy(ly.m.weight).tobytes() != w0:
        raise Violation("changed", "a forward call changed the weights")
    if (None if ly.m.weight.grad is None else W.npy(ly.m.weight.grad).tobytes()) != g0:
        raise Violation("changed", "a forward call changed the accumulated gradient")
    if W.npy(x).tobytes() != xb:
        raise Violation("changed", "a forward call changed the image")
    d = O.dict_diff(st, O.globals_state())
    if d:
        raise Violation("globals", "a forward call changed %s" % d)
    return y


def learn(ly, op, r, ctx, kept):
    t = load_quanv().torch
    k = op[0]
    x, a = image(op[2])
    flt = op[-1]
    if k == "pixel":
        if x.is_floating_point():
            x = x.clone().requires_grad_(True)
        else:
            k = "fwd"
    mode = r.choice(["plain", "plain", "no_grad", "inference"]) if k == "fwd" else "plain"
    if mode == "no_grad":
        with t.no_grad():
            y = call(ly, x, flt, ctx)
    elif mode == "inference":
        with t.inference_mode():
            y = call(ly, x, flt, ctx).clone()
    else:
        y = call(ly, x, flt, ctx)
    want = ly.ref(a)
    e = W.maxerr(W.npy(y), want)
    if not e <= 1e-4:
        raise Violation("wrong", "output for a %s image (stride %d, kernel %d, %s) is %.3g from the per-window reference, "
                        "shape %s instead of %s" % (tuple(x.shape), ly.s, ly.k, op[2][5], e, tuple(y.shape), want.shape))
    ctx.probe("fwd")
    if not want.size:
        ctx.probe("no-window")
    if len(kept) < 4 and mode == "plain":
        kept.append((y, W.npy(y).tobytes()))
    if k == "fwd" or not want.size:
        return
    c = np.array([r.gauss() for _ in range(want.size)]).reshape(want.shape).astype(np.float32)
    loss = (y * W.TR(c)).sum()
    if k == "pixel":
        g = W.npy(t.autograd.grad(loss, x)[0])
        ref = ly.xgrad(a, c)
        e = W.maxerr(g[:, 0], ref)
        if not e <= 1e-3 or (g.shape[1] > 1 and np.any(g[:, 1:])):
            raise Violation("wrong:pixelgrad", "gradient in the image is %.3g from the true derivative" % e)
        ctx.probe("pixelgrad")
        return
    old = None if ly.m.weight.grad is None else W.npy(ly.m.weight.grad).copy()
    if k == "step":
        o = ly.opts.get(op[4])
        if o is None or o[2] is not ly.m.weight:
            p = t.nn.Parameter(ly.m.weight.detach().clone())
            o = ly.opts[op[4]] = (optimiser(op[4], ly.m.parameters()), (p, optimiser(op[4], [p])), ly.m.weight)
        o[0].zero_grad(set_to_none=r.chance(0.5))
        old = None
    loss.backward()
    gr = ly.m.weight.grad
    if gr is None:
        raise Violation("wrong:grad", "the loss gradient does not reach the weights")
    g = W.npy(gr).astype(float)
    want = ly.wgrad(a, c)
    e = W.maxerr(g - (0 if old is None else old), want)
    if not e <= 1e-3 * (1 + 0.02 * np.abs(want).max()):
        raise Violation("wrong:grad", "%s gradient of the weights is %.3g from the true derivative" % (
            "accumulated" if k == "accum" else "loss", e))
    if k == "accum":
        ctx.probe("accum")
        return
    with t.no_grad():
        o[1][0].copy_(W.TR(ly.w))
    o[1][0].grad = gr.detach().clone()
    o[0].step()
    o[1][1].step()
    ly.w = W.npy(o[1][0]).astype(float).copy()
    if not W.maxerr(W.npy(ly.m.weight), ly.w) <= 2e-6 * (1 + np.abs(ly.w).max()):
        raise Violation("step", "an optimiser step did not move the weights as it should (%s)" % op[4])
    ctx.probe("step")
    ctx.probe("opt:" + op[4])
    ctx.shape.append((op[4],))


def glance(ly, im):
    """Inference without gradients, as a user does around a weight surgery."""
    x, a = image(im)
    with load_quanv().torch.no_grad():
        e = W.maxerr(W.npy(ly.m(x)), ly.ref(a))
    if not e <= 1e-4:
        raise Violation("wrong", "output of a %s image (stride %d, kernel %d) next to a change of weights is %.3g from the "
                        "reference at the current weights" % (tuple(x.shape), ly.s, ly.k, e))


def stream(ly, r):
    """Frames of one size, one after the other: each a new tensor dropped after use (so that the next one may lie where
    it lay), or all in one buffer that is refilled through torch or through the numpy array it is a view of."""
    t = load_quanv().torch
    h, w = ly.k, ly.k + r.below(2)
    how = r.choice(["new", "new", "refill", "numpy"])
    buf = np.zeros((1, 1, h, w), np.float32)
    xb = t.from_numpy(buf) if how == "numpy" else t.zeros((1, 1, h, w))
    with t.set_grad_enabled(r.chance(0.3)):
        for i in range(r.randint(2, 5)):
            a = np.array([r.uniform(-1, 2) for _ in range(h * w)]).astype(np.float32).reshape(1, 1, h, w)
            if how == "new":
                y = ly.m(t.tensor(a.tolist()))
            else:
                if how == "numpy":
                    buf[:] = a
                else:
                    with t.no_grad():
                        xb.copy_(t.tensor(a.tolist()))
                y = ly.m(xb)
            e = W.maxerr(W.npy(y), ly.ref(a[:, 0]))
            del y
            if not e <= 1e-4:
                raise Violation("wrong:stream", "output %d of a stream of %dx%d frames (%s) is %.3g from the reference" % (
                    i, h, w, how, e))


def inplace(ly, r):
    t = load_quanv().torch
    n = len(ly.w)
    v = np.array([r.uniform(-7, 7) for _ in range(n)]).astype(np.float32)
    how = r.choice(["copy", "add", "data", "param", "one", "state", "data_copy", "data_one", "data_set", "fill"])
    with t.no_grad():
        if how == "copy":
            ly.m.weight.copy_(W.TR(v))
        elif how == "add":
            ly.m.weight.add_(W.TR(v) * 0.1)
            v = (ly.w.astype(np.float32) + v * np.float32(0.1))
        elif how == "data":
            ly.m.weight.data = W.TR(v)
        elif how == "data_copy":
            ly.m.weight.data.copy_(W.TR(v))
        elif how == "data_set":
            ly.m.weight.set_(W.TR(v))
        elif how == "fill":
            ly.m.weight.fill_(float(v[0]))
            v = np.full_like(v, v[0])
        elif how in ("one", "data_one"):
            j = r.below(n)
            (ly.m.weight if how == "one" else ly.m.weight.data)[j] = float(v[j])
            u = ly.w.copy()
            u[j] = v[j]
            v = u
        elif how == "state":
            ly.m.load_state_dict({"weight": W.TR(v)})
    if how == "param":
        ly.m.weight = t.nn.Parameter(W.TR(v))
    ly.w = v.astype(float).copy()


def reload(ly, how, r):
    L = load_quanv()
    t = L.torch
    m = ly.m
    if how == "state":
        sd = m.state_dict()
        if r.chance(0.5):
            b = io.BytesIO()
            t.save(sd, b)
            b.seek(0)
            sd = t.load(b)
        n = L.quanv.QuanConv2D(ly.n, ly.s, ly.k)
        if abs(n.w_mul - ly.mul) > 1e-12:
            n.w_mul = m.w_mul
        n.load_state_dict(sd)
        n.train(m.training)
    elif how == "deepcopy":
        n = copy.deepcopy(m)
    elif how == "pickle":
        n = pickle.loads(pickle.dumps(m))
    else:
        b = io.BytesIO()
        t.save(m, b)
        b.seek(0)
        n = t.load(b, weights_only=False)
    if r.chance(0.4):           # keep the copy, disturb the original: they must be independent
        with t.no_grad():
            m.weight.add_(1.0)
    ly.m = n
    ly.opts = {}


def net(plan, ctx):
    """The full example network on one image, with one optimiser step on its head."""
    L = load_quanv()
    t = L.torch
    r = Rng("c12net", plan["seed"])
    t.manual_seed(plan["seed"])
    m = L.quanv.Net()
    ly = Layer(m.quanv, 2, 2)
    x, a = image([1, 1, 28, 28, plan["seed"], "plain"])
    y = m(x)
    f = ly.ref(a).reshape(1, -1)
    h = np.maximum(f @ W.npy(m.fc1.weight).T + W.npy(m.fc1.bias), 0)
    want = h @ W.npy(m.fc2.weight).T + W.npy(m.fc2.bias)
    e = W.maxerr(W.npy(y), want)
    if not e <= 1e-4:
        raise Violation("wrong:net", "the example network is %.3g from its reference" % e)
    g = t.autograd.grad(y[0, r.below(10)], m.quanv.weight)[0]
    if not float(g.abs().max()) > 0:
        raise Violation("wrong:net", "no gradient reaches the convolution weights")
    ctx.probe("net")
    ctx.shape.append(("net", plan["seed"]))
    ctx.ev("net")
    ctx.ev("net-grad")
