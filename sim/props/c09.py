"""C09: a saved circuit or model resumes exactly after a crash."""
import io
import os
import pickle
import signal
import struct
import numpy as np
from .. import world as W
from .. import refmodel as R
from .. import kernel as K
from .. import observers as O
from ..lib import load, load_quanv
from ..prng import Rng
from ..world import Violation

ID = "C09"
RUNS, RUNS_THOROUGH = 2600, 60000
RULE = ("a run is one program (building, updating and training a circuit; evolving a matrix-product state or tensor; "
        "training a convolution module) executed once uninterrupted and once with up to three process crashes - at a "
        "tensor operation, a source line, between operations or in the middle of writing a save; each incarnation is a "
        "separate forked process that gets nothing but the bytes of the last complete save; non-trivial: two or more "
        "operations; distinct by program shape and crash points")
SHAPE = "distinct (program kind, operations, save formats, crash kinds and places)"
REAL = ["pickling of every gate, layer, Circuit and QuanConv2D", "everything re-evaluated after loading",
        "torch.save/load, torch optimisers"]
STUB = ["the disk is a pipe to the parent; process death is os._exit inside the call"]
ASSUME = ["a save that was not completely written is not loadable and the previous one is used",
          "files are loaded with the same version of the library"]
SHRINK = ["ops", "crashes", "warm"]
FORMATS = ["pickle", "save", "gates", "pickle2"]
MUST_PROBE = ["resumed", "crash:op", "crash:line", "crash:write", "crash:between", "kind:circuit", "kind:mps",
              "kind:conv", "kind:adjoint", "param-leaf", "shared", "twin"]


def prepare():
    load_quanv()


# ------------------------------------------------------------------ generator
def gen(rng, tier, i):
    kind = rng.weighted([("circuit", 5), ("mps", 2), ("adjoint", 1.2), ("conv", 1.6)])
    plan = {"kind": kind, "seed": rng.below(10 ** 6)}
    N = rng.weighted([(1, 1), (2, 2), (3, 4), (4, 3), (5, 0.3), (6, 0.2), (7, 0.1)])
    plan["N"] = N
    tn = kind in ("mps", "adjoint") or rng.chance(0.5)
    kinds = W.swarm_kinds(rng, N, W.TNKINDS if tn else W.ALL)
    mono = kind == "circuit" and rng.chance(0.6)
    if mono:                     # one kind of gate only, in every process
        f = W.ALL[i % len(W.ALL)]
        N = plan["N"] = max(N, W.NEED.get(f, 1), 3 if rng.chance(0.7) else 1)
        tn, kinds = False, [f]
    forms = ["param"] if rng.chance(0.25) and kind == "circuit" else None
    ops = []

    def gate():
        ks = [k for k in kinds if k in W.INVERTIBLE] or ["rx"] if kind == "adjoint" else kinds
        g = W.gen_gate(rng, N, ks, tn, forms=forms)
        if mono and g["k"] in W.RINGS and rng.chance(0.6):     # part of the qubits, or another order
            g["w"] = rng.sample(list(range(N)), rng.randint(2, N))
        return g
    if kind == "circuit":
        for _ in range(rng.randint(1, 4)):
            ops.append(["add", gate(), rng.choice(["builder", "add"])])
        if mono:
            ops.append(["save", rng.choice(FORMATS)])
        for _ in range(rng.randint(1 if mono else 3, 4 if mono else 9)):
            o = rng.weighted([("add", 2), ("upd", 3), ("save", 3), ("eval", 3), ("step", 1.5), ("clear", 0.15),
                              ("share", 0.5), ("twin", 0.6)])
            if o == "add":
                ops.append(["add", gate(), rng.choice(["builder", "add"])])
            elif o == "upd":
                ops.append(["upd", rng.below(8), rng.below(10 ** 6)])
            elif o == "save":
                ops.append(["save", rng.choice(FORMATS)])
            elif o == "eval":
                ops.append(["eval", rng.choice(O.CIR + ["zero"]), rng.below(10 ** 6), rng.choice(W.STATES)])
            elif o == "step":
                ops.append(["step", rng.choice(["shift", "adj", "agrad"]), rng.below(10 ** 6)])
            elif o == "share":   # one gate object at another position too
                ops.append(["share", rng.below(8), rng.below(10 ** 6)])
            elif o == "twin":    # a copy made through a save and changed; the original is not
                ops.append(["twin", rng.choice(FORMATS), rng.below(10 ** 6)])
            else:
                ops.append(["clear"])
        ops.append(["eval", rng.choice(O.CIR + ["zero"]), rng.below(10 ** 6), "random"])
    elif kind == "mps":
        plan["rep"] = rng.choice(["mps", "tensor"])
        plan["state"] = rng.choice(W.STATES)
        for _ in range(rng.randint(3, 9)):
            o = rng.weighted([("gate", 5), ("save", 3), ("look", 1)])
            ops.append(["gate", gate()] if o == "gate" else ["save", rng.choice(["pickle", "save"])] if o == "save"
                       else ["look"])
        ops.append(["look"])
    elif kind == "adjoint":
        for _ in range(rng.randint(1, 3)):
            ops.append(["add", gate(), "builder"])
        ops.append(["add", W.gen_gate(rng, N, ["rx", "ry", "rz", "XZLayer", "ZYXLayer"], True), "builder"])
        ops += [["forward", rng.below(10 ** 6)], ["save", rng.choice(["pickle", "save"])], ["backward"]]
        if rng.chance(0.5):
            ops += [["save", rng.choice(["pickle", "save"])], ["backward"]]
    else:
        plan["opt"] = rng.choice(["sgd", "momentum", "adam"])
        plan["fmt"] = rng.choice(["state", "module", "pickle"])
        plan["opts"] = rng.choice([{}, {}, {"use_wscale": True, "lrmul": 0.5}, {"lrmul": 0.1}, {"gain": 2.0, "use_wscale": True}])
        plan["span"] = rng.choice([6.28, 6.28, 25.0])
        plan["hw"] = [rng.randint(2, 3), rng.randint(2, 4), rng.choice([1, 2])]
        for _ in range(rng.randint(2, 5)):
            ops.append(rng.weighted([(["train", rng.below(1000)], 3), (["save", "m"], 3), (["infer", rng.below(1000)], 1)]))
        ops.append(["infer", rng.below(1000)])
    plan["ops"] = ops
    crashes = []
    n = len(ops)
    at = 0
    for _ in range(rng.weighted([(1, 4), (2, 2), (3, 1)])):
        at = min(n - 1, at + rng.below(max(1, n - at)))
        if mono and not crashes:
            at = max(at, [o[0] for o in ops].index("save") + 1)
        c = rng.weighted([("op", 3), ("line", 2), ("write", 1.5), ("between", 2)])
        if c == "write":
            sv = [j for j in range(at, n) if ops[j][0] == "save"]
            if not sv:
                c = "between"
            else:
                at = rng.choice(sv)
        crashes.append([c, at, rng.random()])
    plan["crashes"] = crashes
    # what each process does on its own before and after it loads the save: other circuits of the same kinds of gate
    mine = [o[1]["k"] for o in ops if len(o) > 1 and isinstance(o[1], dict)] or ["ry"]
    plan["warm"] = []
    for j in range(3):
        if j == 1 and kind != "conv" and rng.chance(0.6):      # the process that will crash first begins with the program
            plan["warm"].append(None)
            continue
        ks = mine if mono or rng.chance(0.5) else [rng.choice(mine) for _ in range(rng.randint(1, 4))]
        plan["warm"].append([[gate() for k in ks] if mono else [W.gen_gate(rng, N, [k], tn) for k in ks], rng.chance(0.3)] if mono or rng.chance(0.6) else None)
    return plan


# ------------------------------------------------------------------ one incarnation of the program
class Disk:
    def __init__(self, fd):
        self.fd = fd
        self.tear = None

    def put(self, tag, obj):
        b = pickle.dumps(obj)
        b = struct.pack(">cI", tag, len(b)) + b
        cut = None
        if tag == b"S" and self.tear is not None:
            cut = int(len(b) * self.tear)
        view = memoryview(b if cut is None else b[:cut])
        while len(view):
            view = view[os.write(self.fd, view):]
        if cut is not None:
            os._exit(137)


class Die(K.Region):
    def _raise(self, f, where):
        os._exit(137)


def dump(obj, fmt):
    t = load().torch
    if fmt == "pickle2":
        return pickle.dumps(obj, protocol=2)
    if fmt in ("pickle",):
        return pickle.dumps(obj)
    b = io.BytesIO()
    t.save(obj, b)
    return b.getvalue()


def undump(b, fmt):
    t = load().torch
    if fmt.startswith("pickle"):
        return pickle.loads(b)
    return t.load(io.BytesIO(b), weights_only=False)


class Prog:
    def __init__(self, plan, disk):
        self.p, self.disk = plan, disk
        self.N = plan["N"]
        self.gates = []
        self.cir = None
        self.x = None
        self.opt = None
        self.loss = 0.0

    def fresh(self):
        L = load_quanv()
        p = self.p
        if p["kind"] in ("circuit", "adjoint"):
            self.cir = L.Circuit(self.N)
        elif p["kind"] == "mps":
            psi = W.T(W.make_state(self.N, p["state"], p["seed"])).view(1, -1)
            self.x = L.tn.StateVec2MPS(psi, self.N) if p["rep"] == "mps" else L.tn.MatrixProductState(psi, self.N)
        else:
            self.mod = L.quanv.QuanConv2D(4, p["hw"][2], 2, **p.get("opts", {}))
            r = Rng("c09w", p["seed"])
            sp = p.get("span", 6.28)
            with L.torch.no_grad():
                self.mod.weight.copy_(W.TR(np.array([r.uniform(0 if sp < 7 else -sp, sp) for _ in range(12)])))
            self.mkopt()

    def mkopt(self):
        o = load().torch.optim
        ps = list(self.mod.parameters())
        self.opt = {"sgd": lambda: o.SGD(ps, lr=0.2), "momentum": lambda: o.SGD(ps, lr=0.2, momentum=0.8),
                    "adam": lambda: o.Adam(ps, lr=0.1)}[self.p["opt"]]()

    def shared(self):
        return len({id(g) for g in self.gates}) < len(self.gates)

    # -- saving
    def freeze(self, fmt):
        k = self.p["kind"]
        if k == "circuit":
            if fmt == "gates" and self.shared():
                fmt = "pickle"
            if fmt == "gates":
                return [pickle.dumps(g) for g in self.cir.gate]
            return dump(self.cir, fmt)
        if k == "mps":
            return dump(self.x, fmt)
        if k == "adjoint":
            return dump({"cir": self.cir, "mid": self.x}, fmt)
        f = self.p["fmt"]
        m = dump(self.mod.state_dict() if f == "state" else self.mod, "pickle" if f == "pickle" else "save")
        return [m, dump(self.opt.state_dict(), "save")]

    def thaw(self, fmt, blob, gates):
        L = load_quanv()
        k = self.p["kind"]
        self.gates = gates
        try:
            if k == "circuit":
                if fmt == "gates" and self.shared():
                    fmt = "pickle"
                if fmt == "gates":
                    self.cir = L.Circuit(self.N)
                    for b in blob:
                        self.cir.add(pickle.loads(b))
                else:
                    self.cir = undump(blob, fmt)
            elif k == "mps":
                self.x = undump(blob, fmt)
            elif k == "adjoint":
                d = undump(blob, fmt)
                self.cir, self.x = d["cir"], d["mid"]
            else:
                f = self.p["fmt"]
                if f == "state":
                    self.mod = L.quanv.QuanConv2D(4, self.p["hw"][2], 2, **self.p.get("opts", {}))
                    self.mod.load_state_dict(undump(blob[0], "save"))
                else:
                    self.mod = undump(blob[0], "pickle" if f == "pickle" else "save")
                self.mkopt()
                self.opt.load_state_dict(undump(blob[1], "save"))
        except Exception as e:
            raise Violation("error:load", "loading a %s saved as %s failed: %s: %s" % (
                k, fmt, type(e).__name__, str(e)[:200]))
        # everything observable agrees with what was saved
        if k == "circuit":
            for name in ("U", "zero", "book", "exp", "dag", "gradshift", "gradadj", "tnc", "tn", "agrad", "agradc"):
                if O.applicable(name, self.N, self.gates) and not (name in ("agrad", "agradc") and self.shared()):
                    O.check(name, self.cir, self.N, self.gates, O.prep(name, self.N, self.p["seed"]),
                            " after reloading (%s)" % fmt)
            if any(g.get("f") == "param" for g in self.gates):
                self.disk.put(b"P", "param-leaf")
        elif k == "conv":
            self.infer(1)

    # -- operations; each returns a list of arrays (its observable outcome)
    def do(self, i, op):
        return getattr(self, "op_" + op[0])(*op[1:])

    def op_add(self, g, via):
        W.add_gate(self.cir, self.N, g, via)
        self.gates.append(dict(g))
        return []

    def op_upd(self, j, seed):
        ps = [q for q, g in enumerate(self.gates) if g.get("p") is not None]
        if not ps:
            return []
        j = ps[j % len(ps)]
        r = Rng("c09p", seed)
        self.put_params(j, W.next_params(self.gates[j], r))
        return []

    def put_params(self, j, vals):
        g = self.gates[j]
        form = "param" if g.get("f") == "param" else "t1"
        new = dict(g, p=vals)
        self.gates = [new if x is g else x for x in self.gates]
        self.cir.gate[j].params_update(W.make_params(vals, form, W.scalar_kind(g["k"])))

    def op_eval(self, name, seed, sk):
        if not O.applicable(name, self.N, self.gates) or (name in ("agrad", "agradc") and self.shared()):
            return []
        raw, got = O.check(name, self.cir, self.N, self.gates, O.prep(name, self.N, seed, sk))
        return got if isinstance(got, list) else [got]

    def op_step(self, how, seed):
        name = {"shift": "gradshift", "adj": "gradadj", "agrad": "agrad"}[how]
        if not O.applicable(name, self.N, self.gates) or not any(g.get("p") for g in self.gates) or self.shared():
            return []
        raw, got = O.check(name, self.cir, self.N, self.gates, O.prep(name, self.N, seed))
        g = got[0] if how == "adj" else got
        k = 0
        for j, x in enumerate(self.gates):
            if x.get("p") is not None:
                n = len(x["p"])
                self.put_params(j, [W.f32(a - 0.2 * float(d)) for a, d in zip(x["p"], g[k:k + n])])
                k += n
        return [np.array([v for x in self.gates for v in (x.get("p") or [])])]

    def op_share(self, j, seed):
        if not self.gates or len(self.gates) > 7:
            return []
        j %= len(self.gates)
        self.cir.add(self.cir.gate[j])
        self.gates.append(self.gates[j])
        self.disk.put(b"P", "shared")
        return []

    def op_twin(self, fmt, seed):
        """Two circuits loaded from one save: what is done to one of them is not seen by the other or by the original."""
        blob = self.freeze(fmt)
        two = []
        for _ in range(2):
            q = Prog(self.p, self.disk)
            q.thaw(fmt, blob, list(self.gates))
            two.append(q)
        two[0].op_upd(seed % 7, seed)
        two[0].op_add({"k": "ry", "w": 0, "p": [0.4], "f": "t0"}, "builder")
        for q, n in ((two[0], "changed copy"), (two[1], "second copy"), (self, "original of two copies")):
            for name in ("Uexp", "U", "book"):
                O.check(name, q.cir, q.N, q.gates, {}, " of the %s (%s)" % (n, fmt))
        self.disk.put(b"P", "twin")
        return []

    def op_clear(self):
        self.cir.clear()
        self.gates = []
        return []

    def op_save(self, fmt):
        return None

    def op_gate(self, g):
        o = W.build_gate(self.N, g)
        self.x = o.TN_operation(self.x) if self.p["rep"] == "mps" else o.TN_contract(self.x)
        self.gates.append(g)
        return []

    def op_look(self):
        L = load()
        v = W.npy(L.tn.MPS2StateVec(self.x) if self.p["rep"] == "mps" else self.x).reshape(-1)
        want = R.run(self.N, self.gates, W.make_state(self.N, self.p["state"], self.p["seed"]))
        e = W.maxerr(v, want)
        if not e <= W.mps_tol(len(self.gates), self.N):
            raise Violation("wrong:state", "the evolved state differs from the exact one by %.3g" % e)
        return [v]

    def op_forward(self, seed):
        L = load()
        s = self.shift(seed)
        self.x = [seed, s.save_mid_MPS(getattr(L.dq, "Pauli" + "XYZ"[seed % 3])(self.N, seed // 3 % self.N))]
        return []

    def shift(self, seed):
        psi = W.T(W.make_state(self.N, "random", seed)).view(1, -1)
        return load().parameter_shift(self.cir, psi, None)

    def op_backward(self):
        if self.x is None or not self.gates:
            return []
        seed = self.x[0]
        g = W.npy(self.shift(seed).cal_params_grad2(self.x[1][0]))
        want = R.grad(self.N, self.gates, W.make_state(self.N, "random", seed),
                      R.local_op(self.N, {seed // 3 % self.N: R.PAULI["XYZ"[seed % 3]]}))
        e = W.maxerr(g, want)
        if not e <= 4 * W.mps_tol(len(self.gates), self.N):
            raise Violation("wrong:adjoint", "gradient from saved intermediate states differs by %.3g" % e)
        return [g, W.npy(self.x[1][1])]

    def image(self, seed):
        r = Rng("c09img", seed)
        h, w, s = self.p["hw"]
        return np.array([[[[r.uniform(0, 1) for _ in range(w)] for _ in range(h)]]]).astype(np.float32)

    def infer(self, seed):
        t = load().torch
        with t.no_grad():
            out = W.npy(self.mod(W.TR(self.image(seed))))
        w = W.npy(self.mod.weight).astype(float) * self.mod.w_mul
        e = W.maxerr(out, O.conv_ref(self.image(seed), w, 4, 2, self.p["hw"][2]))
        if not e <= 1e-4:
            raise Violation("wrong:conv", "convolution differs from its reference by %.3g" % e)
        return out

    def op_infer(self, seed):
        return [self.infer(seed), W.npy(self.mod.weight)]

    def op_train(self, seed):
        t = load().torch
        self.opt.zero_grad()
        out = self.mod(W.TR(self.image(seed)))
        (out * out).mean().backward()
        if self.mod.weight.grad is None or not bool((self.mod.weight.grad != 0).any()):
            raise Violation("wrong:conv", "no gradient reaches the convolution weights")
        self.opt.step()
        return [W.npy(self.mod.weight).copy()]


def warm(plan, k, late):
    """Unrelated work of this process, checked like everything else."""
    x = (plan.get("warm") or [None])[k % len(plan.get("warm") or [None])]
    if x is None or x[1] != late:
        return
    N = plan["N"]
    cir = W.build_circuit(N, x[0], "builder")
    for n in ("Uexp", "U", "tnc", "tn", "dag"):
        if O.applicable(n, N, x[0]):
            O.check(n, cir, N, x[0], O.prep(n, N, 5), " in other work of the process")
    if plan["kind"] == "conv":
        O.check("conv", None, 4, [], O.prep("conv", 4, plan["seed"] + k), " in other work of the process")


def incarnation(plan, disk, resume, crash, k):
    pr = Prog(plan, disk)
    start = 0
    warm(plan, k, False)
    if resume is None:
        pr.fresh()
    else:
        i, fmt, blob, gates = resume
        pr.thaw(fmt, blob, gates)
        start = i + 1
    warm(plan, k, True)
    if resume is not None and plan["kind"] == "circuit":
        for n in ("Uexp", "U"):
            O.check(n, pr.cir, pr.N, pr.gates, {}, " after reloading (%s)" % resume[1])
    for i in range(start, len(plan["ops"])):
        op = plan["ops"][i]
        hit = crash is not None and crash[1] == i
        if hit and crash[0] == "between":
            os._exit(137)
        if op[0] == "save":
            disk.tear = crash[2] if hit and crash[0] == "write" else None
            try:
                blob = pr.freeze(op[1])
            except Exception as e:
                raise Violation("error:save", "saving a %s as %s failed: %s: %s" % (
                    plan["kind"], op[1], type(e).__name__, str(e)[:200]))
            disk.put(b"S", (i, op[1], blob, pr.gates))
            continue
        if hit and crash[0] in ("op", "line"):
            f = {"kind": "interrupt_op" if crash[0] == "op" else "interrupt_line",
                 "at": int(10 ** (crash[2] * (3.0 if crash[0] == "line" else 2.3)))}
            out = Die([f]).call(pr.do, i, op)
            os._exit(137)        # the operation had fewer points: the process dies right after it
        else:
            out = pr.do(i, op)
        disk.put(b"O", (i, op[0], out))
    disk.put(b"E", None)


def boot(plan, resume, crash, k):
    """Run one incarnation in its own process; returns (saves, outputs, finished, violation)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            d = Disk(w)
            try:
                incarnation(plan, d, resume, crash, k)
            except Violation as v:
                d.put(b"V", (v.cls, v.detail))
            except BaseException as e:
                import traceback
                from ..lib import REPO
                tb = traceback.extract_tb(e.__traceback__)
                lib = any(f.filename.startswith(REPO + os.sep) for f in tb)
                from ..runner import unusable
                lib = lib or unusable(e)
                d.put(b"V" if lib else b"H", ("crash:" + type(e).__name__, "%s: %s" % (
                    type(e).__name__, str(e)[:300]) + ("" if lib else "\n" + traceback.format_exc()[-1500:])))
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    saves, outs, end, vio, harness, leaf = [], {}, False, None, None, set()
    while len(buf) >= 5:
        tag, n = struct.unpack(">cI", buf[:5])
        if len(buf) < 5 + n:
            break            # torn: the record was never completely written
        rec = pickle.loads(buf[5:5 + n])
        buf = buf[5 + n:]
        if tag == b"S":
            saves.append(rec)
        elif tag == b"O":
            outs[rec[0]] = (rec[1], rec[2])
        elif tag == b"E":
            end = True
        elif tag == b"V":
            vio = rec
        elif tag == b"H":
            harness = rec
        elif tag == b"P":
            leaf.add(rec)
    if harness:
        raise RuntimeError("incarnation failed in the harness: %s" % (harness,))
    return saves, outs, end, vio, leaf


def execute(plan, ctx):
    ctx.probe("kind:" + plan["kind"])
    ctx.shape.append((plan["kind"], tuple((o[0],) + ((o[1]["k"], str(o[1]["w"])) if len(o) > 1 and isinstance(
        o[1], dict) else tuple(map(str, o[1:2]))) for o in plan["ops"]), tuple((c[0], c[1]) for c in plan["crashes"])))
    _, base, end, vio, _ = boot(plan, None, None, 0)
    if vio:
        raise Violation(vio[0], "uninterrupted program: " + vio[1])
    if not end:
        raise RuntimeError("the uninterrupted program did not finish")
    saves, got, boots = [], {}, 0
    crashes = list(plan["crashes"]) + [None]
    done = False
    while crashes and not done:
        c = crashes.pop(0)
        resume = saves[-1] if saves else None
        boots += 1
        s, outs, done, vio, leaf = boot(plan, resume, c, boots)
        if vio:
            raise Violation(vio[0], "%s: %s" % ("incarnation resumed from operation %d" % resume[0] if resume else
                                               "incarnation from the start", vio[1]))
        saves += s
        got.update(outs)
        if not done:
            if c is None:
                raise Violation("nofinish", "the resumed program ended without finishing")
            ctx.fault("crash_" + c[0])
            ctx.probe("crash:" + c[0])
        if resume is not None:
            ctx.probe("resumed")
        for x in sorted(leaf):
            ctx.probe(x)
        ctx.ev("boot", resume[0] if resume else "fresh", c[:2] if c else None, len(s), sorted(outs), done)
    for i, (name, want) in sorted(base.items()):
        if i not in got:
            raise Violation("lost", "operation %d (%s) has no outcome after the crashes" % (i, name))
        e = O.diff(list(got[i][1]), list(want))
        if not e <= 3e-6:
            raise Violation("diverged", "operation %d (%s) of the resumed program differs from the uninterrupted one by "
                            "%.3g" % (i, name, e))
    ctx.ev("same", len(base))
