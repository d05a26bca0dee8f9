"""C04: a failed call leaves everything usable and unchanged."""
from .. import world as W
from .. import observers as O
from .. import kernel as K
from ..lib import load, load_quanv
from ..prng import Rng
from ..world import Violation
from .c01 import bad_call

ID = "C04"
RUNS, RUNS_THOROUGH = 3000, 80000
RULE = ("a run is a circuit plus a sequence of calls, each failed or interrupted at a seeded point (before or after a "
        "tensor operation, in a decomposition, where a signal is delivered) or rejected; afterwards the circuit, arguments and "
        "process-wide state are compared, other calls are checked and the call is retried; non-trivial: at least one "
        "fault fired; distinct by the sequence of (call, fault kind, place where it fired)")
SHAPE = "distinct sequences of (call, fault kind, operation or function where it fired)"
REAL = ["deepquantum.gates.*", "deepquantum.layers.qlayers", "deepquantum.nn.modules.quanv"]
STUB = ["failing allocations, decompositions and tensor operations and interrupts are injected at torch's function "
        "dispatch and where CPython delivers signals; everything else is real"]
ASSUME = ["keyboard interrupts arrive where CPython delivers signals: function entry, return from a call into C, backward jump", "after an injected failure any exception type is acceptable"]
SHRINK = ["ops", "gates", "probes", "ambient"]
OBS_KINDS = ["oom", "memoryerror", "opfail_post", "linalg", "interrupt_op", "interrupt_py"]
MUT_KINDS = ["oom", "memoryerror", "opfail_post", "interrupt_op", "interrupt_py"]
MUST_PROBE = ["fired:" + k for k in OBS_KINDS] + ["mutator-fault", "rejected"]


def prepare():
    load()
    load_quanv()


def gen(rng, tier, i):
    N = rng.weighted([(1, 1), (2, 4), (3, 4), (4, 1.5), (5, 0.35), (6, 0.2), (7, 0.1)])
    tn = rng.chance(0.6)
    pool = W.swarm_kinds(rng, N, W.TNKINDS if tn else W.ALL)
    allp = rng.chance(0.2)
    forms = ["param"] if allp else None
    gates = [W.gen_gate(rng, N, pool, tn, forms=forms) for _ in range(rng.randint(1, 4))]
    names = [n for n in O.CIR + O.FREE if n != "zero"]
    if rng.chance(0.5):
        names = rng.sample(names, rng.randint(1, 4)) + ["gradshift", "gradadj"]
    ops = []
    for _ in range(rng.randint(1, 5)):
        x = rng.random()
        f = [rng.choice(OBS_KINDS), rng.random(), rng.chance(0.5), rng.below(10 ** 6)]
        if x < 0.5:
            ops.append(["obs", rng.choice(names), rng.below(10 ** 6), rng.choice(W.STATES), f])
        elif x < 0.72:
            f[0] = rng.choice(MUT_KINDS)
            f[2] = rng.chance(0.8)
            ops.append(["upd", rng.below(6), rng.below(10 ** 6), rng.choice(["t0", "slice", "param", "list"]), f])
        elif x < 0.84:
            f[0] = rng.choice(MUT_KINDS)
            ops.append(["add", W.gen_gate(rng, N, pool, tn, forms=forms), rng.choice(["builder", "add"]), f])
        elif x < 0.88:
            f[0] = "interrupt_py" if rng.chance(0.7) else rng.choice(MUT_KINDS)
            f[2] = True
            ops.append(["clear", f])
        elif x < 0.92:
            ops.append(["bad", rng.below(1000)])
        elif x < 0.97:
            ops.append(["badobs", rng.below(10 ** 6)])
        else:
            ops.append(["badupd", rng.below(6), rng.below(6)])
    probes = [[rng.choice(["U", "tn", "tnc", "exp", "book", "gradshift", "dag", "Uexp"]), rng.below(10 ** 6)]
              for _ in range(rng.randint(1, 3))]
    return {"N": N, "gates": gates, "ops": ops, "probes": probes, "ambient": O.gen_ambient(rng)}


def place(f, fn):
    """Fault point: measured on a fresh copy of the call, or guessed (so that first-use paths fail too)."""
    kind, frac, measured, s = f
    if measured:
        m = K.measure(fn)
        if kind == "linalg":
            return min(m.decomps - 1, int(frac * m.decomps)) if m.decomps else None
        sites = m.break_sites if kind == "interrupt_py" else m.op_sites
        return K.pick_point(sites, Rng("c04at", s)) if sites else None
    if kind == "linalg":
        return int(frac * 6)
    return int(10 ** (frac * (3.2 if kind == "interrupt_py" else 2.4)))


def probe(N, gates, cir, plan, where):
    for n, s in plan["probes"]:
        if O.applicable(n, N, gates):
            O.check(n, cir, N, gates, O.prep(n, N, s), where)


def execute(plan, ctx):
    with O.ambient(plan.get("ambient", ())):
        session(plan, ctx)


def session(plan, ctx):
    N = plan["N"]
    gates = [dict(g) for g in plan["gates"]]
    cir = W.build_circuit(N, gates, "add")
    for op in plan["ops"]:
        where = " (operation %d on %s)" % (ctx.steps, [g["k"] for g in gates])
        if op[0] == "obs":
            observe(op, N, gates, cir, plan, ctx, where)
        elif op[0] in ("upd", "add", "clear"):
            mutate(op, N, gates, cir, plan, ctx, where)
        elif op[0] == "bad":
            cs = O.circuit_frozen(cir)
            book = O.arr(O.call("book", cir, N, {}))
            lab = bad_call(cir, N, gates, op[1])
            if lab.endswith("accepted"):
                cir = W.build_circuit(N, gates, "add")
                continue
            d = O.circuit_diff(cs, O.circuit_frozen(cir))
            if d:
                raise Violation("rejected-call-mutates", "rejected call %s changed the circuit%s: %s" % (lab, where, d))
            try:
                b2 = O.arr(O.call("book", cir, N, {}))
            except Exception as e:
                raise Violation("rejected-call-mutates", "bookkeeping fails after rejected call %s%s: %s" % (lab, where, e))
            if O.diff(b2, book) > 0:
                raise Violation("rejected-call-mutates", "rejected call %s changed the bookkeeping%s" % (lab, where))
            ctx.probe("rejected")
            ctx.fault("rejected_call")
            ctx.shape.append(("bad", lab))
            probe(N, gates, cir, plan, " after rejected call %s" % lab)
            ctx.ev("bad", lab)
        elif op[0] == "badobs":
            refuse(op, N, gates, cir, plan, ctx, where)
        elif op[0] == "badupd":
            if op[1] >= len(gates) or not gates[op[1]].get("p"):
                continue
            g = gates[op[1]]
            cs = O.circuit_frozen(cir)
            bad = [None, "x", object(), [], 1j, {}][op[2]]
            try:
                cir.gate[op[1]].params_update(bad)
            except Exception as e:
                ctx.shape.append(("badupd", g["k"], op[2], type(e).__name__))
            else:
                cir = W.build_circuit(N, gates, "add")
                continue       # accepted: not a rejection; what it then means is not this program's business
            d = O.circuit_diff(cs, O.circuit_frozen(cir))
            if d:
                raise Violation("rejected-update-mutates", "rejected params_update(%r) of %s changed it%s: %s" % (
                    bad, g["k"], where, d))
            ctx.probe("rejected")
            ctx.fault("rejected_call")
            O.check("Uexp", cir, N, gates, {}, " after a rejected update of %s" % g["k"])
            probe(N, gates, cir, plan, " after a rejected update of %s" % g["k"])
            ctx.ev("badupd", g["k"])


def refuse(op, N, gates, cir, plan, ctx, where):
    """A rejected evaluation: nothing it was given, and nothing shared, may have changed."""
    lab, fn, a = O.rejected(cir, N, gates, op[1])
    fz, cs, gl = O.args_frozen(a), O.circuit_frozen(cir), O.globals_state()
    try:
        fn(a)
    except Exception as e:
        err = type(e).__name__
    else:
        ctx.probe("accepted:" + lab)
        if lab.startswith("tn-"):
            return
        err = "accepted"
    d = O.circuit_diff(cs, O.circuit_frozen(cir))
    if d:
        raise Violation("rejected-call-mutates", "the rejected call %s changed the circuit%s: %s" % (lab, where, d))
    bad = O.dict_diff(fz, O.args_frozen(a))
    if bad and err != "accepted":
        raise Violation("rejected-call-argument", "the rejected call %s%s changed its argument %s" % (lab, where, bad))
    bad = O.dict_diff(gl, O.globals_state())
    if bad:
        raise Violation("failed-call-global:rejected", "the rejected call %s%s changed the process-wide %s" % (lab, where, bad))
    ctx.probe("rejected")
    ctx.probe("rejected:" + lab)
    ctx.fault("rejected_call")
    ctx.shape.append(("badobs", lab, err))
    probe(N, gates, cir, plan, " after the rejected call %s" % lab)
    ctx.ev("badobs", lab, err)


def observe(op, N, gates, cir, plan, ctx, where):
    _, name, seed, sk, f = op
    if not O.applicable(name, N, gates) or (name in ("agrad", "agradc") and "nograd" in plan.get("ambient", ())):
        return
    a = O.prep(name, N, seed, sk)
    at = place(f, lambda: O.call(name, W.build_circuit(N, gates, "add"), N, O.prep(name, N, seed, sk)))
    if at is None:
        return
    fz, cs, gl = O.args_frozen(a), O.circuit_frozen(cir), O.globals_state()
    reg = K.Region([{"kind": f[0], "at": at}])
    tag = "%s of %s at point %d" % (f[0], name, at)
    try:
        raw = reg.call(O.call, name, cir, N, a)
        err = None
    except BaseException as e:
        err = e
    if err is not None and not reg.fired:
        raise Violation("error:" + name, "%s failed without any fault%s: %s: %s" % (
            name, where, type(err).__name__, str(err)[:200]))
    if reg.fired:
        ctx.fault(f[0])
        ctx.probe("fired:" + f[0])
        ctx.shape.append((name, f[0], reg.fired[0][1]))
        tag = "%s (%s)" % (tag, reg.fired[0][1])
    if err is None:
        O.judge(name, O.arr(raw), N, gates, a, where + " under " + tag)
        if reg.fired:
            ctx.probe("absorbed")
    d = O.circuit_diff(cs, O.circuit_frozen(cir))
    if d:
        raise Violation("failed-call-mutates:" + name, "%s%s changed the circuit: %s" % (tag, where, d))
    bad = O.dict_diff(fz, O.args_frozen(a))
    if bad:
        raise Violation("failed-call-argument:" + name, "%s%s changed argument %s" % (tag, where, bad))
    bad = O.dict_diff(gl, O.globals_state())
    if bad:
        raise Violation("failed-call-global:" + name, "%s%s changed the process-wide %s" % (tag, where, bad))
    probe(N, gates, cir, plan, " after " + tag)
    O.check(name, cir, N, gates, a, " repeated after " + tag)
    ctx.ev("obs", name, f[0], at, bool(reg.fired))


def mutate(op, N, gates, cir, plan, ctx, where):
    if op[0] == "upd":
        _, j, seed, form, f = op
        ps = [q for q, x in enumerate(gates) if x.get("p")]
        if not ps:
            return
        j = ps[j % len(ps)]
        g = gates[j]
        r = Rng("c04p", seed)
        p = W.next_params(g, r)
        sc = W.scalar_kind(g["k"])
        if g.get("f") == "param":
            form = "param"
        elif sc and form == "list":
            form = "t0"
        elif not sc and (form == "t0" or (form == "list" and g["k"] not in ("u3", "cu3"))):
            form = "t1"
        new = [dict(x) for x in gates]
        new[j]["p"] = p
        arg = W.make_params(p, form, sc)
        fn = lambda c, x: c.gate[j].params_update(x)
        name = "update of " + g["k"]
    elif op[0] == "clear":
        f, g, arg, new = op[1], {"k": "circuit"}, None, []
        fn = lambda c, x: c.clear()
        name = "clear"
    else:
        _, g, via, f = op
        g = dict(g)
        sc = W.scalar_kind(g["k"])
        arg = W.make_params(g["p"], g.get("f", "t1"), sc) if g.get("p") is not None else None
        new = [dict(x) for x in gates] + [g]
        fn = lambda c, x: W.add_gate(c, N, g, via, x)
        name = "add of " + g["k"]
    at = place(f, lambda: fn(W.build_circuit(N, gates, "add"), arg))
    if at is None:
        return
    before, gl, fz = O.circuit_frozen(cir), O.globals_state(), O.frozen(arg)
    reg = K.Region([{"kind": f[0], "at": at}])
    tag = "%s in %s at point %d" % (f[0], name, at)
    try:
        reg.call(fn, cir, arg)
        err = None
    except BaseException as e:
        err = e
    if err is not None and not reg.fired:
        raise Violation("error:mutator", "%s failed without any fault%s: %s: %s" % (
            name, where, type(err).__name__, str(err)[:200]))
    if reg.fired:
        ctx.fault(f[0])
        ctx.probe("mutator-fault")
        ctx.shape.append((op[0], g["k"], f[0], reg.fired[0][1]))
    bad = O.dict_diff(gl, O.globals_state())
    if bad:
        raise Violation("failed-call-global:" + op[0], "%s%s changed the process-wide %s" % (tag, where, bad))
    if O.frozen(arg) != fz:
        raise Violation("failed-call-argument:" + op[0], "%s%s changed the parameters it was given" % (tag, where))
    # entirely unchanged or entirely changed
    now = O.circuit_frozen(cir)
    if op[0] == "add":
        done = now[1] == before[1] + 1
        if not done and O.circuit_diff(before, now):
            raise Violation("half-done:add", "%s%s left the circuit half changed: %s" % (
                tag, where, O.circuit_diff(before, now)))
    elif op[0] == "clear":
        done = now[1] == 0
        if not done and O.circuit_diff(before, now):
            raise Violation("half-done:clear", "%s%s left the circuit half changed: %s" % (
                tag, where, O.circuit_diff(before, now)))
    else:
        same = O.circuit_diff(before, now) is None
        done = not same
        if same and err is None:
            done = True
    if err is None:
        done = True
    model = new if done else gates
    for n in ("Uexp", "book"):
        try:
            O.check(n, cir, N, model, {}, " after %s (%s)" % (tag, "done" if done else "not done"))
        except Violation as v:
            raise Violation("half-done:" + op[0], v.detail)
    for n in ("tnc", "tn", "exp"):
        if O.applicable(n, N, model):
            try:
                O.check(n, cir, N, model, O.prep(n, N, 11), " after %s (%s)" % (tag, "done" if done else "not done"))
            except Violation as v:
                raise Violation("half-done:" + op[0], v.detail)
    if not done:
        fn(cir, arg)
    gates[:] = new
    probe(N, gates, cir, plan, " after %s and a retry" % tag)
    O.check("book", cir, N, gates, {}, " after %s and a retry" % tag)
    ctx.ev(op[0], g["k"], f[0], at, bool(reg.fired), done)


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        if op[0] == "obs" and op[3] != "zero":
            q = [list(o) for o in plan["ops"]]
            q[i][3] = "zero"
            yield dict(plan, ops=q)
