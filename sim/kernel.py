"""The simulator kernel: every source of nondeterminism the properties depend on sits behind one of these seams.

* Region     - one library call under control: counts tensor operations ("op points") and source lines ("line
               points") of the code under test, fails or interrupts at a chosen point, and replaces decomposition
               results by other valid ones (gauge).
* Scheduler  - real threads parked and released one at a time; who runs after each point is decided by a policy or
               by a recorded switch list.
* SimLock    - locks created by the code under test are simulated, so blocking is a scheduler decision and deadlock
               is detected.
"""
import _thread
import cmath
import collections
import importlib._bootstrap
import os
import sys
import threading

TOOL = 3
_repo = None
_line_hooks = {}          # thread ident -> callable(code, line)
_mon_on = False
current_sched = None


# ------------------------------------------------------------------ line points
def _on_line(code, line):
    if not code.co_filename.startswith(_repo):
        return sys.monitoring.DISABLE
    if _imports:
        return
    h = _line_hooks.get(_thread.get_ident())
    if h is not None:
        h(code, line)


def _on_instr(code, off):
    if not code.co_filename.startswith(_repo):
        return sys.monitoring.DISABLE
    if _imports:
        return
    h = _line_hooks.get(_thread.get_ident())
    if h is not None:
        h(code, -off - 1)


# Where CPython delivers a signal: on entering a function, after a call into C, on jumping back - and nowhere else.
def _on_call(code, off, fn, arg0):
    if not code.co_filename.startswith(_repo):
        return sys.monitoring.DISABLE


def _on_breaker(code, off, *rest):
    if not code.co_filename.startswith(_repo):
        return None
    if _imports:
        return None
    h = _line_hooks.get(_thread.get_ident())
    if h is not None:
        h(code, off)


def _on_start(code, off):
    if not code.co_filename.startswith(_repo):
        return sys.monitoring.DISABLE
    _on_breaker(code, off)


def _on_jump(code, off, dest):
    if not code.co_filename.startswith(_repo):
        return sys.monitoring.DISABLE
    if dest < off:
        _on_breaker(code, off)


def breakers_on():
    m = sys.monitoring
    lines_on()
    for ev, fn in ((m.events.CALL, _on_call), (m.events.C_RETURN, _on_breaker), (m.events.PY_START, _on_start),
                   (m.events.JUMP, _on_jump)):
        m.register_callback(TOOL, ev, fn)
    m.set_events(TOOL, m.events.CALL | m.events.PY_START | m.events.JUMP)


def lines_on(instr=False):
    global _mon_on
    m = sys.monitoring
    if not _mon_on:
        m.use_tool_id(TOOL, "verif-sim")
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_instr)
        _mon_on = True
    m.set_events(TOOL, m.events.LINE | (m.events.INSTRUCTION if instr else 0))


def lines_off():
    if _mon_on:
        sys.monitoring.set_events(TOOL, 0)


# Nothing is delivered while a module is being imported: imports run once per process (a replay would not see the same points)
# and hold interpreter locks the scheduler does not control.
_imports = importlib._bootstrap._module_locks


# ------------------------------------------------------------------ op points
_OpMode = None
SKIP = ("__get__", "__set__", "dim", "size", "stride", "is_complex", "is_floating_point", "__len__", "numel",
        "__hash__", "__repr__", "__format__", "data_ptr", "element_size", "is_contiguous", "type", "__bool__", "_set_grad_enabled", "set_grad_enabled", "is_grad_enabled")
DECOMP = ("svd", "linalg_svd", "qr", "linalg_qr", "eigh", "linalg_eigh")


def _mode_class():
    global _OpMode
    if _OpMode is None:
        from torch.overrides import TorchFunctionMode

        class OpMode(TorchFunctionMode):
            def __init__(self, hook):
                super().__init__()
                self.hook = hook

            def __torch_function__(self, func, types, args=(), kwargs=None):
                name = getattr(func, "__name__", "?")
                if name in SKIP or _imports:
                    return func(*args, **(kwargs or {}))
                h = self.hook
                h.pre(name)
                r = func(*args, **(kwargs or {}))
                return h.post(name, r, args)
        _OpMode = OpMode
    return _OpMode


class Injected(Exception):
    """Marker base: never raised itself, lets the oracle tell injected failures by identity."""


FAULT_KINDS = ["oom", "memoryerror", "opfail_post", "linalg", "interrupt_op", "interrupt_py"]


class Region:
    """Controls one call.  faults: list of {"kind", "at"} with `at` a point index inside this region."""

    def __init__(self, faults=(), gauge=None, lines=False):
        self.faults = list(faults)
        self.gauge = gauge
        self.ops = 0
        self.decomps = 0
        self.lines = 0
        self.breakers = 0
        self.fired = []
        self.exc = []
        self.want_lines = any(f["kind"] == "interrupt_line" for f in self.faults)
        self.want_breakers = lines or any(f["kind"] == "interrupt_py" for f in self.faults)
        self.gauge_used = {}
        self.op_sites = self.break_sites = None      # lists, when the places of the points are wanted

    def _raise(self, f, where):
        self.fired.append((f["kind"], where))
        self.faults.remove(f)
        k = f["kind"]
        if k in ("oom", "opfail_post"):
            e = RuntimeError("[enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: can't allocate memory (simulated)")
        elif k == "memoryerror":
            e = MemoryError("simulated")
        elif k == "linalg":
            import torch
            e = torch.linalg.LinAlgError("linalg.svd: The algorithm failed to converge (simulated)")
        else:
            e = KeyboardInterrupt("simulated")
        self.exc.append(e)
        raise e

    # op points
    def pre(self, name):
        i = self.ops
        self.ops += 1
        if self.op_sites is not None:
            self.op_sites.append(place())
        d = -1
        if name in DECOMP:
            d = self.decomps
            self.decomps += 1
        for f in self.faults:
            k = f["kind"]
            if (k in ("oom", "memoryerror", "interrupt_op") and f["at"] == i) or (k == "linalg" and f["at"] == d):
                self._raise(f, name)

    def post(self, name, r, args):
        i = self.ops - 1
        for f in self.faults:
            if f["kind"] == "opfail_post" and f["at"] == i:
                self._raise(f, name)
        if self.gauge is not None and name in DECOMP:
            r = self.gauge(name, r, args, self)
        return r

    def _line(self, code, line):
        i = self.lines
        self.lines += 1
        for f in self.faults:
            if f["kind"] == "interrupt_line" and f["at"] == i:
                self._raise(f, os.path.basename(code.co_filename) + ":" + code.co_name)

    def _breaker(self, code, off):
        i = self.breakers
        self.breakers += 1
        if self.break_sites is not None:
            self.break_sites.append((code, off))
        for f in self.faults:
            if f["kind"] == "interrupt_py" and f["at"] == i:
                self._raise(f, os.path.basename(code.co_filename) + ":" + code.co_name)

    def call(self, fn, *a, **kw):
        mode = _mode_class()(self)
        tid = _thread.get_ident()
        if self.want_lines:
            lines_on()
            _line_hooks[tid] = self._line
        elif self.want_breakers:
            breakers_on()
            _line_hooks[tid] = self._breaker
        try:
            with mode:
                return fn(*a, **kw)
        finally:
            if self.want_lines or self.want_breakers:
                _line_hooks.pop(tid, None)
                lines_off()


def place():
    """The line of the code under test that is running."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(_repo):
            return (f.f_code, f.f_lineno)
        f = f.f_back
    return None


def measure(fn):
    """A fault-free call: number and places of the operation points, decomposition points and signal points in it."""
    r = Region(lines=True)
    r.op_sites, r.break_sites = [], []
    r.call(fn)
    return r


def pick_point(sites, rng):
    """A point to fail at: any, or first a place in the code and then one of the times it was passed."""
    if rng.chance(0.4):
        return rng.below(len(sites))
    order = {}
    for i, x in enumerate(sites):
        order.setdefault(x, []).append(i)
    at = rng.choice(list(order.values()))
    return rng.choice([at[0], at[-1], rng.choice(at)])


# ------------------------------------------------------------------ locks of the code under test
_RealLock = _thread.allocate_lock
_real_lock, _real_rlock = threading.Lock, threading.RLock


class SimLock:
    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking:
                return False
            s = current_sched
            if s is None or not s.mine():
                raise RuntimeError("deadlock: lock already held with no other thread to release it")
            if not s.block(self, timeout):
                return False
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None or (self._re and self._owner != _thread.get_ident()):
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # simulated locks survive copying and pickling only like real ones: they do not
    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_lock_seam(repo):
    global _repo
    _repo = repo.rstrip("/") + "/"

    def from_repo():
        f = sys._getframe(2)
        if f.f_code.co_filename.startswith(_repo):
            return True
        if f.f_code.co_filename == threading.__file__ and f.f_back is not None:
            return f.f_back.f_code.co_filename.startswith(_repo)
        return False

    def Lock():
        return SimLock() if from_repo() else _real_lock()

    def RLock():
        return SimLock(True) if from_repo() else _real_rlock()
    threading.Lock, threading.RLock = Lock, RLock


# ------------------------------------------------------------------ scheduler
class Deadlock(BaseException):
    pass


class Abort(BaseException):
    pass


class Task:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.go = _RealLock()
        self.go.acquire()
        self.done = False
        self.error = None
        self.result = None
        self.waiting = None
        self.stalled_until = 0
        self.points = 0


class Scheduler:
    """policy(sched, cur, where) -> task id to run next (cur to continue)."""

    def __init__(self, fns, policy, cap=300000, instr=False):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.policy = policy
        self.step = 0
        self.cap = cap
        self.switches = []       # [task, its own point count, kind, next task] as taken
        self.finished = _RealLock()
        self.finished.acquire()
        self.cur = None
        self.ident = {}
        self.aborting = None
        self.instr = instr
        self.sites = {}
        self.trace = 0

    def mine(self):
        return _thread.get_ident() in self.ident

    def runnable(self):
        return [t for t in self.tasks if not t.done and not (t.waiting is not None and t.waiting._owner is not None)]

    def runnable_after(self, t):
        r = [x.tid for x in self.runnable()]
        later = [x for x in r if x > t.tid]
        return (later or r or [t.tid])[0]

    def _pick(self, want):
        r = self.runnable()
        if not r:
            return None
        for t in r:
            if t.tid == want:
                return t
        return r[0]

    def _switch(self, cur, nxt, kind="p"):
        if nxt is cur:
            return
        self.cur = nxt
        self.switches.append([cur.tid, cur.points, kind, nxt.tid])
        nxt.go.release()
        cur.go.acquire()
        if self.aborting is not None:
            raise self.aborting

    def point(self, where):
        t = self.cur
        if self.aborting is not None:
            raise self.aborting
        self.step += 1
        t.points += 1
        self.trace = (self.trace * 1000003 + t.tid * 7919 + hash_site(where)) & 0xFFFFFFFFFFFF
        if self.step > self.cap:
            # preemption has ended: from here a fair round robin must bring everybody to the end
            if self.step == self.cap + 1 and self.instr:
                lines_on(False)
            if self.step > self.cap + 3000000:
                self.aborting = Abort("no progress: step cap reached")
                raise self.aborting
            want = t.tid if self.step % 2000 else self.runnable_after(t)
        else:
            want = self.policy(self, t, where)
        if want != t.tid:
            nxt = self._pick(want)
            if nxt is not None and nxt is not t:
                self._switch(t, nxt)

    def block(self, lock, timeout):
        """Current task waits for lock; returns True when it may retry."""
        t = self.cur
        t.waiting = lock
        r = self.runnable()
        if not r:
            if timeout is not None and timeout >= 0:
                t.waiting = None
                return False
            self.aborting = Deadlock("all threads are blocked")
            t.waiting = None
            raise self.aborting
        self.step += 1
        nxt = self._pick(self.policy(self, t, ("block", 0)))
        if nxt is t:
            nxt = r[0]
        self._switch(t, nxt, "b")
        t.waiting = None
        return True

    # hooks used by the per-thread mode
    def pre(self, name):
        self.point((name, 0))

    def post(self, name, r, args):
        return r

    def _line(self, code, line):
        self.point((code.co_filename, line))

    def _main(self, t):
        t.go.acquire()
        me = _thread.get_ident()
        self.ident[me] = t
        _line_hooks[me] = self._line
        try:
            if self.aborting is None:
                with _mode_class()(self):
                    t.result = t.fn()
        except (Deadlock, Abort) as e:
            t.error = e
        except BaseException as e:
            t.error = e
        finally:
            _line_hooks.pop(me, None)
            t.done = True
            self.ident.pop(me, None)
            self._hand_over()

    def _hand_over(self):
        left = [x for x in self.tasks if not x.done]
        if not left:
            self.finished.release()
            return
        if self.aborting is not None:
            self.cur = left[0]
            left[0].go.release()
            return
        r = self.runnable()
        if not r:
            self.aborting = Deadlock("all remaining threads are blocked")
            self.cur = left[0]
            left[0].go.release()
            return
        nxt = self._pick(self.policy(self, None, ("exit", self.cur.tid)))
        self.switches.append([self.cur.tid, self.cur.points, "x", nxt.tid])
        self.cur = nxt
        nxt.go.release()

    def run(self):
        global current_sched
        current_sched = self
        lines_on(self.instr)
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._main, (t,))
            first = self._pick(self.policy(self, None, ("start", 0)))
            self.cur = first
            self.switches.append([-1, 0, "s", first.tid])
            first.go.release()
            self.finished.acquire()
        finally:
            current_sched = None
            lines_off()
        return self


# Source lines that store somewhere other than a fresh local object: where a race has to begin.  Only a scheduling
# hint: SHARED_WRITES holds the likelier ones (attributes, globals, in-place tensor methods), WRITES also local containers.
SHARED_WRITES, WRITES = set(), set()
_MUT = {"append", "pop", "update", "setdefault", "clear", "extend", "insert", "remove", "sort", "popitem", "put",
        "appendleft", "popleft", "discard", "reverse"}


def scan_writes(repo):
    import ast
    for root, dirs, files in os.walk(os.path.join(repo, "deepquantum")):
        dirs[:] = [d for d in dirs if d != "tests"]
        for f in files:
            path = os.path.join(root, f)
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(path, encoding="utf8").read())
                except (SyntaxError, ValueError, OSError):
                    continue
                for fn in ast.walk(tree):
                    if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                        _scan_fn(ast, path, fn)


def _scan_fn(ast, path, fn):
    name = getattr(fn, "name", "")
    glob, local = set(), {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
    local -= glob

    def grade(t):
        if isinstance(t, ast.Name):
            return 2 if t.id in glob else 0
        if isinstance(t, ast.Starred):
            return grade(t.value)
        if isinstance(t, (ast.Tuple, ast.List)):
            return max([grade(x) for x in t.elts] or [0])
        if isinstance(t, ast.Attribute):
            own = name == "__init__" and isinstance(t.value, ast.Name) and t.value.id == "self"
            return 0 if own else 2
        if isinstance(t, ast.Subscript):
            b = t.value
            return 1 if isinstance(b, ast.Name) and b.id in local else 2
        return 0

    def mark(n, g):
        for ln in range(n.lineno, (n.end_lineno or n.lineno) + 1):
            if g:
                WRITES.add((path, ln))
            if g == 2:
                SHARED_WRITES.add((path, ln))

    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            mark(n, max(grade(t) for t in n.targets))
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            mark(n, max(grade(n.target), 1 if isinstance(n, ast.AugAssign) else 0))
        elif isinstance(n, ast.Delete):
            mark(n, max(grade(t) for t in n.targets))
        elif isinstance(n, ast.Call):
            if any(k.arg == "out" for k in n.keywords):
                mark(n, 2)
            if isinstance(n.func, ast.Attribute):
                a, b = n.func.attr, n.func.value
                if a.endswith("_") and not a.startswith("_"):
                    mark(n, 2)
                elif a in _MUT:
                    mark(n, 1 if isinstance(b, ast.Name) and b.id in local else 2)


_site_cache = {}


def hash_site(where):
    h = _site_cache.get(where)
    if h is None:
        x = 1469598103934665603
        for b in (os.path.basename(str(where[0])) + ":" + str(where[1])).encode():
            x = ((x ^ b) * 1099511628211) & 0xFFFFFFFFFFFF
        h = _site_cache[where] = x
    return h


# ------------------------------------------------------------------ policies
def policy_replay(switches):
    """Re-issues a recorded (possibly minimised) switch list.  Switches are keyed by the preempted task's own point
    count, so dropping other tasks' work does not shift them."""
    todo = {}
    for c, p, kind, k in switches:
        todo.setdefault((c, p, kind), []).append(k)

    def pol(sched, cur, where):
        if cur is None:
            key = (-1, 0, "s") if where[0] == "start" else (where[1], sched.tasks[where[1]].points, "x")
        else:
            key = (cur.tid, cur.points, "b" if where[0] == "block" else "p")
        q = todo.get(key)
        if q:
            return q.pop(0)
        return cur.tid if cur is not None else -1
    return pol


def policy_random(rng, n, p):
    def pol(sched, cur, where):
        if cur is None or rng.random() < p:
            return rng.below(n)
        return cur.tid
    return pol


def policy_pct(rng, n, depth, horizon):
    prio = rng.shuffle(list(range(n)))
    change = sorted(rng.below(max(1, horizon)) for _ in range(depth))

    def pol(sched, cur, where):
        while change and sched.step >= change[0]:
            change.pop(0)
            if cur is not None:
                lo = min(prio) - 1
                prio[cur.tid] = lo
        best, bp = (cur.tid if cur is not None else 0), None
        for t in sched.runnable():
            if bp is None or prio[t.tid] > bp:
                best, bp = t.tid, prio[t.tid]
        return best
    return pol


def policy_hot(rng, n, frac, p):
    """Switch only at a random subset of source sites (so rare windows get hit often)."""
    salt = rng.u32()

    def pol(sched, cur, where):
        if cur is None:
            return rng.below(n)
        if ((hash_site(where) * 2654435761 ^ salt) & 0xFFFF) < frac * 65536 and rng.random() < p:
            return rng.below(n)
        return cur.tid
    return pol


def policy_write(rng, n, frac, gap, stay, before, shared, p):
    """Preempt right after (or before) lines that write to something other than a local; the others run on for long."""
    salt = rng.u32()
    sites = SHARED_WRITES if shared else WRITES
    last, hold, left = {}, [0], [int(10 ** rng.uniform(0, gap))]

    def pol(sched, cur, where):
        if cur is None:
            return rng.below(n)
        prev = last.get(cur.tid)
        if isinstance(where[0], str) and where[0][:1] == "/":
            last[cur.tid] = where
        else:
            prev = None
        if sched.step < hold[0] or where[0] == "block":
            return cur.tid
        w = where if before else prev
        if w not in sites or ((hash_site(w) * 2654435761 ^ salt) & 0xFFFF) >= frac * 65536:
            return rng.below(n) if p and rng.random() < p else cur.tid
        left[0] -= 1
        if left[0] > 0:
            return cur.tid
        left[0] = int(10 ** rng.uniform(0, gap))
        hold[0] = sched.step + int(10 ** rng.uniform(stay - 1, stay))
        return (cur.tid + 1 + rng.below(max(1, n - 1))) % n
    return pol


def policy_stall(rng, n, horizon):
    """One thread at a time is stalled for a long stretch in the middle of a call while the others run."""
    marks = sorted((rng.below(max(1, horizon)), rng.below(n)) for _ in range(rng.randint(1, 3)))

    def pol(sched, cur, where):
        if cur is None:
            return rng.below(n)
        while marks and sched.step >= marks[0][0]:
            _, k = marks.pop(0)
            if k == cur.tid:
                k = (k + 1 + rng.below(max(1, n - 1))) % n
            return k
        return cur.tid
    return pol


def make_policy(spec, rng, n, horizon):
    k = spec["kind"]
    if k == "replay":
        return policy_replay(spec["switches"])
    if k == "random":
        return policy_random(rng, n, spec["p"])
    if k == "pct":
        return policy_pct(rng, n, spec["depth"], horizon)
    if k == "hot":
        return policy_hot(rng, n, spec["frac"], spec["p"])
    if k == "write":
        return policy_write(rng, n, spec["frac"], spec["gap"], spec["stay"], spec["before"], spec["shared"], spec["p"])
    if k == "stall":
        return policy_stall(rng, n, horizon)
    if k == "serial":
        return lambda sched, cur, where: cur.tid if cur is not None else 0
    raise KeyError(k)


# ------------------------------------------------------------------ valid alternative decompositions
def make_gauge(rng, kinds, stats):
    """Returns a function that turns one valid SVD/QR answer into another valid one."""
    import torch

    def rand_unitary(n, dtype):
        a = torch.tensor([[complex(rng.gauss(), rng.gauss()) for _ in range(n)] for _ in range(n)],
                         dtype=torch.complex128)
        q, r = torch.linalg.qr(a)
        q = q.to(dtype) if dtype.is_complex else None
        return q

    def apply(U, S, V):
        n = S.shape[-1]
        # U: m x n, V: k x n with A = U S V^H
        W = torch.eye(n, dtype=U.dtype)
        if "phase" in kinds:
            if U.dtype.is_complex:
                ph = torch.tensor([cmath.rect(1, rng.uniform(0, 6.283185307)) for _ in range(n)],
                                  dtype=U.dtype)
            else:
                ph = torch.tensor([rng.choice([1.0, -1.0]) for _ in range(n)], dtype=U.dtype)
            W = W * ph
            stats["gauge_phase"] = stats.get("gauge_phase", 0) + 1
        if "rotate" in kinds and U.dtype.is_complex:
            s = S.detach().double().tolist()
            top = max(s[0], 1e-30) if s else 1.0
            i = 0
            while i < n:
                j = i + 1
                while j < n and abs(s[j] - s[i]) <= 3e-7 * top:
                    j += 1
                if j - i > 1:
                    q = rand_unitary(j - i, U.dtype)
                    B = torch.eye(n, dtype=U.dtype)
                    B[i:j, i:j] = q
                    W = W @ B
                    stats["gauge_rotate"] = stats.get("gauge_rotate", 0) + 1
                i = j
        U2, V2 = U @ W, V @ W
        S2 = S
        if "noise" in kinds:
            eps = 6e-8 * float(S.detach().max()) if n else 0.0
            d = torch.tensor([eps * rng.uniform(0, 2) for _ in range(n)], dtype=S.dtype)
            S2 = torch.sort(S + d, descending=True)[0] if n else S
            stats["gauge_noise"] = stats.get("gauge_noise", 0) + 1
        return U2, S2, V2

    def g(name, r, args, region):
        if "svd" in name:
            if not isinstance(r, tuple) or len(r) != 3:
                return r
            U, S, V = r
            if U.dim() != 2 or U.shape[1] != S.shape[0]:
                return r
            if name == "svd":
                if V.shape[1] != S.shape[0]:
                    return r
                return type_like(r, apply(U, S, V))
            if V.shape[0] != S.shape[0]:
                return r
            U2, S2, V2 = apply(U, S, V.mH)
            return type_like(r, (U2, S2, V2.mH))
        if name in ("qr", "linalg_qr", "eigh", "linalg_eigh") and "phase" in kinds and isinstance(r, tuple) and len(r) == 2:
            # orthogonal factor times phases (the triangular factor takes them back)
            A, B = r if "qr" in name else (r[1], None)
            if A.dim() != 2 or (B is not None and B.shape[0] != A.shape[1]):
                return r
            ph = torch.tensor([cmath.rect(1, rng.uniform(0, 6.283185307)) if A.dtype.is_complex else rng.choice([1.0, -1.0])
                               for _ in range(A.shape[1])], dtype=A.dtype)
            stats["gauge_phase"] = stats.get("gauge_phase", 0) + 1
            return type(r)((A * ph, ph.conj().unsqueeze(1) * B) if B is not None else (r[0], A * ph))
        return r

    def type_like(r, vals):
        T = collections.namedtuple("svd", ["U", "S", "V"])

        class SVD(T):
            @property
            def Vh(self):
                return self[2]
        return SVD(*vals)
    return g
