"""Executable reference model: quantum circuits in numpy complex128, written from the documentation and from
textbook definitions.  It shares no code with the repository."""
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
PAULI = {"X": X, "Y": Y, "Z": Z}
SW = np.eye(4, dtype=complex)[[0, 2, 1, 3]]


def rot(P, t):
    return np.cos(t / 2) * np.eye(P.shape[0]) - 1j * np.sin(t / 2) * P


def u3m(p):
    th, ph, la = p
    return rot(Z, ph) @ rot(X, -np.pi / 2) @ rot(Z, th) @ rot(X, np.pi / 2) @ rot(Z, la)


def ctrl(U, nc=1):
    d = U.shape[0] * 2 ** nc
    M = np.eye(d, dtype=complex)
    M[d - U.shape[0]:, d - U.shape[0]:] = U
    return M


# kind -> rotation axes for the per-qubit layers, first letter acts first
LAYERS = {"XYZLayer": "XYZ", "ZYXLayer": "ZYX", "YZYLayer": "YZY", "XZXLayer": "XZX", "XZLayer": "XZ", "ZXLayer": "ZX"}


def ring_pairs(w, step=1):
    L = len(w)
    if L == 2:
        return [(w[0], w[1])]
    return [(w[i], w[(i + step) % L]) for i in range(L)]


def pieces(g):
    """A gate record {"k","w","p",...} as a list of (matrix, qubits) applied in order."""
    k, w, p = g["k"], g["w"], g.get("p")
    if k == "Hadamard":
        return [(H, [w])]
    if k in ("PauliX", "PauliY", "PauliZ"):
        return [(PAULI[k[-1]], [w])]
    if k in ("rx", "ry", "rz"):
        return [(rot(PAULI[k[-1].upper()], p[0]), [w])]
    if k == "u1":
        return [(np.diag([1, np.exp(1j * p[0])]), [w])]
    if k == "u3":
        return [(u3m(p), [w])]
    if k in ("rxx", "ryy", "rzz"):
        P = PAULI[k[-1].upper()]
        return [(rot(np.kron(P, P), p[0]), list(w))]
    if k == "cnot":
        return [(ctrl(X), list(w))]
    if k == "cz":
        return [(ctrl(Z), list(w))]
    if k == "cphase":
        return [(ctrl(np.diag([1, np.exp(1j * p[0])])), list(w))]
    if k == "cu3":
        return [(ctrl(u3m(p)), list(w))]
    if k == "SWAP":
        return [(SW, list(w))]
    if k == "toffoli":
        return [(ctrl(X, 2), list(w))]
    if k == "multi_control_cnot":
        return [(ctrl(X, len(w) - 1), list(w))]
    if k == "HLayer":
        return [(H, [q]) for q in w]
    if k in LAYERS:
        ax = LAYERS[k]
        m = len(ax)
        return [(rot(PAULI[a], p[m * i + j]), [q]) for i, q in enumerate(w) for j, a in enumerate(ax)]
    if k == "ring_of_cnot":
        return [(ctrl(X), list(c)) for c in ring_pairs(w)]
    if k == "ring_of_cnot_dagger":
        return [(ctrl(X), list(c)) for c in reversed(ring_pairs(w))]
    if k == "ring_of_cnot2":
        return [(ctrl(X), list(c)) for c in ring_pairs(w, 2)]
    if k == "BasicEntangleLayer":
        out, L = [], 3 * len(w)
        for r in range(g.get("r", 1)):
            out += pieces({"k": "YZYLayer", "w": w, "p": p[r * L:(r + 1) * L]})
            out += pieces({"k": "ring_of_cnot", "w": w})
        return out
    if k == "PauliEncoding":
        x = g["x"]
        return [(rot(PAULI[g["pauli"]], x[i % len(x)]), [q]) for i, q in enumerate(w)]
    raise KeyError(k)


def apply(N, T, M, qs):
    """Apply matrix M on qubits qs (first listed most significant) to T of shape (2^N, ...)."""
    m = len(qs)
    rest = T.shape[1:]
    T = T.reshape((2,) * N + (-1,))
    T = np.tensordot(M.reshape((2,) * (2 * m)), T, axes=(list(range(m, 2 * m)), qs))
    T = np.moveaxis(T, list(range(m)), qs)
    return T.reshape((2 ** N,) + rest)


def run(N, gates, T):
    for g in gates:
        for M, qs in pieces(g):
            T = apply(N, T, M, qs)
    return T


def unitary(N, gates):
    return run(N, gates, np.eye(2 ** N, dtype=complex))


def gate_u(N, g):
    return unitary(N, [g])


def nparams(g):
    return len(g["p"]) if g.get("p") is not None else 0


def grad(N, gates, psi, M):
    """d <psi|U+ M U|psi> / dp for every parameter in circuit order, exactly (adjoint method on the generators)."""
    GEN = {"rx": X, "ry": Y, "rz": Z}
    # forward states before each elementary piece
    seq = []   # (matrix, qubits, dmatrix or None)
    for g in gates:
        k, w, p = g["k"], g["w"], g.get("p")
        if p is None:
            seq += [(m, q, []) for m, q in pieces(g)]
        elif k in GEN:
            seq.append((rot(GEN[k], p[0]), [w], [drot(GEN[k], p[0])]))
        elif k in ("rxx", "ryy", "rzz"):
            P = PAULI[k[-1].upper()]
            P = np.kron(P, P)
            seq.append((rot(P, p[0]), list(w), [drot(P, p[0])]))
        elif k == "u1":
            seq.append((pieces(g)[0][0], [w], [np.diag([0, 1j * np.exp(1j * p[0])])]))
        elif k == "cphase":
            seq.append((pieces(g)[0][0], list(w), [np.diag([0, 0, 0, 1j * np.exp(1j * p[0])])]))
        elif k in ("u3", "cu3"):
            th, ph, la = p
            a, b, c, d, e = rot(Z, ph), rot(X, -np.pi / 2), rot(Z, th), rot(X, np.pi / 2), rot(Z, la)
            ds = [a @ b @ drot(Z, th) @ d @ e, drot(Z, ph) @ b @ c @ d @ e, a @ b @ c @ d @ drot(Z, la)]
            if k == "cu3":
                ds = [np.kron(np.diag([0, 1]), m) for m in ds]
                seq.append((pieces(g)[0][0], list(w), ds))
            else:
                seq.append((pieces(g)[0][0], [w], ds))
        elif k in LAYERS or k == "BasicEntangleLayer":
            reps = [(k, p)] if k in LAYERS else [("YZYLayer", p[r * 3 * len(w):(r + 1) * 3 * len(w)])
                                                 for r in range(g.get("r", 1))]
            for kk, pp in reps:
                ax = LAYERS[kk]
                for i, q in enumerate(w):
                    for j, ch in enumerate(ax):
                        t = pp[len(ax) * i + j]
                        seq.append((rot(PAULI[ch], t), [q], [drot(PAULI[ch], t)]))
                if k == "BasicEntangleLayer":
                    seq += [(m, q, []) for m, q in pieces({"k": "ring_of_cnot", "w": w})]
        else:
            raise KeyError(k)
    fw = [psi.reshape(-1)]
    for m, q, _ in seq:
        fw.append(apply(N, fw[-1], m, q))
    bra = M.conj().T @ fw[-1]
    out = []
    for i in range(len(seq) - 1, -1, -1):
        m, q, ds = seq[i]
        part = [2 * np.vdot(bra, apply(N, fw[i], d, q)).real for d in ds]
        out = part + out
        bra = apply(N, bra, m.conj().T, q)
    return np.array(out)


def drot(P, t):
    return -0.5 * np.sin(t / 2) * np.eye(P.shape[0]) - 0.5j * np.cos(t / 2) * P


def expval(psi, M):
    psi = psi.reshape(-1)
    return float(np.vdot(psi, M @ psi).real)


def ptrace(rho, N, out):
    keep = [q for q in range(N) if q not in out]
    T = rho.reshape((2,) * (2 * N))
    perm = keep + sorted(out) + [N + q for q in keep] + [N + q for q in sorted(out)]
    a, b = 2 ** len(keep), 2 ** len(out)
    T = T.transpose(perm).reshape(a, b, a, b)
    return np.einsum("ibjb->ij", T)


def local_op(N, ops):
    """{qubit: 2x2} as a full matrix."""
    M = np.eye(1, dtype=complex)
    for q in range(N):
        M = np.kron(M, ops.get(q, I2))
    return M


def conv_window(win, w3, n):
    """Reference for one window of the quantum convolution: ry data encoding, rx-rz-rx per qubit, cnot ring."""
    gates = [{"k": "ry", "w": q, "p": [np.pi * float(win[q])]} for q in range(n)]
    for q in range(n):
        gates += [{"k": "rx", "w": q, "p": [w3[3 * q]]}, {"k": "rz", "w": q, "p": [w3[3 * q + 1]]},
                  {"k": "rx", "w": q, "p": [w3[3 * q + 2]]}]
    if n > 1:
        gates += [{"k": "cnot", "w": [q, (q + 1) % n]} for q in range(n)]
    psi = np.zeros(2 ** n, dtype=complex)
    psi[0] = 1
    psi = run(n, gates, psi)
    pr = np.abs(psi.reshape((2,) * n)) ** 2
    return np.array([(pr.take(0, axis=q).sum() - pr.take(1, axis=q).sum()) for q in range(n)])
