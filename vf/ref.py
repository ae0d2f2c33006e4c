"""Reference model: a dense state vector over named qubits, written independently of the code under test.

A basis index carries the value of qubit ids[i] in bit i.  Nothing here imports projectq.
"""
import cmath
import math

import numpy as np

TOL = 1e-7


class RefError(Exception):
    """An operation the model refuses (unknown qubit, releasing a qubit in superposition, ...)."""


def bits_of(value, n):
    return [(value >> i) & 1 for i in range(n)]


class RefState:
    def __init__(self):
        self.ids = []
        self.psi = np.ones(1, dtype=complex)

    def copy(self):
        r = RefState()
        r.ids = list(self.ids)
        r.psi = self.psi.copy()
        return r

    @property
    def n(self):
        return len(self.ids)

    def pos(self, q):
        try:
            return self.ids.index(q)
        except ValueError:
            raise RefError("qubit %r is not live" % (q,)) from None

    def alloc(self, q, value=0):
        if q in self.ids:
            raise RefError("qubit %r allocated twice" % (q,))
        self.ids.append(q)
        z = np.zeros_like(self.psi)
        self.psi = np.concatenate([self.psi, z] if not value else [z, self.psi])

    def prob1(self, q):
        p = self.pos(q)
        t = self.psi.reshape((-1, 2, 1 << p))
        return float(np.sum(np.abs(t[:, 1, :]) ** 2))

    def value(self, q):
        """0/1 when the qubit is classical, None when in superposition."""
        p1 = self.prob1(q)
        if p1 < TOL:
            return 0
        if p1 > 1 - TOL:
            return 1
        return None

    def project(self, q, bit):
        p = self.pos(q)
        t = self.psi.reshape((-1, 2, 1 << p)).copy()
        t[:, 1 - bit, :] = 0
        nrm = np.linalg.norm(t)
        if nrm < 1e-6:
            raise RefError("outcome %d of qubit %r has probability zero" % (bit, q))
        self.psi = (t / nrm).reshape(-1)

    def dealloc(self, q):
        v = self.value(q)
        if v is None:
            raise RefError("qubit %r released in superposition" % (q,))
        p = self.pos(q)
        self.psi = self.psi.reshape((-1, 2, 1 << p))[:, v, :].reshape(-1).copy()
        self.psi = self.psi / np.linalg.norm(self.psi)
        del self.ids[p]
        return v

    def discard(self, q):
        """Release a qubit known to be unentangled (in any state): keep the other qubits' pure state."""
        p = self.pos(q)
        t = self.psi.reshape((-1, 2, 1 << p))
        b = 0 if np.linalg.norm(t[:, 0, :]) >= np.linalg.norm(t[:, 1, :]) else 1
        v = t[:, b, :].reshape(-1).copy()
        w = t[:, 1 - b, :].reshape(-1)
        if abs(abs(np.vdot(v, w)) - np.linalg.norm(v) * np.linalg.norm(w)) > 1e-6:
            raise RefError("qubit %r is entangled" % (q,))
        self.psi = v / np.linalg.norm(v)
        del self.ids[p]

    def _mask(self, controls, vals):
        idx = np.arange(len(self.psi))
        ok = np.ones(len(self.psi), dtype=bool)
        for c, v in zip(controls, vals):
            ok &= ((idx >> self.pos(c)) & 1) == v
        return idx, ok

    def apply(self, mat, targets, controls=(), vals=None):
        """mat acts on targets, first target least significant, where all controls have their values."""
        vals = [1] * len(controls) if vals is None else list(vals)
        mat = np.asarray(mat, dtype=complex)
        k = len(targets)
        if mat.shape != (1 << k, 1 << k):
            raise RefError("matrix of shape %s on %d qubits" % (mat.shape, k))
        allq = list(targets) + list(controls)
        if len(set(allq)) != len(allq):
            raise RefError("qubit used twice in one gate: %s" % (allq,))
        idx, ok = self._mask(controls, vals)
        ps = [self.pos(t) for t in targets]
        for p in ps:
            ok &= ((idx >> p) & 1) == 0
        base = idx[ok]
        offs = np.array([sum(((v >> j) & 1) << ps[j] for j in range(k)) for v in range(1 << k)], dtype=np.int64)
        g = base[:, None] + offs[None, :]
        self.psi[g] = self.psi[g] @ mat.T

    def permute(self, fn, regs, controls=(), vals=None):
        """fn: tuple of register values -> tuple of register values (taken modulo register size)."""
        vals = [1] * len(controls) if vals is None else list(vals)
        idx, ok = self._mask(controls, vals)
        pos = [[self.pos(q) for q in r] for r in regs]
        new = np.zeros_like(self.psi)
        new[~ok] = self.psi[~ok]
        cache = {}
        hit = np.zeros(len(self.psi), dtype=bool)
        hit[~ok] = True
        for i in idx[ok]:
            i = int(i)
            a = self.psi[i]
            if a == 0:
                continue
            args = tuple(sum(((i >> p) & 1) << j for j, p in enumerate(r)) for r in pos)
            if args not in cache:
                cache[args] = tuple(fn(*args))
            res = cache[args]
            o = i
            for r, v in zip(pos, res):
                for j, p in enumerate(r):
                    o = (o & ~(1 << p)) | (((v >> j) & 1) << p)
            if hit[o]:
                raise RefError("function is not reversible on the occupied basis states")
            hit[o] = True
            new[o] = a
        self.psi = new

    def vector(self, order):
        """State with order[i] in bit i (order must list all live qubits)."""
        if sorted(map(str, order)) != sorted(map(str, self.ids)):
            raise RefError("live qubits are %s, asked for %s" % (self.ids, list(order)))
        return reorder(self.psi, self.ids, order)

    def prob(self, order, bits):
        idx, ok = self._mask(order, bits)
        return float(np.sum(np.abs(self.psi[ok]) ** 2))

    def marginal(self, order):
        idx = np.arange(len(self.psi))
        key = np.zeros(len(self.psi), dtype=np.int64)
        for j, q in enumerate(order):
            key |= ((idx >> self.pos(q)) & 1) << j
        return np.bincount(key, weights=np.abs(self.psi) ** 2, minlength=1 << len(order))


def reorder(psi, ids, order):
    n = len(ids)
    t = psi.reshape((2,) * n)              # axis a carries bit n-1-a
    axis = {q: n - 1 - i for i, q in enumerate(ids)}
    return t.transpose([axis[q] for q in reversed(list(order))]).reshape(-1)


def phase_distance(u, v):
    """min over a global phase of max |u - e^{i phi} v| (vectors or matrices)."""
    u = np.asarray(u, dtype=complex).reshape(-1)
    v = np.asarray(v, dtype=complex).reshape(-1)
    if u.shape != v.shape:
        return float("inf")
    ov = np.vdot(v, u)
    ph = ov / abs(ov) if abs(ov) > 1e-12 else 1.0
    return float(np.max(np.abs(u - ph * v)))


def same_up_to_phase(u, v, tol=1e-6):
    return phase_distance(u, v) < tol


# ------------------------------------------------------------------ matrices (own table)
I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PAULI = {"I": I2, "X": PX, "Y": PY, "Z": PZ}
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def rot(p, theta):
    return math.cos(theta / 2) * np.eye(len(p)) - 1j * math.sin(theta / 2) * p


FIXED = {
    "X": PX, "Y": PY, "Z": PZ,
    "H": np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2),
    "S": np.diag([1, 1j]), "T": np.diag([1, cmath.exp(1j * math.pi / 4)]),
    "Sdag": np.diag([1, -1j]), "Tdag": np.diag([1, cmath.exp(-1j * math.pi / 4)]),
    "SqrtX": 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]),
    "SqrtXdag": 0.5 * np.array([[1 - 1j, 1 + 1j], [1 + 1j, 1 - 1j]]),
    "Swap": SWAP,
    "SqrtSwap": 0.5 * ((1 + 1j) * np.eye(4) + (1 - 1j) * SWAP),
    "SqrtSwapdag": 0.5 * ((1 - 1j) * np.eye(4) + (1 + 1j) * SWAP),
}
PARAM = {
    "Rx": lambda a: rot(PX, a), "Ry": lambda a: rot(PY, a), "Rz": lambda a: rot(PZ, a),
    "Ph": lambda a: cmath.exp(1j * a) * I2, "R": lambda a: np.diag([1, cmath.exp(1j * a)]),
    "Rxx": lambda a: rot(np.kron(PX, PX), a), "Ryy": lambda a: rot(np.kron(PY, PY), a),
    "Rzz": lambda a: rot(np.kron(PZ, PZ), a),
}
NQ = {g: 1 for g in ("X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "SqrtXdag", "Rx", "Ry", "Rz", "Ph", "R")}
NQ.update({g: 2 for g in ("Swap", "SqrtSwap", "SqrtSwapdag", "Rxx", "Ryy", "Rzz")})


def matrix(name, params=()):
    if name in FIXED:
        return FIXED[name]
    if name in PARAM:
        return PARAM[name](*params)
    raise KeyError(name)


def pauli_string(paulis, n):
    """Matrix of a product of Paulis {index: letter} on n qubits, qubit 0 least significant."""
    m = np.ones((1, 1), dtype=complex)
    for i in range(n):
        m = np.kron(PAULI[paulis.get(i, "I")], m)
    return m


def pauli_sum(terms, n):
    """terms: iterable of (((index, letter), ...), coefficient)."""
    out = np.zeros((1 << n, 1 << n), dtype=complex)
    for t, c in terms:
        m = np.eye(1 << n, dtype=complex)
        for i, p in t:
            m = m @ pauli_string({i: p}, n)
        out = out + c * m
    return out


def expm_herm(h, t):
    """exp(-i t h) for Hermitian h."""
    w, v = np.linalg.eigh((h + h.conj().T) / 2)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def qft_matrix(n):
    """ProjectQ's convention: QFT without the final bit reversal.

    |x> -> product over k of (|0> + exp(2 pi i x / 2^(k+1)) |1>)/sqrt2 on qubit k (first qubit least significant).
    """
    d = 1 << n
    m = np.zeros((d, d), dtype=complex)
    for x in range(d):
        v = np.ones(1, dtype=complex)
        for k in range(n):
            v = np.kron(np.array([1, cmath.exp(2j * math.pi * x / (1 << (k + 1)))]) / math.sqrt(2), v)
        m[:, x] = v
    return m


def entangle_matrix(n):
    d = 1 << n
    m = np.zeros((d, d), dtype=complex)
    for x in range(d):
        rest = x & ~1
        for b in (0, 1):
            amp = (1 / math.sqrt(2)) * (-1 if (b and (x & 1)) else 1)
            y = rest | b
            if b:
                y = (y ^ (d - 1)) | 1      # flip all other qubits
            m[y, x] += amp
    return m


def unitary_of(fn, n):
    """Matrix of a state transformation: fn(state) mutates a RefState over qubits 0..n-1."""
    d = 1 << n
    cols = []
    for x in range(d):
        s = RefState()
        s.ids = list(range(n))
        s.psi = np.zeros(d, dtype=complex)
        s.psi[x] = 1
        fn(s)
        cols.append(s.vector(list(range(n))))
    return np.array(cols).T
