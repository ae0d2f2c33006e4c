"""Meaning of projectq commands, as an action on the reference state (own matrices, keyed by gate class)."""
import math

import numpy as np

from . import ref


class NoMeaning(Exception):
    """The gate has no meaning of its own in the model (it must be compiled first)."""


def _ops():
    import projectq.ops as o
    return o


def dag(m):
    return np.asarray(m).conj().T


def qubit_operator_terms(op):
    return [(tuple(t), complex(c)) for t, c in op.terms.items()]


def ucr_matrix(angles, n_ctrl, which):
    """Matrix over (controls..., target): target is the most significant qubit."""
    d = 1 << n_ctrl
    m = np.zeros((2 * d, 2 * d), dtype=complex)
    for k in range(d):
        r = ref.PARAM[which](angles[k])
        for a in (0, 1):
            for b in (0, 1):
                m[k + a * d, k + b * d] = r[a, b]
    return m


def first_column_unitary(v):
    """Some unitary whose first column is v."""
    v = np.asarray(v, dtype=complex)
    d = len(v)
    ph = v[0] / abs(v[0]) if abs(v[0]) > 1e-12 else 1.0
    e = np.zeros(d, dtype=complex)
    e[0] = 1
    w = v / ph - e
    n = np.linalg.norm(w)
    if n < 1e-9:
        return ph * np.eye(d)
    w = w / n
    return ph * (np.eye(d) - 2 * np.outer(w, w.conj()))


def gate_matrix(gate, qubits):
    """Matrix of `gate` on its flattened target qubits (first least significant); raise NoMeaning otherwise."""
    o = _ops()
    n = sum(len(r) for r in qubits)
    if isinstance(gate, o.DaggeredGate):
        return dag(gate_matrix(gate.get_inverse(), qubits))
    if isinstance(gate, o.SqrtXGate):
        return ref.FIXED["SqrtX"]
    for cls, name in ((o.XGate, "X"), (o.YGate, "Y"), (o.ZGate, "Z"), (o.HGate, "H"), (o.SGate, "S"), (o.TGate, "T"),
                      (o.SwapGate, "Swap"), (o.SqrtSwapGate, "SqrtSwap")):
        if type(gate) is cls:
            return ref.FIXED[name]
    for name in ("Rx", "Ry", "Rz", "R", "Rxx", "Ryy", "Rzz", "Ph"):
        if type(gate) is getattr(o, name):
            if name == "Ph":
                return np.exp(1j * gate.angle) * np.eye(1 << n)
            return ref.PARAM[name](gate.angle)
    if isinstance(gate, o.UniformlyControlledRy):
        return ucr_matrix(gate.angles, len(qubits[0]) if len(qubits) == 2 else 0, "Ry")
    if isinstance(gate, o.UniformlyControlledRz):
        return ucr_matrix(gate.angles, len(qubits[0]) if len(qubits) == 2 else 0, "Rz")
    if isinstance(gate, o.TimeEvolution):
        h = ref.pauli_sum(qubit_operator_terms(gate.hamiltonian), n)
        return ref.expm_herm(h, gate.time)
    if isinstance(gate, o.QubitOperator):
        return ref.pauli_sum(qubit_operator_terms(gate), n)
    if type(gate) is type(o.QFT):
        return ref.qft_matrix(n)
    if isinstance(gate, o.EntangleGate):
        return ref.entangle_matrix(n)
    if isinstance(gate, o.StatePreparation):
        return first_column_unitary(gate.final_state)
    if isinstance(gate, o.FlipBits):
        m = np.eye(1, dtype=complex)
        for i in range(n):
            m = np.kron(ref.PX if (gate.bits_to_flip >> i) & 1 else ref.I2, m)
        return m
    if isinstance(gate, o.MatrixGate) or isinstance(getattr(gate, "matrix", None), np.ndarray):
        return np.asarray(gate.matrix, dtype=complex)
    raise NoMeaning(str(gate))


# ---------------------------------------------------------------- arithmetic (own integer semantics)
def add_quantum(sizes):
    def f(a, b, c=None):
        s = a + b
        n = sizes[1]
        if c is None:
            return (a, s % (1 << n))
        return (a, s % (1 << n), c ^ (1 if s >> n else 0))
    return f


def inv_add_quantum(sizes):
    def f(a, b, c=None):
        n = sizes[1]
        d = (b - a) % (1 << n)
        if c is None:
            return (a, d)
        return (a, d, c ^ (1 if (a + d) >> n else 0))
    return f


def subtract_quantum(a, b):
    return (a, b - a)


def comparator(a, b, c):
    return (a, b, c ^ (1 if a > b else 0))


def divide(dividend, remainder, divisor):
    if divisor == 0 or divisor > dividend:
        return (remainder, dividend, divisor)
    q = remainder + dividend // divisor
    return (dividend - q * divisor, q, divisor)


def inv_divide(remainder, quotient, divisor):
    if divisor == 0:
        return (quotient, remainder, divisor)
    return (remainder + quotient * divisor, 0, divisor)


def multiply(a, b, c):
    return (a, b, c + a * b)


def inv_multiply(a, b, c):
    return (a, b, c - a * b)


def math_function(gate, sizes):
    """Integer function of a known arithmetic gate, or None."""
    import projectq.libs.math as m
    o = _ops()
    if isinstance(gate, o.DaggeredGate):
        base = gate.get_inverse()
        if isinstance(base, m.MultiplyByConstantModN):
            inv = pow(base.a, -1, base.N)
            return lambda x: (inv * x % base.N if x < base.N else x,)
        for fwd, f in ((m.AddQuantum, add_quantum(sizes)), (m.DivideQuantum, divide), (m.MultiplyQuantum, multiply)):
            if type(base) is type(fwd.get_inverse()):
                return f
        return None
    if isinstance(gate, m.AddConstant):
        return lambda x: (x + gate.a,)
    if isinstance(gate, m.AddConstantModN):
        return lambda x: ((x + gate.a) % gate.N if x < gate.N else x,)
    if isinstance(gate, m.MultiplyByConstantModN):
        return lambda x: (gate.a * x % gate.N if x < gate.N else x,)
    if isinstance(gate, type(m.AddQuantum)):
        return add_quantum(sizes)
    if isinstance(gate, type(m.SubtractQuantum)):
        return subtract_quantum
    if isinstance(gate, type(m.ComparatorQuantum)):
        return comparator
    if isinstance(gate, type(m.DivideQuantum)):
        return divide
    if isinstance(gate, type(m.MultiplyQuantum)):
        return multiply
    for fwd, inv in ((m.AddQuantum, inv_add_quantum(sizes)), (m.DivideQuantum, inv_divide),
                     (m.MultiplyQuantum, inv_multiply)):
        if type(gate) is type(fwd.get_inverse()):
            return inv
    return None


def control_values(cmd):
    """[(qubit id, value)] of a command."""
    ids = [q.id for q in cmd.control_qubits]
    state = str(cmd.control_state)
    if len(state) != len(ids):
        raise NoMeaning("control state %r for %d control qubits" % (state, len(ids)))
    return list(zip(ids, [int(c) for c in state]))


def apply_command(state, cmd):
    """Apply a unitary command to a RefState whose qubits are named by command qubit ids."""
    o = _ops()
    gate = cmd.gate
    regs = [[q.id for q in r] for r in cmd.qubits]
    ctl = control_values(cmd)
    cids, cvals = [c for c, _ in ctl], [v for _, v in ctl]
    if len(set(cids)) != len(cids):
        seen = {}
        for c, v in ctl:
            seen[c] = v
        cids, cvals = list(seen), list(seen.values())
    if isinstance(gate, o.BasicMathGate) or isinstance(gate, o.DaggeredGate):
        f = math_function(gate, [len(r) for r in regs])
        if f is None and isinstance(gate, o.BasicMathGate):
            mf = gate.get_math_function(cmd.qubits)
            f = lambda *a: tuple(mf(list(a)))  # noqa: E731
        if f is not None:
            state.permute(f, regs, cids, cvals)
            return
    flat = [q for r in regs for q in r]
    if isinstance(gate, o.TimeEvolution) and False:
        return
    state.apply(gate_matrix(gate, cmd.qubits), flat, cids, cvals)


def is_classical_instruction(gate):
    o = _ops()
    return isinstance(gate, o.ClassicalInstructionGate)


PI = math.pi
