"""The matrix a piece of projectq code denotes: run it on one half of a maximally entangled reference state."""
import math

import numpy as np

from .core import Violation
from .refbackend import make


class Choi:
    """eng, regs: apply something to regs, then matrix() has one column per basis state in `support`."""

    def __init__(self, sizes, engines=(), available=None, support=None, outcomes=(), loose=False):
        from projectq import MainEngine
        self.be = make()(available=available, outcomes=outcomes, loose_dealloc=loose)
        self.eng = MainEngine(self.be, list(engines), verbose=True)
        self.regs = [self.eng.allocate_qureg(k) for k in sizes]
        self.eng.flush()
        self.ids = [q.id for r in self.regs for q in r]
        self.n = len(self.ids)
        self.support = list(range(1 << self.n)) if support is None else list(support)
        m = len(self.support)
        self.r = max(1, math.ceil(math.log2(m))) if m > 1 else 0
        st = self.be.state
        if sorted(st.ids) != sorted(self.ids):
            raise Violation("after allocating %s the backend has %s" % (self.ids, st.ids))
        self.refs = ["ref%d" % i for i in range(self.r)]
        psi = np.zeros(1 << (self.n + self.r), dtype=complex)
        for j, x in enumerate(self.support):
            psi[x | (j << self.n)] = 1 / math.sqrt(m)
        st.ids = list(self.ids) + self.refs
        st.psi = psi

    def matrix(self):
        self.eng.flush()
        st = self.be.state
        extra = [i for i in st.ids if i not in self.ids and i not in self.refs]
        if extra:
            raise Violation("helper qubits %s were not released" % extra)
        gone = [i for i in self.ids if i not in st.ids]
        if gone:
            raise Violation("qubits %s were released" % gone)
        m = len(self.support)
        v = st.vector(self.ids + self.refs).reshape(-1, 1 << self.n)
        return (v[:m] * math.sqrt(m)).T

    def close(self):
        """Drop the live qubits without asking the model to release them (they may be in superposition)."""
        self.be.loose = None
        self.be.one = lambda cmd: None
        self.regs = None


def expand(mat, n, targets, ctrls=()):
    """Matrix on n qubits of `mat` on targets with [[control, value]...]."""
    from . import ref
    s = ref.RefState()
    s.ids = list(range(n)) + ["c"]
    d = 1 << n
    cols = []
    for x in range(d):
        s.ids = list(range(n))
        s.psi = np.zeros(d, dtype=complex)
        s.psi[x] = 1
        s.apply(mat, targets, [c for c, _ in ctrls], [v for _, v in ctrls])
        cols.append(s.psi)
    return np.array(cols).T


def spec_matrix(sp, regs, ctrls, n):
    """Matrix on qubits 0..n-1 of a spec applied to registers of qubit numbers."""
    from . import ref, spec

    def f(s):
        spec.act(s, sp, regs, ctrls)
    return ref.unitary_of(f, n)
