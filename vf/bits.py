"""A last engine that runs reversible classical circuits on many basis states at once (any width)."""
import numpy as np

from .core import Violation


def make():
    from projectq.cengines import BasicEngine
    from projectq.ops import (
        AllocateQubitGate, BarrierGate, ClassicalInstructionGate, DeallocateQubitGate, FlushGate, SwapGate, XGate,
    )

    class BitBackend(BasicEngine):
        """bits[id] is an array with the qubit's value in each of `m` runs; native(cmd) -> function or None."""

        def __init__(self, m, native=None):
            super().__init__()
            self.m = m
            self.bits = {}
            self.native = native
            self.ops = 0
            self.initial = set()

        def is_available(self, cmd):
            if isinstance(cmd.gate, (ClassicalInstructionGate, XGate, SwapGate)):
                return True
            return bool(self.native and self.native(cmd))

        def receive(self, command_list):
            for cmd in command_list:
                self.one(cmd)

        def mask(self, cmd):
            ok = np.ones(self.m, dtype=bool)
            for q, v in zip(cmd.control_qubits, str(cmd.control_state)):
                ok &= self.bits[q.id] == int(v)
            return ok

        def one(self, cmd):
            g = cmd.gate
            if isinstance(g, (FlushGate, BarrierGate)):
                return
            if isinstance(g, AllocateQubitGate):
                i = cmd.qubits[0][0].id
                if i in self.bits:
                    raise Violation("qubit %d allocated twice" % i)
                self.bits[i] = np.zeros(self.m, dtype=np.uint8)
                return
            if isinstance(g, DeallocateQubitGate):
                i = cmd.qubits[0][0].id
                if i not in self.initial and np.any(self.bits[i]):
                    k = int(np.flatnonzero(self.bits[i])[0])
                    raise Violation("helper qubit released in state 1 (run %d)" % k)
                del self.bits[i]
                return
            self.ops += 1
            for r in list(cmd.qubits) + [cmd.control_qubits]:
                for q in r:
                    if q.id not in self.bits:
                        raise Violation("command on qubit %d, which is not live: %s" % (q.id, cmd))
            ok = self.mask(cmd)
            if isinstance(g, XGate):
                self.bits[cmd.qubits[0][0].id] ^= ok.astype(np.uint8)
            elif isinstance(g, SwapGate):
                a, b = cmd.qubits[0][0].id, cmd.qubits[1][0].id
                x, y = self.bits[a].copy(), self.bits[b].copy()
                self.bits[a] = np.where(ok, y, x)
                self.bits[b] = np.where(ok, x, y)
            else:
                f = self.native(cmd) if self.native else None
                if f is None:
                    raise Violation("unexpected gate %s reached the backend" % cmd)
                regs = [[q.id for q in r] for r in cmd.qubits]
                for k in range(self.m):
                    if not ok[k]:
                        continue
                    vals = [self.value(r, k) for r in regs]
                    res = f(*vals)
                    for r, v in zip(regs, res):
                        for j, i in enumerate(r):
                            self.bits[i][k] = (v >> j) & 1

        def value(self, ids, k):
            return sum(int(self.bits[i][k]) << j for j, i in enumerate(ids))

        def load(self, ids, values):
            for j, i in enumerate(ids):
                self.bits[i] = np.array([(v >> j) & 1 for v in values], dtype=np.uint8)

        def read(self, ids):
            return [self.value(ids, k) for k in range(self.m)]

    return BitBackend
