"""A last engine that runs the reference model and records what reaches it."""
from . import gates, ref
from .core import Violation


def make(main_cls=None):
    from projectq.cengines import BasicEngine
    from projectq.meta import LogicalQubitIDTag
    from projectq.ops import (
        Allocate, AllocateQubitGate, BarrierGate, Deallocate, DeallocateQubitGate, FlushGate, MeasureGate,
    )
    from projectq.types import WeakQubitRef
    del Allocate, Deallocate

    class RefBackend(BasicEngine):
        """available: predicate on a command, or None for everything the model has a meaning for."""

        def __init__(self, available=None, outcomes=(), loose_dealloc=False):
            super().__init__()
            self.state = ref.RefState()
            self.available = available
            self.log = []
            self.flushes = 0
            self.outcomes = list(outcomes)
            self.measured = []          # (logical id, physical id, bit) in order
            self.loose = loose_dealloc
            self.hook = None

        def is_available(self, cmd):
            if self.available is not None:
                return bool(self.available(cmd))
            if isinstance(cmd.gate, (MeasureGate, AllocateQubitGate, DeallocateQubitGate, FlushGate, BarrierGate)):
                return True
            try:
                gates_meaning(cmd)
                return True
            except gates.NoMeaning:
                return False

        def receive(self, command_list):
            for cmd in command_list:
                self.one(cmd)

        def one(self, cmd):
            g = cmd.gate
            self.log.append(cmd)
            if self.hook is not None:
                self.hook(cmd)
            try:
                if isinstance(g, FlushGate):
                    self.flushes += 1
                elif isinstance(g, AllocateQubitGate):
                    self.state.alloc(cmd.qubits[0][0].id)
                elif isinstance(g, DeallocateQubitGate):
                    q = cmd.qubits[0][0].id
                    if self.loose:
                        self.state.discard(q)
                    else:
                        self.state.dealloc(q)
                elif isinstance(g, MeasureGate):
                    if cmd.control_qubits:
                        raise Violation("measurement with control qubits reached the backend: %s" % cmd)
                    for r in cmd.qubits:
                        for q in r:
                            self.measure(cmd, q)
                elif isinstance(g, BarrierGate):
                    pass
                else:
                    gates.apply_command(self.state, cmd)
            except ref.RefError as e:
                raise Violation("backend cannot execute %s: %s" % (cmd, e)) from None
            except gates.NoMeaning as e:
                raise Violation("a gate without meaning reached the backend: %s" % e) from None

        def measure(self, cmd, q):
            want = self.outcomes.pop(0) if self.outcomes else 0
            p1 = self.state.prob1(q.id)
            bit = want
            if (p1 if bit else 1 - p1) < 1e-4:  # well above what a reference would call impossible
                bit = 1 - bit
            self.state.project(q.id, bit)
            lid = q.id
            for tag in cmd.tags:
                if isinstance(tag, LogicalQubitIDTag):
                    lid = tag.logical_qubit_id
            self.measured.append((lid, q.id, bit))
            self.main_engine.set_measurement_result(WeakQubitRef(self, lid), bit)

        @property
        def live(self):
            return list(self.state.ids)

    def gates_meaning(cmd):
        f = gates.math_function(cmd.gate, [len(r) for r in cmd.qubits])
        if f is None:
            gates.gate_matrix(cmd.gate, cmd.qubits)

    return RefBackend
