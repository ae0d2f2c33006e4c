"""A simulator session in a random state next to the reference model in the same state."""
import numpy as np

from . import prog, ref, spec
from .core import Violation


class Lab:
    """n qubits (reference names 0..n-1) in the state spec.random_state(...), or in |0...0> for the names in `zero`."""

    def __init__(self, n, engines=(), seed=1, zero=(), sim=None, kind="full", backend=None):
        from projectq import MainEngine
        from projectq.backends import Simulator
        self.sim = sim if sim is not None else Simulator(rnd_seed=7)
        self.eng = MainEngine(backend if backend is not None else self.sim, list(engines), verbose=True)
        q = self.eng.allocate_qureg(n)
        self.q = list(q)
        del q
        self.eng.flush()
        self.s = ref.RefState()
        self.s.ids = list(range(n))
        rest = [i for i in range(n) if i not in zero]
        v = spec.random_state(seed, len(rest), kind)
        psi = np.zeros(1 << n, dtype=complex)
        for x, a in enumerate(v):
            y = 0
            for j, i in enumerate(rest):
                y |= ((x >> j) & 1) << i
            psi[y] = a
        self.s.psi = psi
        if n:
            self.sim.set_wavefunction([complex(x) for x in psi], self.q)

    def check(self, what, exact=True, tol=1e-6):
        self.eng.flush()
        mp, wf = self.sim.cheat()
        ids = [x.id for x in self.q]
        if sorted(mp) != sorted(ids):
            raise Violation("%s: live qubits are %s, expected %s" % (what, sorted(mp), sorted(ids)))
        got, _ = prog.simulator_vector(self.sim, self.q)
        want = self.s.vector(list(range(len(ids))))
        d = float(np.max(np.abs(got - want))) if exact else ref.phase_distance(got, want)
        if not d < tol:
            raise Violation("%s: the state is off by %.3g\n got %s\nwant %s" % (
                what, d, np.round(got, 4)[:16], np.round(want, 4)[:16]))

    def close(self):
        self.eng.next_engine.receive = lambda cl: None
        self.sim.receive = lambda cl: None
        self.q = None


class Session:
    """A simulator behind an optional mapper (case["mapper"]) next to the reference; qubits are named 0, 1, ..."""

    def __init__(self, case, controls=False):
        from projectq import MainEngine
        from projectq.backends import Simulator
        from projectq.cengines import LinearMapper, LocalOptimizer, ManualMapper
        self.sim = Simulator(gate_fusion=case["fusion"], rnd_seed=case["seed"])
        kind = case["mapper"]
        engines = {"none": [], "opt": [LocalOptimizer(1000)], "manual": [ManualMapper(lambda i: 3 * i + 2 if i % 2 else 50 - i)],
                   "linear": [LinearMapper(8)]}[kind]
        front = []
        if controls:
            # negative controls and Pauli-string gates are compiled away, everything else is native
            import projectq.setups.decompositions as d
            from projectq.cengines import AutoReplacer, DecompositionRuleSet
            front = [AutoReplacer(DecompositionRuleSet(modules=[d.controlstate, d.qubitop2onequbit]))]
        self.eng = MainEngine(self.sim, front + engines, verbose=True)
        self.mapper = engines[0] if kind in ("manual", "linear") else None
        self.lazy = kind == "opt"
        self.s = ref.RefState()
        self.q = {}
        for i in range(case["n"]):
            self.alloc(i)
        self.eng.flush()

    def alloc(self, i):
        self.q[i] = self.eng.allocate_qubit()[0]
        self.s.alloc(i)

    def reg(self, names):
        return [self.q[i] for i in names]

    def check(self, what):
        self.eng.flush()
        mp, wf = self.sim.cheat()
        at = {i: x.id for i, x in self.q.items()}
        if self.mapper is not None:
            cur = self.mapper.current_mapping
            at = {i: cur[x] for i, x in at.items()}
        if sorted(mp) != sorted(at.values()) or sorted(mp.values()) != list(range(len(at))):
            raise Violation("after %s: the simulator knows qubits %s, live are %s" % (what, mp, at))
        wf = np.array(wf)
        if wf.shape != (1 << len(at),):
            raise Violation("after %s: %s amplitudes for %d qubits" % (what, wf.shape, len(at)))
        got = ref.reorder(wf, sorted(mp, key=lambda i: mp[i]), [at[i] for i in self.s.ids])
        d = float(np.max(np.abs(got - self.s.psi)))
        if not d < 1e-7:
            raise Violation("after %s: the state is off by %.3g\n got %s\nwant %s" % (
                what, d, np.round(got, 5)[:16], np.round(self.s.psi, 5)[:16]))

    def wave(self, v, order):
        """v has order[i] in bit i -> the reference takes it over."""
        self.s.psi = ref.reorder(np.asarray(v, dtype=complex), list(order), self.s.ids)

    def close(self):
        self.eng.next_engine.receive = lambda cl: None
        self.sim.receive = lambda cl: None
        self.q = {}
