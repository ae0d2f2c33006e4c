"""One program on one engine of its own, advanced statement by statement and judged against its own reference."""
import numpy as np

from . import compile as comp
from . import prog, ref
from .core import Violation
from .refbackend import make


class Session:
    def __init__(self, case, t, seed=None, kernel=None, kind=None):
        """t: ["none"] | ["main"] | a compile target; kind: "sim" (the simulator) or "ref" (the reference backend)."""
        from projectq import MainEngine
        from projectq.backends import Simulator
        self.t, self.sim = t, None
        if kind == "sim":
            be = self.sim = Simulator(rnd_seed=seed) if seed is not None else Simulator()
        else:
            avail = comp.allowed(comp.ONE["RzRyRxH"], comp.TWO["CNOT"], ()) if t[0] == "main" else None
            be = make()(outcomes=case["bits"], available=avail, loose_dealloc=False)
        self.be = be
        if t[0] == "none" and self.sim is not None:
            import projectq.setups.decompositions as d
            from projectq.cengines import AutoReplacer, DecompositionRuleSet
            self.eng = MainEngine(be, [AutoReplacer(DecompositionRuleSet(modules=[d]))], verbose=True)
        elif t[0] == "main":
            self.eng = MainEngine(be, verbose=True)
        else:
            self.eng = MainEngine(be, [] if t[0] == "none" else comp.target(t).engines, verbose=True)
        self.r = prog.Runner(self.eng, case)
        self.gen = self.r.steps()
        self.done = False
        self.busy = False

    def step(self):
        """Advance by one statement; False when the program has ended (or is being advanced already)."""
        if self.done or self.busy:
            return False
        self.busy = True
        try:
            next(self.gen)
        except StopIteration:
            self.done = True
        finally:
            self.busy = False
        return True

    def finish(self):
        while self.step():
            pass

    def vector(self, names):
        """Final state in the order of the named live qubits."""
        r = self.r
        mp = self.eng.mapper.current_mapping if self.eng.mapper is not None else None
        ids = [r.ids[n] if mp is None else mp[r.ids[n]] for n in names]
        if len(set(ids)) != len(ids):
            raise Violation("%s: two live qubits share a location: %s" % (self.t, ids))
        if self.sim is None:
            if sorted(self.be.state.ids) != sorted(ids):
                raise Violation("%s: live qubits at the backend %s, expected %s" % (self.t, self.be.state.ids, ids))
            return self.be.state.vector(ids)
        known, wf = self.sim.cheat()
        if sorted(known) != sorted(ids):
            raise Violation("%s: the simulator knows %s, live are %s" % (self.t, sorted(known), sorted(ids)))
        return ref.reorder(np.array(wf), sorted(known, key=lambda i: known[i]), ids)

    def judge(self, tol=1e-6):
        want = self.r.reference()
        d = ref.phase_distance(self.vector(want.ids), want.psi)
        if d > tol:
            raise Violation("%s: the final state is off by %.3g" % (self.t, d))
        return want

    def outcomes(self):
        return [(e[1], e[2]) for e in self.r.log if e[0] == "m"]

    def close(self):
        """Let the remaining qubits go without emitting anything."""
        if self.sim is None:
            self.be.one = lambda cmd: None
        else:
            self.eng.next_engine.receive = lambda cl: None
            self.sim.receive = lambda cl: None
        self.r.env = {}


def for_simulator(t):
    """Gates the simulator has no matrix for must not be declared native."""
    return [{"any": "RzRyHTX" if i != 2 else "CNOT", "TE": "", "QFT": "", "TEQFT": "", "Tof": ""}.get(x, x) if isinstance(x, str) else x
            for i, x in enumerate(t)]
