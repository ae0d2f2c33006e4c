"""Integer arithmetic gates on a simulator: sparse superpositions of register values in, exact integers out."""
import numpy as np

from .core import Violation


def constant_gate(name, a, n):
    import projectq.libs.math as m
    return {"AddConstant": lambda: m.AddConstant(a), "SubConstant": lambda: m.SubConstant(a),
            "AddConstantModN": lambda: m.AddConstantModN(a, n), "SubConstantModN": lambda: m.SubConstantModN(a, n),
            "MultiplyByConstantModN": lambda: m.MultiplyByConstantModN(a, n)}[name]()


def constant_value(name, a, n, dag, width):
    size = 1 << width
    sign = -1 if dag else 1
    if name == "AddConstant":
        return lambda x: ((x + sign * a) % size,)
    if name == "SubConstant":
        return lambda x: ((x - sign * a) % size,)
    if name == "AddConstantModN":
        return lambda x: ((x + sign * a) % n,)
    if name == "SubConstantModN":
        return lambda x: ((x - sign * a) % n,)
    f = pow(a, -1, n) if dag else a
    return lambda x: (x * f % n,)


def no_math(eng, cmd):
    from projectq.ops import BasicMathGate
    return not isinstance(cmd.gate, BasicMathGate) and eng.next_engine.is_available(cmd)


def rule_set():
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq.cengines import DecompositionRuleSet
    return DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])


_cache = {}


def rules():
    import projectq
    key = id(projectq)
    if key not in _cache:
        _cache.clear()
        _cache[key] = rule_set()
    return _cache[key]


class Machine:
    """Registers of the given sizes and nc control qubits, scattered by `perm`, in a superposition of `inputs`.

    inputs: list of (register values..., control value); each gets its own random amplitude.
    """

    def __init__(self, sizes, nc, perm, inputs, seed, circuit, sim_seed=1):
        from projectq import MainEngine
        from projectq.backends import Simulator
        from projectq.cengines import AutoReplacer, BasicEngine, InstructionFilter
        from projectq.ops import DeallocateQubitGate
        from projectq.types import WeakQubitRef
        sim = Simulator(rnd_seed=sim_seed)
        mine = self.mine = set()

        class Spy(BasicEngine):
            helpers = 0
            commands = 0

            def receive(self, command_list):
                for cmd in command_list:
                    self.commands += 1
                    if isinstance(cmd.gate, DeallocateQubitGate) and cmd.qubits[0][0].id not in mine:
                        self.helpers += 1
                        p = sim.get_probability("1", [WeakQubitRef(self, cmd.qubits[0][0].id)])
                        if p > 1e-6:
                            raise Violation("helper qubit released with probability %.3g of being 1" % p)
                    self.send([cmd])
        self.spy = Spy()
        engines = [AutoReplacer(rules())] + ([InstructionFilter(no_math)] if circuit else []) + [self.spy]
        self.sim = sim
        self.eng = MainEngine(sim, engines, verbose=True)
        self.total = sum(sizes) + nc
        q = self.eng.allocate_qureg(self.total)
        self.all = list(q)
        del q
        mine.update(x.id for x in self.all)
        self.eng.flush()
        self.sizes = sizes
        self.pos, k = [], 0
        for s in list(sizes) + [nc]:
            self.pos.append(list(perm[k:k + s]))
            k += s
        r = np.random.RandomState(seed)
        self.states = {}
        for v in inputs:
            self.states[tuple(v)] = complex(r.normal(), r.normal()) + 1.5
        norm = np.sqrt(sum(abs(x) ** 2 for x in self.states.values()))
        self.states = {k: x / norm for k, x in self.states.items()}
        sim.set_wavefunction([complex(x) for x in self.dense()], self.all)

    def dense(self):
        psi = np.zeros(1 << self.total, dtype=complex)
        for v, amp in self.states.items():
            x = 0
            for val, ps in zip(v, self.pos):
                for j, p in enumerate(ps):
                    x |= ((val >> j) & 1) << p
            psi[x] += amp
        return psi

    def regs(self):
        return [[self.all[p] for p in ps] for ps in self.pos[:-1]]

    def apply(self, gate, ctrls, f, regs=None, dagger=False):
        """Apply to the machine and to the integer model; ctrls: [[index, value]...] of the control register."""
        from projectq.meta import Control, Dagger
        use = list(range(len(self.sizes))) if regs is None else regs
        rs = self.regs()
        with Control(self.eng, [self.all[self.pos[-1][k]] for k, _ in ctrls],
                     ctrl_state="".join(str(v) for _, v in ctrls)):
            if dagger:
                with Dagger(self.eng):
                    gate | tuple(rs[i] for i in use)
            else:
                gate | tuple(rs[i] for i in use)
        del rs
        new = {}
        for v, amp in self.states.items():
            w = list(v)
            if all((v[-1] >> k) & 1 == b for k, b in ctrls):
                for i, x in zip(use, f(*[v[i] for i in use])):
                    w[i] = x % (1 << self.sizes[i])
            w = tuple(w)
            if w in new:
                raise AssertionError("the model is not injective: %s" % (w,))
            new[w] = amp
        self.states = new

    def check(self, what):
        from . import prog
        self.eng.flush()
        got, mp = prog.simulator_vector(self.sim, self.all) if len(self.sim.cheat()[0]) == self.total else (None, None)
        if got is None:
            raise Violation("%s: %d qubits are live afterwards, expected %d" % (
                what, len(self.sim.cheat()[0]), self.total))
        want = self.dense()
        d = float(np.max(np.abs(got - want)))
        if not d < 1e-6:
            bad = int(np.argmax(np.abs(got - want)))
            vals = [sum(((bad >> p) & 1) << j for j, p in enumerate(ps)) for ps in self.pos]
            raise Violation("%s: state off by %.3g, e.g. at register values %s (amplitude %s, expected %s)" % (
                what, d, vals, np.round(got[bad], 4), np.round(want[bad], 4)))
        del mp

    def close(self):
        self.eng.next_engine.receive = lambda cl: None
        self.sim.receive = lambda cl: None
        self.all = None
