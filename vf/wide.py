"""Registers of 7-13 qubits in random states on the compiled simulator with 1-4 threads, asked and changed in drawn order."""
import ctypes
import random

import numpy as np
from hypothesis import strategies as st

from vf import ref
from vf.core import Violation

KINDS = {"P02": ["prob", "amp", "collapse", "measure", "release", "value"], "P03": ["exp", "apply", "evolve", "cevolve"],
         "P04": ["add", "addmod", "mulmod", "fun", "cadd"]}


@st.composite
def cases(draw, pid):
    return {"n": draw(st.integers(7, 11 if pid == "P03" else 13)), "seed": draw(st.integers(0, 10 ** 6)), "threads": draw(st.integers(1, 4)), "part": draw(st.integers(0, 3)),
            "ops": draw(st.lists(st.sampled_from(KINDS[pid] + ["gate"]), min_size=1, max_size=6))}


def threads(n):
    try:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)
    except OSError:
        pass


def terms(r, qs, hermitian):
    out = {}
    for _ in range(r.randint(1, 4)):
        t = tuple((i, r.choice("XYZ")) for i in range(len(qs)) if r.random() < 0.6)
        out[t] = round(r.uniform(-1.5, 1.5), 3) if hermitian else complex(round(r.uniform(-1, 1), 2), round(r.uniform(-1, 1), 2))
    return out


def build(ts):
    from projectq.ops import QubitOperator
    op = QubitOperator()
    for t, c in ts.items():
        op += QubitOperator(t, c)
    return op


def run(case, ev):
    threads(case["threads"])
    try:
        _run(case, ev)
    finally:
        threads(1)
    ev.label("%d threads" % case["threads"])


def _run(case, ev):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN
    from projectq.meta import Control
    from projectq.ops import BasicMathGate, H, Measure, Rx, TimeEvolution, X
    r = random.Random(case["seed"])
    g = np.random.RandomState(case["seed"])
    sim = Simulator(rnd_seed=case["seed"] % 1000)
    eng = MainEngine(sim, [], verbose=True)
    n = case["n"]
    q = {i: eng.allocate_qubit()[0] for i in range(n)}
    s = ref.RefState()
    for i in range(n):
        s.alloc(i)
    d = 1 << n
    v = g.normal(size=d) + 1j * g.normal(size=d)
    if case["part"] == 1:
        v *= g.uniform(size=d) < 0.1              # mostly empty
    elif case["part"] == 2:
        i = r.randrange(n)
        v[((np.arange(d) >> i) & 1) == r.randint(0, 1)] = 0    # one qubit classical
    elif case["part"] == 3:
        v[:] = 0
        v[g.choice(d, 3, replace=False)] = [1, 2j, -1]
    if not np.linalg.norm(v):
        v[0] = 1
    v = v / np.linalg.norm(v)
    order = r.sample(range(n), n)
    eng.flush()
    sim.set_wavefunction(v, [q[i] for i in order])
    s.psi = ref.reorder(v, order, s.ids)

    def same():
        eng.flush()
        mp, wf = sim.cheat()
        by = {q[i].id: i for i in s.ids}
        got = ref.reorder(np.asarray(wf), [by[i] for i in sorted(mp, key=lambda i: mp[i])], s.ids)
        err = np.max(np.abs(got - s.psi))
        if not err < 1e-7:
            raise Violation("after %s the state differs from the reference by %.3g" % (case["ops"][:at + 1], err))

    def close(got, want, tol=1e-7):
        if not abs(got - want) < tol:
            raise Violation("%s (step %d) reports %s instead of %s" % (k, at, got, want))
    at = -1
    same()
    for at, k in enumerate(case["ops"]):
        sub = r.sample(s.ids, min(len(s.ids), r.randint(1, 4)))
        reg = [q[i] for i in sub]
        bits = [r.randint(0, 1) for _ in sub]
        eng.flush()
        if k == "gate":
            Rx(0.7) | reg[0]
            s.apply(ref.matrix("Rx", [0.7]), sub[:1])
            if len(sub) > 1:
                with Control(eng, reg[1:]):
                    H | reg[0]
                s.apply(ref.matrix("H"), sub[:1], sub[1:])
        elif k == "prob":
            close(sim.get_probability(bits, reg), s.prob(sub, bits))
        elif k == "amp":
            o = r.sample(s.ids, len(s.ids))
            i = int(g.choice(len(s.psi), p=np.abs(s.psi) ** 2 / np.sum(np.abs(s.psi) ** 2)))
            close(sim.get_amplitude("".join(str((i >> s.pos(x)) & 1) for x in o), [q[x] for x in o]), s.psi[i])
        elif k == "collapse":
            i = int(g.choice(len(s.psi), p=np.abs(s.psi) ** 2 / np.sum(np.abs(s.psi) ** 2)))
            bits = [(i >> s.pos(x)) & 1 for x in sub]
            if s.prob(sub, bits) > 1e-6:
                sim.collapse_wavefunction(reg, bits)
                for x, b in zip(sub, bits):
                    s.project(x, b)
        elif k in ("measure", "release"):
            x = sub[0]
            if len(s.ids) < 3:
                continue
            if k == "measure":
                with_all = [q[y] for y in sub]
                for y in with_all:
                    Measure | y
                eng.flush()
                for y in sub:
                    b = int(q[y])
                    p = s.prob([y], [b])
                    if p < 1e-9:
                        raise Violation("measured an outcome of probability %.3g" % p)
                    s.project(y, b)
                del with_all, y
            else:
                Measure | q[x]
                eng.flush()
                s.project(x, int(q[x]))
                s.dealloc(x)
                del reg
                q.pop(x)
        elif k == "value":
            c = [x for x in s.ids if s.value(x) is not None]
            for x in c[:2]:
                Measure | q[x]
                eng.flush()
                if int(q[x]) != s.value(x):
                    raise Violation("measured %d on a qubit which is %d" % (int(q[x]), s.value(x)))
        elif k == "exp":
            ts = terms(r, sub, True)
            w = s.copy()
            w.apply(ref.pauli_sum(ts.items(), len(sub)), sub)
            close(sim.get_expectation_value(build(ts), reg), np.vdot(s.psi, w.psi))
        elif k == "apply":
            ts = terms(r, sub, False)
            w = s.copy()
            w.apply(ref.pauli_sum(ts.items(), len(sub)), sub)
            nrm = np.linalg.norm(w.psi)
            if nrm > 0.05:
                sim.apply_qubit_operator(build(ts), reg)
                same_raw(sim, q, w)
                sim.set_wavefunction(w.psi / nrm, [q[i] for i in s.ids])
                s.psi = w.psi / nrm
        elif k in ("evolve", "cevolve"):
            ts = terms(r, sub[:3], True)
            t = round(r.uniform(-2, 2), 3)
            ctl = [x for x in s.ids if x not in sub][:2] if k == "cevolve" else []
            with Control(eng, [q[x] for x in ctl]):
                TimeEvolution(t, build(ts)) | [q[x] for x in sub[:3]]
            s.apply(ref.expm_herm(ref.pauli_sum(ts.items(), len(sub[:3])), t), sub[:3], ctl)
        else:
            m = len(sub)
            ctl = [x for x in s.ids if x not in sub][:r.randint(1, 2)] if k == "cadd" else []
            a, N = r.randint(0, (1 << m) - 1), r.randint(max(1, (1 << m) // 2), 1 << m)
            if k in ("add", "cadd"):
                gate, fn = AddConstant(a), lambda x: (x + a,)
            elif k == "fun":
                two = r.sample([x for x in s.ids if x not in sub], min(3, len(s.ids) - m))
                if not two:
                    continue
                gate, fn = BasicMathGate(lambda x, y: (x, y ^ (x * x % 7))), lambda x, y: (x, y ^ (x * x % 7))
                gate | (reg, [q[x] for x in two])
                s.permute(fn, [sub, two])
                same()
                continue
            elif k == "addmod":
                a %= N
                gate, fn = AddConstantModN(a, N), lambda x: ((x + a) % N if x < N else x,)
            else:
                a = next(y for y in range(a % N or 1, a % N + 2 * N + 1) if np.gcd(y, N) == 1 and y % N or N == 1) % N or 1
                if np.gcd(a, N) != 1:
                    continue
                gate, fn = MultiplyByConstantModN(a, N), lambda x: (x * a % N if x < N else x,)
            if k in ("addmod", "mulmod"):
                # defined for values below N only
                keep = s._mask([], [])[0]
                val = sum(((keep >> s.pos(x)) & 1) << j for j, x in enumerate(sub))
                w = np.where(val < N, s.psi, 0)
                if np.linalg.norm(w) < 1e-3:
                    continue
                s.psi = w / np.linalg.norm(w)
                sim.set_wavefunction(s.psi, [q[i] for i in s.ids])
            with Control(eng, [q[x] for x in ctl]):
                gate | reg
            s.permute(fn, [sub], ctl)
        same()
    ev.mark(len(s.ids) >= 6)
    del X


def same_raw(sim, q, w):
    mp, wf = sim.cheat()
    by = {q[i].id: i for i in w.ids}
    got = ref.reorder(np.asarray(wf), [by[i] for i in sorted(mp, key=lambda i: mp[i])], w.ids)
    if not np.max(np.abs(got - w.psi)) < 1e-7 * max(1, np.linalg.norm(w.psi)):
        raise Violation("applying an operator gives a state which differs by %.3g" % np.max(np.abs(got - w.psi)))


RULE = "random states of 7-13 qubits on the compiled kernel with 1-4 threads, drawn queries and changes against the dense reference; non-trivial = 6+ qubits left"
