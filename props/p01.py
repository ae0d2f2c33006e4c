"""P01: the simulator's state is the linear algebra of the program."""
import ctypes
import random

import numpy as np
from hypothesis import strategies as st

from vf import prog, ref
from vf.core import Test, Violation

ASSUMPTIONS = ["double precision: amplitudes are compared to 1e-7", "at most 15 qubits per case"]
NAMES = prog.G1 + prog.G1P + prog.G2 + prog.G2P
MAXQ = 7


def random_unitary(kind, seed, k):
    r = np.random.RandomState(seed)
    d = 1 << k
    if kind == "perm":
        m = np.zeros((d, d), dtype=complex)
        m[r.permutation(d), np.arange(d)] = np.exp(1j * r.uniform(0, 6.28, d) * (seed % 2))
        return m
    if kind == "diag":
        return np.diag(np.exp(1j * r.uniform(0, 6.28, d)))
    z = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)) * (kind != "real")
    q, t = np.linalg.qr(z)
    return q * (np.diag(t) / abs(np.diag(t)))


@st.composite
def cases(draw):
    alive, ctr, out = [], 0, []
    n0 = draw(st.integers(1, MAXQ))
    for _ in range(n0):
        alive.append(ctr)
        ctr += 1
    out.append(["a", list(alive)])
    for _ in range(draw(st.integers(1, 18))):
        kind = draw(st.sampled_from(["g"] * 6 + ["u"] * 5 + ["f", "f", "m", "d", "a", "set"]))
        if kind in "gu" and alive:
            if kind == "g":
                name = draw(st.sampled_from([g for g in NAMES if ref.NQ[g] <= len(alive)]))
                k, what = ref.NQ[name], None
                what = [name, prog.params_of(draw, name)]
            else:
                k = draw(st.integers(1, min(5, len(alive))))
                what = [draw(st.sampled_from(["full", "full", "perm", "diag", "real"])), draw(st.integers(0, 10 ** 6))]
            perm = draw(st.permutations(alive))
            nc = draw(st.integers(0, min(3, len(alive) - k)))
            split = draw(st.integers(0, 2)) if k > 1 and kind == "u" else 0
            out.append([kind, what, list(perm[:k]), list(perm[k:k + nc]), split])
        elif kind in "md" and alive:
            q = draw(st.sampled_from(alive))
            out.append([kind, q])
            if kind == "d":
                alive.remove(q)
        elif kind == "a" and len(alive) < MAXQ:
            alive.append(ctr)
            out.append(["a", [ctr]])
            ctr += 1
        elif kind == "f":
            out.append(["f"])
    return {"ops": out, "fusion": draw(st.booleans()), "seed": draw(st.integers(0, 1000))}


def expand(case):
    """A history drawn from the case's seed: many qubits, or many gates."""
    r = random.Random(case["seed"])
    alive, ctr, out = list(range(case["n"])), case["n"], [["a", list(range(case["n"]))]]
    for _ in range(case["len"]):
        kind = r.choice("ggggggggguuuu" + ("mda" if r.random() < case["change"] else "g"))
        if kind in "gu":
            if kind == "g":
                name = r.choice([g for g in NAMES if ref.NQ[g] <= len(alive)])
                k, what = ref.NQ[name], [name, [round(r.uniform(-13, 13), 3)] if name in ref.PARAM else []]
            else:
                k = r.randint(1, min(5 if len(alive) < 10 else 3, len(alive)))
                what = [r.choice(["full", "perm", "diag", "real"]), r.randint(0, 10 ** 6)]
            perm = r.sample(alive, len(alive))
            nc = r.choice([0, 0, 0, 1, 1, 2, 3])
            out.append([kind, what, perm[:k], perm[k:k + nc], 0])
        elif kind in "md" and len(alive) > 2:
            q = r.choice(alive)
            out.append([kind, q])
            if kind == "d":
                alive.remove(q)
        elif kind == "a" and len(alive) < case["n"]:
            alive.append(ctr)
            out.append(["a", [ctr]])
            ctr += 1
    return dict(case, ops=out)


@st.composite
def wide_cases(draw):
    return {"n": draw(st.integers(8, 15)), "len": draw(st.integers(1, 40)), "seed": draw(st.integers(0, 10 ** 6)), "change": draw(st.sampled_from([0, 0.3])),
            "fusion": draw(st.booleans()), "threads": draw(st.integers(1, 4))}


@st.composite
def long_cases(draw):
    return {"n": draw(st.integers(1, 5)), "len": draw(st.integers(100, 1500)), "seed": draw(st.integers(0, 10 ** 6)),
            "change": draw(st.sampled_from([0, 0.1])), "fusion": draw(st.booleans()), "threads": draw(st.integers(1, 2))}


def threads(n):
    try:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)
    except OSError:
        pass


def run_big(case, ev):
    threads(case["threads"])
    try:
        run(expand(case), ev)
    finally:
        threads(1)
    ev.label("%d threads" % case["threads"])


def run(case, ev):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.meta import Control
    from projectq.ops import MatrixGate, Measure
    from projectq.types import WeakQubitRef
    sim = Simulator(gate_fusion=case["fusion"], rnd_seed=case["seed"])
    eng = MainEngine(sim, [], verbose=True)
    s = ref.RefState()
    q = {}
    big = ctl = reads = 0

    def check():
        eng.flush()
        mp, wf = sim.cheat()
        ids = [q[n].id for n in s.ids]
        if sorted(mp) != sorted(ids) or sorted(mp.values()) != list(range(len(ids))):
            raise Violation("the simulator reports qubits %s, live are %s" % (mp, ids))
        wf = np.asarray(wf)
        if wf.shape != (1 << len(ids),):
            raise Violation("state vector of length %s for %d qubits" % (wf.shape, len(ids)))
        order = sorted(mp, key=lambda i: mp[i])
        got = ref.reorder(wf, order, ids)
        err = np.max(np.abs(got - s.psi))
        if not err < 1e-7:
            raise Violation("simulator state differs from the product of the matrices by %.3g (order %s)\n%s\n%s" % (
                err, mp, np.round(got, 5), np.round(s.psi, 5)))

    for x in case["ops"]:
        k = x[0]
        if k == "a":
            for n in x[1]:
                q[n] = eng.allocate_qubit()[0]
                s.alloc(n)
        elif k in "gu":
            _, what, targets, ctrls, split = x
            if k == "g":
                g, m = prog.pq_gate(*what), ref.matrix(*what)
            else:
                m = random_unitary(what[0], what[1], len(targets))
                g = MatrixGate(m)
                big = max(big, len(targets))
            tq = [q[t] for t in targets]
            arg = tuple(tq) if k == "g" or split == 0 else tq if split == 1 else (tq[:1], tq[1:])
            ctl += len(ctrls) > 0
            with Control(eng, [q[c] for c in ctrls]):
                g | arg
            del tq, arg
            s.apply(m, targets, ctrls)
        elif k in "md":
            n = x[1]
            Measure | q[n]
            eng.flush()
            r = int(q[n])
            p = s.prob1(n)
            if (p if r else 1 - p) < 1e-6:
                raise Violation("measured %d with probability %.3g" % (r, p if r else 1 - p))
            s.project(n, r)
            if k == "d":
                s.dealloc(n)
                q.pop(n)
        elif k == "f":
            reads += 1
            check()
    check()
    del WeakQubitRef
    ev.label("matrix gate on %d qubits" % big)
    ev.label("controlled", ctl)
    ev.label("intermediate reads", reads)
    ev.label("measurement/release", any(x[0] in "md" for x in case["ops"]))
    ev.mark(len([x for x in case["ops"] if x[0] in "gu"]) >= 2 and len(s.ids) >= 1)


RULE = ("random allocation/gate/measure/release/read histories on the simulator against a dense reference; "
        "non-trivial = at least two gates and a live qubit at the end")
TESTS = [
    Test("cpp", cases, run, 12000, rule=RULE),
    Test("py", cases, run, 5000, rule=RULE + " (pure-Python kernel)", kernel="py"),
    Test("portable", cases, run, 3000, rule=RULE + " (C++ kernel compiled without vector instructions)", kernel="portable"),
    Test("wide", wide_cases, run_big, 200, chunk=10, rule="as before with 8-15 qubits and 1-4 threads, drawn from a seed"),
    Test("long", long_cases, run_big, 80, chunk=5, rule="as before with 100-1500 operations on 1-5 qubits, drawn from a seed"),
]
