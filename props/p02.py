"""P02: simulated measurement, collapse and queries obey the Born rule."""
import random

import numpy as np
from hypothesis import strategies as st

from vf import prog, ref, spec, wide
from vf.core import Test, Violation
from vf.lab import Session

ASSUMPTIONS = ["at most 6 qubits; probabilities and amplitudes compared to 1e-7",
               "registers handed to queries list each qubit once; collapses are possible (> 1e-11) or impossible (< 1e-13)",
               "outcome frequencies: chi-square over 400-1600 shots, threshold 1e-9 per case"]
KINDS = spec.STATE_KINDS + ["faint"]
FORMS = ["list", "tuple", "bool", "str", "numpy"]


def as_bits(bits, form):
    return {"list": lambda: list(bits), "tuple": lambda: tuple(bits), "bool": lambda: [bool(b) for b in bits],
            "str": lambda: "".join(map(str, bits)), "numpy": lambda: np.array(bits, dtype=int)}[form]()


@st.composite
def cases(draw, small=False):
    most = 4 if small else 6
    n0 = draw(st.integers(0, most))
    alive, ctr = list(range(n0)), n0
    mapper = draw(st.sampled_from(["none", "none", "opt", "manual", "linear"]))
    ops = []
    if n0:
        ops.append(["set", list(draw(st.permutations(alive))), draw(st.integers(0, 9999)),
                    draw(st.sampled_from(KINDS)), draw(st.sampled_from(["list", "numpy"]))])
    wide = 2 if mapper == "linear" else 5
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["p"] * 4 + ["amp"] * 3 + ["m"] * 3 + ["c"] * 3 + ["g"] * 5 + ["set", "a", "d", "bad", "bad", "bad"]))
        n = len(alive)
        perm = list(draw(st.permutations(alive)))
        form = draw(st.sampled_from(FORMS))
        num = draw(st.integers(0, 63))
        if k == "p":
            ops.append(["p", perm[:draw(st.integers(0, n))], num, form])
        elif k == "amp":
            ops.append(["amp", perm, num, form])
        elif k == "m" and n:
            ops.append(["m", perm[:draw(st.integers(1, n))], draw(st.sampled_from(["qureg", "all", "kernel"]))])
        elif k == "c":
            ops.append(["c", perm[:draw(st.integers(0, n))], draw(st.sampled_from(["pos", "pos", "imp"])), num, form])
        elif k == "g" and n:
            name = draw(st.sampled_from([g for g in prog.G1 + prog.G1P + prog.G2 + prog.G2P if ref.NQ[g] <= n]))
            q = ref.NQ[name]
            ops.append(["g", name, prog.params_of(draw, name), perm[:q], perm[q:q + draw(st.integers(0, max(0, min(2, n - q, wide - q))))]])
        elif k == "set" and n:
            ops.append(["set", perm, num, draw(st.sampled_from(KINDS)), draw(st.sampled_from(["list", "numpy"]))])
        elif k == "a" and n < most:
            alive.append(ctr)
            ops.append(["a", ctr])
            ctr += 1
        elif k == "d" and n:
            q = draw(st.sampled_from(alive))
            alive.remove(q)
            ops.append(["d", q])
        elif k == "bad":
            what = draw(st.sampled_from(["p-short", "p-unknown", "amp-short", "amp-missing", "amp-extra", "amp-double",
                                         "c-short", "c-long", "c-unknown", "set-short", "set-long", "set-missing",
                                         "set-unknown", "set-double", "release", "pending"]))
            ops.append(["bad", what, perm, num])
    return {"n": n0, "ops": ops, "mapper": mapper, "fusion": draw(st.booleans()), "seed": draw(st.integers(0, 1000))}


def bad(x, t, num, perm):
    """Calls that must be rejected; returns the call, or None when it does not apply here."""
    from projectq.ops import Command, Deallocate
    from projectq.types import WeakQubitRef
    sim, n = t.sim, len(perm)
    ghost = WeakQubitRef(t.eng, 4242)
    reg = t.reg(perm)
    v = spec.random_state(num, n)
    long = spec.random_state(num, n + 1)
    bits = [(num >> i) & 1 for i in range(n)]
    sub = max(1, n - num % 2)
    if x == "p-short" and n:
        return lambda: sim.get_probability(bits[:sub - 1], reg[:sub])
    if x == "p-unknown":
        return lambda: sim.get_probability(bits + [0], reg + [ghost])
    if x == "amp-short" and n:
        return lambda: sim.get_amplitude(bits[:n - 1], reg)
    if x == "amp-missing" and n:
        return lambda: sim.get_amplitude(bits[:n - 1], reg[:n - 1])
    if x == "amp-extra":
        return lambda: sim.get_amplitude(bits + [0], reg + [ghost])
    if x == "amp-double" and n:
        return lambda: sim.get_amplitude(bits + [bits[0]], reg + [reg[0]])
    if x == "c-short" and n:
        return lambda: sim.collapse_wavefunction(reg[:sub], bits[:sub - 1])
    if x == "c-long":
        return lambda: sim.collapse_wavefunction(reg, bits + [0])
    if x == "c-unknown":
        return lambda: sim.collapse_wavefunction(reg + [ghost], bits + [0])
    if x == "set-short" and n:
        return lambda: sim.set_wavefunction(list(v[:len(v) // 2]), reg)
    if x == "set-long":
        return lambda: sim.set_wavefunction(list(long), reg)
    if x == "set-missing" and n:
        return lambda: sim.set_wavefunction(list(v[:len(v) // 2]), reg[:n - 1])
    if x == "set-unknown":
        return lambda: sim.set_wavefunction(list(long), reg + [ghost])
    if x == "set-double" and n > 1:
        return lambda: sim.set_wavefunction(list(v), [reg[0]] * 2 + reg[2:])
    if x == "release" and n:
        i = perm[0]
        p = t.s.prob1(i)
        if 1e-4 < p < 1 - 1e-4:
            at = t.q[i].id if t.mapper is None else t.mapper.current_mapping[t.q[i].id]
            return lambda: sim.receive([Command(t.eng, Deallocate, ([WeakQubitRef(t.eng, at)],))])
    return None


def run(case, ev):
    from projectq.ops import All, Measure
    t = Session(case)
    sim, s = t.sim, t.s
    asked = changed = 0
    budget = 1.0
    try:
        for x in case["ops"]:
            k = x[0]
            what = str(x)
            if k == "a":
                t.alloc(x[1])
            elif k == "g":
                prog_gate = prog.pq_gate(x[1], x[2])
                tq, cq = t.reg(x[3]), t.reg(x[4])
                from projectq.meta import Control
                with Control(t.eng, cq):
                    prog_gate | tuple(tq)
                del tq, cq
                s.apply(ref.matrix(x[1], x[2]), x[3], x[4])
            elif k == "p":
                t.eng.flush()
                bits = [(x[2] >> i) & 1 for i in range(len(x[1]))]
                got, want = sim.get_probability(as_bits(bits, x[3]), t.reg(x[1])), s.prob(x[1], bits)
                if not abs(got - want) < 1e-7:
                    raise Violation("probability of %s on %s is %.9g, reported %.9g" % (bits, x[1], want, got))
                asked += 0 < len(x[1]) < len(s.ids)
            elif k == "amp":
                t.eng.flush()
                bits = [(x[2] >> i) & 1 for i in range(len(x[1]))]
                got = complex(sim.get_amplitude(as_bits(bits, x[3]), t.reg(x[1])))
                want = s.vector(x[1])[sum(b << i for i, b in enumerate(bits))]
                if not abs(got - want) < 1e-7:
                    raise Violation("amplitude of %s on %s is %s, reported %s" % (bits, x[1], want, got))
                asked += len(x[1]) > 1
            elif k == "m":
                t.eng.flush()
                if x[2] == "kernel" and t.mapper is None:
                    from projectq.ops import Command
                    from projectq.types import WeakQubitRef
                    sim.receive([Command(t.eng, Measure, ([WeakQubitRef(t.eng, t.q[i].id) for i in x[1]],))])
                elif x[2] == "all":
                    All(Measure) | t.reg(x[1])
                else:
                    for i in x[1]:
                        Measure | t.q[i]
                t.eng.flush()
                for i in x[1]:
                    r = int(t.q[i])
                    p = s.prob1(i)
                    budget *= max(p if r else 1 - p, 1e-13)
                    if (p if r else 1 - p) < 1e-13:
                        raise Violation("measured %d on qubit %d, which has probability %.3g" % (r, i, p if r else 1 - p))
                    s.project(i, r)
                changed += 1
            elif k == "c":
                t.eng.flush()
                probs = s.marginal(x[1])
                pick = [v for v in range(len(probs)) if (probs[v] > max(1e-11, 1e-13 / budget) if x[2] == "pos" else probs[v] < 1e-13)]
                if pick:
                    v = pick[x[3] % len(pick)]
                    bits = [(v >> i) & 1 for i in range(len(x[1]))]
                    if x[2] == "pos":
                        sim.collapse_wavefunction(t.reg(x[1]), as_bits(bits, x[4]))
                        # rounding errors grow as the surviving part is scaled up
                        budget *= probs[v]
                        ev.label("collapse to an unlikely outcome", probs[v] < 1e-6)
                        for i, b in zip(x[1], bits):
                            s.project(i, b)
                        changed += 1
                    else:
                        try:
                            sim.collapse_wavefunction(t.reg(x[1]), as_bits(bits, x[4]))
                        except Exception:
                            ev.label("impossible collapse")
                        else:
                            raise Violation("collapse of %s to %s, which has probability %.3g, was accepted" % (x[1], bits, probs[v]))
            elif k == "set":
                t.eng.flush()
                v = spec.random_state(x[2], len(x[1]), x[3])
                sim.set_wavefunction([complex(a) for a in v] if x[4] == "list" else np.array(v), t.reg(x[1]))
                t.wave(v, x[1])
                budget = 1.0
            elif k == "d":
                t.eng.flush()
                if min(s.prob1(x[1]), 1 - s.prob1(x[1])) > 1e-15:
                    r = 1 if s.prob1(x[1]) > 0.5 else 0
                    sim.collapse_wavefunction(t.reg([x[1]]), [r])
                    s.project(x[1], r)
                s.dealloc(x[1])
                q = t.q.pop(x[1])
                q.engine.deallocate_qubit(q)
                del q
            elif k == "bad":
                t.eng.flush()
                if x[1] == "pending":
                    if t.lazy:
                        q = t.eng.allocate_qubit()
                        late = list(q)
                        try:
                            sim.get_probability([0] * (len(s.ids) + 1), t.reg(x[2]) + late)
                        except Exception:
                            ev.label("rejected")
                        else:
                            raise Violation("a query on a qubit whose allocation has not been flushed was answered")
                        q[0].engine.deallocate_qubit(q[0])
                        del q, late
                else:
                    call = bad(x[1], t, x[3], x[2])
                    if call is not None:
                        try:
                            got = call()
                        except Exception:
                            ev.label("rejected")
                        else:
                            raise Violation("%s: accepted (returned %r)" % (x[1], got))
            t.check(what)
    finally:
        t.close()
    ev.label("mapped", t.mapper is not None)
    ev.label("state updates", changed)
    ev.mark(asked + changed >= 2)


# ------------------------------------------------------------------ outcome frequencies
@st.composite
def shot_cases(draw):
    n = draw(st.integers(1, 4))
    perm = list(draw(st.permutations(range(n))))
    return {"n": n, "state": [draw(st.integers(0, 9999)), draw(st.sampled_from(spec.STATE_KINDS))],
            "which": perm[:draw(st.integers(1, n))], "joint": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def chi2_bound(dof):
    """A value the chi-square statistic exceeds with probability below 1e-9 (Laurent-Massart)."""
    u = 21.0
    return dof + 2 * (dof * u) ** 0.5 + 2 * u


def run_shots(case, ev, shots=800):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.ops import All, Command, Measure
    from projectq.types import WeakQubitRef
    sim = Simulator(rnd_seed=case["seed"])
    eng = MainEngine(sim, [], verbose=True)
    q = list(eng.allocate_qureg(case["n"]))
    eng.flush()
    v = spec.random_state(case["state"][0], case["n"], case["state"][1])
    vl = [complex(a) for a in v]
    s = ref.RefState()
    s.ids, s.psi = list(range(case["n"])), v
    want = s.marginal(case["which"])
    reg = [q[i] for i in case["which"]]
    count = np.zeros(len(want))
    for _ in range(shots):
        sim.set_wavefunction(vl, q)
        if case["joint"]:
            sim.receive([Command(eng, Measure, ([WeakQubitRef(eng, x.id) for x in reg],))])
        else:
            All(Measure) | reg
        eng.flush()
        count[sum(int(x) << i for i, x in enumerate(reg))] += 1
    eng.next_engine.receive = sim.receive = lambda cl: None
    del q, reg
    if np.any(count[want < 1e-12]):
        raise Violation("an outcome of probability zero occurred: counts %s, probabilities %s" % (count, np.round(want, 6)))
    # merge rare outcomes
    keep = want * shots >= 10
    e = np.append(want[keep] * shots, shots * want[~keep].sum())
    o = np.append(count[keep], count[~keep].sum())
    e, o = (e, o) if e[-1] >= 10 else (np.append(e[:-2], e[-2:].sum()), np.append(o[:-2], o[-2:].sum()))
    stat = float(np.sum((o - e) ** 2 / e))
    if stat > chi2_bound(max(1, len(e) - 1)):
        raise Violation("outcome counts %s of %d shots do not follow the probabilities %s (chi-square %.1f with %d bins)" % (
            count, shots, np.round(want, 4), stat, len(e)))
    ev.mark(len(e) > 1)


# ------------------------------------------------------------------ extreme random numbers (Python kernel)
@st.composite
def edge_cases(draw):
    n = draw(st.integers(1, 3))
    perm = list(draw(st.permutations(range(n))))
    return {"n": n, "state": [draw(st.integers(0, 9999)), draw(st.sampled_from(["sparse", "basis", "full"]))],
            "which": perm[:draw(st.integers(1, n))], "rnd": draw(st.sampled_from([0.0, 5e-324, 1 - 2 ** -53, 0.5, 0.25])),
            "scale": draw(st.sampled_from([1.0, 1.0, 1 - 1e-12]))}


def run_edge(case, ev):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.ops import Measure
    old, cls, calls = random.random, random.Random, []

    def fake(*_):
        calls.append(1)
        return case["rnd"]

    class Fake(cls):
        random = fake
    random.Random = Fake        # a kernel may own a generator or use the module's
    try:
        sim = Simulator(rnd_seed=3)
    finally:
        random.Random = cls
    eng = MainEngine(sim, [], verbose=True)
    q = list(eng.allocate_qureg(case["n"]))
    eng.flush()
    v = spec.random_state(case["state"][0], case["n"], case["state"][1])
    sim.set_wavefunction([complex(a) * case["scale"] for a in v], q)
    s = ref.RefState()
    s.ids, s.psi = list(range(case["n"])), v
    try:
        random.random = fake
        for i in case["which"]:
            Measure | q[i]
            eng.flush()
            r = int(q[i])
            p = s.prob1(i)
            if (p if r else 1 - p) < 1e-9:
                raise Violation("random number %r: measured %d with probability %.3g" % (case["rnd"], r, p if r else 1 - p))
            s.project(i, r)
            _, wf = sim.cheat()
            d = float(np.max(np.abs(np.array(wf) - s.psi)))
            if not d < 1e-7:
                raise Violation("random number %r: the state after measuring is off by %.3g" % (case["rnd"], d))
            del wf
    finally:
        random.random = old
        eng.next_engine.receive = sim.receive = lambda cl: None
        del q
    ev.mark(bool(calls) and case["rnd"] not in (0.5, 0.25))


RULE = ("random histories of gates, queries, collapses, measurements, state assignments, releases and invalid calls against "
        "a dense reference, with and without a mapper; non-trivial = at least two informative queries or state updates")
SHOT = "repeated measurement of one prepared state; non-trivial = at least two possible outcomes"
TESTS = [
    Test("cpp", cases, run, 7000, rule=RULE),
    Test("py", lambda: cases(small=True), run, 3000, rule=RULE + " (pure-Python kernel)", kernel="py"),
    Test("shots-cpp", shot_cases, run_shots, 160, rule=SHOT),
    Test("shots-py", shot_cases, run_shots, 80, rule=SHOT + " (pure-Python kernel)", kernel="py"),
    Test("edge-py", edge_cases, run_edge, 600, rule="measurement with extreme random numbers; non-trivial = an extreme number was used", kernel="py"),
]

TESTS.append(Test("wide", lambda: wide.cases("P02"), wide.run, 240, chunk=15, rule=wide.RULE))
