"""P21: the unitary simulator reports exactly the circuit's unitary."""
import warnings

import numpy as np
from hypothesis import strategies as st

from props.p02 import chi2_bound
from vf import denote, prog, ref, spec
from vf.core import Test, Violation

ASSUMPTIONS = ["at most 5 qubits at a time; matrices compared to 1e-7; measurements follow a flush, as documented",
               "negative controls are compiled away first (the simulator declines them)",
               "a segment's matrix may be widened by qubits allocated after the segment ended"]


@st.composite
def gate_ops(draw, alive, neg):
    n = len(alive)
    perm = list(draw(st.permutations(alive)))
    kind = draw(st.sampled_from(["1", "1", "2", "mat", "mat"]))
    if kind == "mat":
        k = draw(st.integers(1, min(4, n)))
        what = ["Mat", draw(st.sampled_from(["full", "perm", "diag", "real"])), draw(st.integers(0, 99)), k]
    else:
        names = prog.G1 + prog.G1P if kind == "1" or n < 2 else prog.G2 + prog.G2P
        name = draw(st.sampled_from(names))
        what, k = [name] + prog.params_of(draw, name), ref.NQ[name]
    ctrls = [[q, 0 if neg and draw(st.integers(0, 4)) == 0 else 1] for q in perm[k:][:draw(st.integers(0, 3))]]
    return ["g", what, perm[:k], ctrls]


@st.composite
def cases(draw):
    flavour = draw(st.sampled_from(["last", "last", "middle", "compiled"]))
    alive, ctr, ops = [], 0, []
    for _ in range(draw(st.integers(2, 16))):
        k = draw(st.sampled_from(["a"] * (6 if len(alive) < 2 else 2) + ["g"] * 8 + ["f", "f", "m", "m", "d", "look"]))
        if k == "a":
            w = min(draw(st.integers(1, 3)), 5 - len(alive))
            if w > 0:
                ops.append(["a", list(range(ctr, ctr + w))])
                alive += list(range(ctr, ctr + w))
                ctr += w
        elif k in ("f", "look"):
            ops.append([k])
        elif not alive:
            continue
        elif k == "g":
            ops.append(draw(gate_ops(alive, flavour in ("compiled", "opt"))))
        elif k == "m":
            perm = list(draw(st.permutations(alive)))
            ops.append(["m", perm[:draw(st.integers(1, len(alive)))], draw(st.booleans())])
        else:
            q = draw(st.sampled_from(alive))
            alive.remove(q)
            ops.append(["d", q, draw(st.integers(0, 3)) > 0])
    return {"flavour": flavour, "ops": ops, "seed": draw(st.integers(0, 999))}


def build(flavour):
    import projectq.setups.decompositions as d
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, DummyEngine, LocalOptimizer
    u = UnitarySimulator()
    neg = AutoReplacer(DecompositionRuleSet(modules=[d.controlstate]))
    if flavour == "last":
        return u, MainEngine(u, [], verbose=True)
    if flavour == "middle":
        dummy = DummyEngine(save_commands=True)
        dummy.is_available = lambda cmd: True
        return u, MainEngine(dummy, [u], verbose=True)
    return u, MainEngine(u, [neg] + ([LocalOptimizer(4)] if flavour == "opt" else []), verbose=True)


def run(case, ev):
    warnings.simplefilter("ignore")
    u, eng = build(case["flavour"])
    import random
    random.seed(case["seed"])
    s = ref.RefState()
    q, order = {}, []
    current, valid, past = np.eye(1), True, []
    late = 0                # allocations since the segment ended
    n_gates = segments = 0
    lazy = case["flavour"] == "opt"

    def same(got, want, more):
        got = np.asarray(got, dtype=complex)
        if got.ndim == 0 or got.shape == (1,):
            got = got.reshape(1, 1)
        w = want
        for _ in range(more + 1):
            if got.shape == w.shape and np.max(np.abs(got - w)) < 1e-7:
                return True
            w = np.kron(np.eye(2), w)
        return False

    def compare(what):
        if lazy:
            eng.flush()
        if not same(u.unitary, current, late if not valid else 0):
            got = np.asarray(u.unitary)
            raise Violation("%s: the unitary\n%s\nshould be\n%s" % (what, np.round(got, 3), np.round(current, 3)))
        h = u.history
        if len(h) != len(past):
            raise Violation("%s: %d segments in the history, should be %d" % (what, len(h), len(past)))
        for i, (a, (b, more)) in enumerate(zip(h, past)):
            if not same(a, b, more):
                raise Violation("%s: history segment %d is\n%s\nshould be\n%s" % (what, i, np.round(a, 3), np.round(b, 3)))
    try:
        for x in case["ops"]:
            k = x[0]
            if k == "a":
                for i in x[1]:
                    [qb] = eng.allocate_qubit()
                    q[i] = qb
                    if lazy:    # the optimizer may reorder independent allocations
                        eng.flush()
                    s.alloc(i)
                    order.append(i)
                    if valid:
                        current = np.kron(np.eye(2), current)
                    else:
                        late += 1
                del qb
            elif k == "g":
                from projectq.meta import Control
                if not valid:
                    past.append((current, late))
                    current, valid, late = np.eye(1 << len(order)), True, 0
                    segments += 1
                n_gates += 1
                g = spec.build(x[1])
                with Control(eng, [q[c] for c, _ in x[3]], ctrl_state="".join(str(v) for _, v in x[3])):
                    if x[1][0] == "Mat":
                        g | [q[i] for i in x[2]]
                    else:
                        g | tuple(q[i] for i in x[2])
                m = spec.meaning(x[1], [len(x[2])])[1]
                s.apply(m, x[2], [c for c, _ in x[3]], [v for _, v in x[3]])
                at = {i: p for p, i in enumerate(order)}
                current = denote.expand(m, len(order), [at[i] for i in x[2]], [[at[c], v] for c, v in x[3]]) @ current
            elif k == "f":
                eng.flush()
            elif k == "look":
                compare("on request")
            elif k == "m":
                from projectq.ops import All, Measure
                eng.flush()
                if x[2]:
                    All(Measure) | [q[i] for i in x[1]]
                else:
                    for i in x[1]:
                        Measure | q[i]
                if lazy:
                    eng.flush()
                for i in x[1]:
                    r = int(q[i])
                    p = s.prob1(i)
                    if (p if r else 1 - p) < 1e-9:
                        raise Violation("measured %d on qubit %d, which has probability %.3g" % (r, i, p if r else 1 - p))
                    s.project(i, r)
                valid = False
                ev.label("measured")
            elif k == "d":
                i = x[1]
                if s.value(i) is None or not x[2]:
                    from projectq.ops import Measure
                    eng.flush()
                    Measure | q[i]
                    if lazy:
                        eng.flush()
                    r = int(q[i])
                    p = s.prob1(i)
                    if (p if r else 1 - p) < 1e-9:
                        raise Violation("measured %d on qubit %d, which has probability %.3g" % (r, i, p if r else 1 - p))
                    s.project(i, r)
                if lazy:
                    eng.flush()
                s.dealloc(i)
                order.remove(i)
                qb = q.pop(i)
                qb.engine.deallocate_qubit(qb)
                del qb
                if lazy:
                    eng.flush()
                valid = False
                ev.label("released")
            if not lazy:
                compare("after %s" % x)
        eng.flush()
        compare("at the end")
        eng.flush()
        eng.flush()
        compare("after flushing again")
        if case["flavour"] == "middle":
            from projectq.ops import FlushGate
            got = [str(c) for c in eng.backend.received_commands if not isinstance(c.gate, FlushGate)]
            want = sum(1 if k[0] in "gd" else len(k[1]) if k[0] in "am" else 0 for k in case["ops"])
            if len(got) < want:
                raise Violation("%d commands were passed on, at least %d expected" % (len(got), want))
        # final outcomes
        if q:
            from projectq.ops import Measure
            for i in list(q):
                Measure | q[i]
            eng.flush()
            for i in list(q):
                r, p = int(q[i]), s.prob1(i)
                if (p if r else 1 - p) < 1e-9:
                    raise Violation("measured %d on qubit %d at the end, which has probability %.3g" % (r, i, p if r else 1 - p))
                s.project(i, r)
    finally:
        eng.next_engine.receive = u.receive = lambda cl: None
        q.clear()
    ev.label(case["flavour"])
    ev.label("several segments", segments > 0)
    ev.mark(n_gates >= 2)


# ------------------------------------------------------------------ outcome frequencies
@st.composite
def shot_cases(draw):
    n = draw(st.integers(1, 3))
    alive = list(range(n))
    start = [["g", ["Ry", draw(st.sampled_from([0.7, 1.2, 1.9, 2.5]))], [i], []] for i in alive if draw(st.integers(0, 3))]
    return {"n": n, "ops": start + [draw(gate_ops(alive, False)) if draw(st.integers(0, 4)) else ["f"] for _ in range(draw(st.integers(1, 6)))],
            "which": list(draw(st.permutations(alive)))[:draw(st.integers(1, n))], "seed": draw(st.integers(0, 10 ** 6)),
            "joint": draw(st.booleans())}


def run_shots(case, ev, shots=300):
    import random
    from projectq.meta import Control
    from projectq.ops import All, Command, Measure
    from projectq.types import WeakQubitRef
    warnings.simplefilter("ignore")
    random.seed(case["seed"])
    count, s = {}, None
    for shot in range(shots):
        u, eng = build("last")
        q = list(eng.allocate_qureg(case["n"]))
        for x in case["ops"]:
            if x[0] == "f":
                eng.flush()
                continue
            with Control(eng, [q[c] for c, _ in x[3]]):
                if x[1][0] == "Mat":
                    spec.build(x[1]) | [q[i] for i in x[2]]
                else:
                    spec.build(x[1]) | tuple(q[i] for i in x[2])
        eng.flush()
        reg = [q[i] for i in case["which"]]
        if case["joint"]:
            u.receive([Command(eng, Measure, ([WeakQubitRef(eng, b.id) for b in reg],))])
        else:
            All(Measure) | reg
        v = sum(int(b) << j for j, b in enumerate(reg))
        count[v] = count.get(v, 0) + 1
        eng.next_engine.receive = u.receive = lambda cl: None
        del q, reg
    s = ref.RefState()
    for i in range(case["n"]):
        s.alloc(i)
    for x in case["ops"]:
        if x[0] == "g":
            s.apply(spec.meaning(x[1], [len(x[2])])[1], x[2], [c for c, _ in x[3]], [v for _, v in x[3]])
    want = s.marginal(case["which"])
    obs = np.array([count.get(v, 0) for v in range(len(want))])
    if np.any(obs[want < 1e-12]):
        raise Violation("an outcome of probability zero occurred: counts %s, probabilities %s" % (obs, np.round(want, 6)))
    keep = want * shots >= 10
    e = np.append(want[keep] * shots, shots * want[~keep].sum())
    o = np.append(obs[keep], obs[~keep].sum())
    e, o = (e, o) if e[-1] >= 10 else (np.append(e[:-2], e[-2:].sum()), np.append(o[:-2], o[-2:].sum()))
    stat = float(np.sum((o - e) ** 2 / e))
    if stat > chi2_bound(max(1, len(e) - 1)):
        raise Violation("outcome counts %s do not follow the probabilities %s (chi-square %.1f)" % (obs, np.round(want, 4), stat))
    ev.mark(len(e) > 1)


# ------------------------------------------------------------------ what it claims to support
@st.composite
def offers(draw):
    return {"op": draw(gate_ops([0, 1, 2, 3], True)), "alloc": draw(st.permutations([0, 1, 2, 3])), "ids": draw(st.booleans())}


def run_offer(case, ev):
    from projectq.ops import Command
    from projectq.types import WeakQubitRef
    warnings.simplefilter("ignore")
    u, eng = build("last")
    _, what, t, ctrls = case["op"]
    base = {i: (i if case["ids"] else 7 * (4 - i)) for i in range(4)}
    w = {i: WeakQubitRef(eng, base[i]) for i in range(4)}
    from projectq.ops import Allocate
    for i in case["alloc"]:
        u.receive([Command(eng, Allocate, ([w[i]],))])
    regs = ([w[i] for i in t],) if what[0] == "Mat" else tuple([w[i]] for i in t)
    cmd = Command(eng, spec.build(what), regs, controls=[w[c] for c, _ in ctrls], control_state="".join(str(v) for _, v in ctrls))
    offered = u.is_available(cmd)
    if offered != all(v for _, v in ctrls):
        raise Violation("%s with controls %s is%s called available" % (cmd, ctrls, "" if offered else " not"))
    if offered:
        u.receive([cmd])
        at = {i: list(case["alloc"]).index(i) for i in range(4)}
        want = denote.expand(spec.meaning(what, [len(t)])[1], 4, [at[i] for i in t], [[at[c], v] for c, v in ctrls])
        got = np.asarray(u.unitary)
        if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-7:
            raise Violation("%s: the unitary\n%s\nshould be\n%s" % (cmd, np.round(got, 3), np.round(want, 3)))
    ev.mark(len(t) > 1 or bool(ctrls))
    eng.next_engine.receive = lambda cl: None


TESTS = [
    Test("histories", cases, run, 2400,
         rule="histories of allocations, (controlled) gates of up to 4 qubits in any order, flushes, measurements and releases; unitary, "
              "history and outcomes recomputed after every step; non-trivial = at least two gates"),
    Test("frequencies", shot_cases, run_shots, 120,
         rule="300 runs of one small circuit with flushes; chi-square of the outcomes; non-trivial = at least two possible outcomes"),
    Test("single", offers, run_offer, 1600,
         rule="one command on four qubits allocated in any order under any ids; non-trivial = several targets or controls"),
]
