"""P29: runs are reproducible - same seed and program, same results and circuit; different seeds, independent results."""
import random

import numpy as np
from hypothesis import strategies as st

from vf import compile as comp
from vf import prog, ref, session
from vf.core import Skip, Test, Violation

ASSUMPTIONS = ["one thread, one process; states compared to 1e-9, outcomes and circuits exactly (angles to 1e-9)",
               "random numbers drawn elsewhere in the process and other simulators may come in between"]
GATES = prog.G1 + prog.G1P + prog.G2
FULL = dict(gates=GATES, max_q=4, stmts=(3, 10), ctl_max=2, rich=["mat1", "tec", "ucr", "add", "qft", "inv"], depth=2, min_q=2)
DISTURB = ["random", "reseed", "numpy", "other-same", "other", "gc", "look", "engine"]


def seeds(draw):
    s = draw(st.integers(0, 2 ** 32 - 1))
    return draw(st.sampled_from([s, s, 0, 1, 2 ** 32 - 1, 2 ** 31, 2 ** 16, s & 255]))


@st.composite
def cases(draw, kinds=("rg", "ti", "linear", "grid")):
    p = draw(prog.programs(prog.Opts(**FULL)))
    # plenty of open outcomes
    r = random.Random(draw(st.integers(0, 10 ** 9)))
    body = []
    for x in p["body"]:
        if x[0] in ("m", "md"):
            for q in x[1] if x[0] == "m" else [x[1]]:
                body.append(["g", "Ry", [round(0.4 + 2 * r.random(), 3)], [q], [], 0])
        body.append(x)
    live = []
    for x in body:
        if x[0] == "a":
            live += x[1]
        elif x[0] in ("md", "d"):
            live.remove(x[1])
    for q in live:
        body.append(["g", "Ry", [round(0.6 + 2 * r.random(), 3)], [q], [], 0])
        if r.random() < 0.7:
            body.append(["m", [q]])
    p["body"] = body
    p["list"] = draw(st.one_of(st.sampled_from([["none"], ["none"], ["main"]]), comp.targets(kinds)))
    p["seed"] = seeds(draw)
    p["disturb"] = draw(st.lists(st.lists(st.sampled_from(DISTURB), max_size=2), max_size=12))
    return p


def disturb(kind, case, s):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.ops import H, Measure
    if kind == "random":
        random.random()
        random.randint(0, 9)
    elif kind == "reseed":
        random.seed(12345)
    elif kind == "numpy":
        np.random.seed(7)
        np.random.rand(3)
    elif kind in ("other", "other-same"):
        sim = Simulator(rnd_seed=case["seed"] if kind == "other-same" else case["seed"] ^ 1)
        eng = MainEngine(sim, [])
        q = eng.allocate_qureg(2)
        for x in q:
            H | x
            Measure | x
        eng.flush()
        del x, q
    elif kind == "engine":
        eng = MainEngine(Simulator(), verbose=True)
        q = eng.allocate_qubit()
        H | q
        Measure | q
        del q
    elif kind == "gc":
        import gc
        gc.collect(0)
    elif kind == "look" and s is not None and s.sim is not None and s.t[0] == "none":
        # asking for amplitudes and probabilities is not an event
        known, wf = s.sim.cheat()
        names = [n for n in s.r.env if s.r.ids[n] in known]
        if names:
            s.sim.get_probability("1", [s.r.env[names[0]]])
            s.sim.get_amplitude("0" * len(known), [s.r.env[n] for n in names]) if len(names) == len(known) else None


def one(case, noisy, kind):
    s = session.Session(case, case["list"], seed=case["seed"], kind=kind)
    try:
        i = 0
        while s.step():
            if noisy and i < len(case["disturb"]):
                for k in case["disturb"][i]:
                    disturb(k, case, s)
            i += 1
        want = s.judge()
        return s.outcomes(), s.vector(want.ids), list(want.ids), getattr(s.be, "log", None)
    finally:
        s.close()


def run(case, ev):
    case = dict(case, list=session.for_simulator(case["list"]))
    state = random.getstate()
    try:
        a = one(case, False, "sim")
        runs = [one(case, True, "sim"), one(case, False, "sim")]
    finally:
        random.setstate(state)
    for what, b in zip(("with other things happening in between", "repeated"), runs):
        if a[0] != b[0]:
            raise Violation("seed %d, %s: outcomes %s, before %s" % (case["seed"], what, b[0], a[0]))
        if a[2] != b[2]:
            raise Violation("seed %d, %s: live qubits %s, before %s" % (case["seed"], what, b[2], a[2]))
        d = float(np.max(np.abs(a[1] - b[1])))
        if not d < 1e-9:
            raise Violation("seed %d, %s: the final states differ by %.3g" % (case["seed"], what, d))
    ev.label("disturbed", any(case["disturb"]))
    ev.label("list " + case["list"][0])
    ev.label("feedback", any(x[0] == "if" for x in case["body"]))
    ev.mark(len(a[0]) >= 2)


# ------------------------------------------------------------------ circuits
def normal(log):
    """Commands with qubits numbered by first appearance."""
    ids, out = {}, []
    for c in log:
        name = [ids.setdefault(i, len(ids)) for i in [q.id for r in c.qubits for q in r]]
        ctl = [ids.setdefault(q.id, len(ids)) for q in c.control_qubits]
        g = c.gate
        out.append((type(g).__name__, str(g), name, ctl, str(c.control_state)))
    return out


def run_circuit(case, ev):
    if case["list"][0] == "main" and "AddConstant" in str(case["body"]):
        raise Skip("the default rules leave arithmetic to the simulator")
    a = one(case, False, "ref")
    b = one(case, True, "ref")
    x, y = normal(a[3]), normal(b[3])
    if x != y:
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        raise Violation("%s: the second circuit differs at command %d of %d/%d: %s, before %s" % (
            case["list"], i, len(x), len(y), y[i:i + 1], x[i:i + 1]))
    ev.label("list " + case["list"][0])
    ev.mark(len(x) >= 20)


# ------------------------------------------------------------------ different seeds
@st.composite
def seed_cases(draw):
    s = seeds(draw)
    how = draw(st.sampled_from(["bit", "next", "free", "none"]))
    if how == "bit":
        t = s ^ (1 << draw(st.integers(0, 31)))
    elif how == "next":
        t = (s + 1) % 2 ** 32
    else:
        t = seeds(draw)
    return {"s": s, "t": t, "how": how, "p": draw(st.sampled_from([0.5, 0.5, 0.3]))}


def flips(seed, p, n=64):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.ops import Measure, Ry, X
    sim = Simulator(rnd_seed=seed) if seed is not None else Simulator()
    eng = MainEngine(sim, [])
    q = eng.allocate_qubit()
    out = []
    for _ in range(n):
        Ry(2 * np.arcsin(p ** 0.5)) | q
        Measure | q
        eng.flush()
        out.append(int(q))
        if out[-1]:
            X | q
    eng.flush()
    del q
    return out


def run_seeds(case, ev):
    s, t = (None, None) if case["how"] == "none" else (case["s"], case["t"])
    if s is not None and s == t:
        raise Skip("same seed")
    a, b = flips(s, case["p"]), flips(t, case["p"])
    if a == b:
        raise Violation("seeds %s and %s give the same 64 outcomes" % (s, t))
    # agreement of two independent sequences: far tails only (1e-9 and less)
    same = sum(x == y for x, y in zip(a, b))
    if not 6 <= same <= 62:
        raise Violation("seeds %s and %s: %d of 64 outcomes agree" % (s, t, same))
    ev.label("unseeded", s is None)
    ev.label("how " + case["how"])
    ev.mark(True)


RULE = ("a program with measurements, feedback and release run three times with the same seed on the simulator behind a "
        "generated engine list, the second time with random numbers drawn, other simulators used and probabilities asked for "
        "in between: same outcomes and final state; non-trivial = two or more outcomes")
SEEDS = "64 outcomes under two different seeds (one bit apart, neighbours, free, or none given) differ and are not correlated"
TESTS = [
    Test("cpp", cases, run, 1200, chunk=40, rule=RULE),
    Test("py", cases, run, 800, chunk=40, rule=RULE + " (pure-Python kernel)", kernel="py"),
    Test("circuit", lambda: cases(("rg", "rg", "ti", "linear", "grid")), run_circuit, 800, chunk=40,
         rule="the same program compiled twice by the same engine list, with other sessions in between, gives the same "
              "commands; non-trivial = 20 or more commands"),
    Test("seeds", seed_cases, run_seeds, 500, rule=SEEDS),
    Test("seeds-py", seed_cases, run_seeds, 300, rule=SEEDS + " (pure-Python kernel)", kernel="py"),
]
