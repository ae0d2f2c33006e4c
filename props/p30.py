"""P30: sessions in one process do not influence each other."""
import random

from hypothesis import strategies as st

from vf import compile as comp
from vf import prog, session, spec
from vf.core import Test, Violation

ASSUMPTIONS = ["two or three engines in one thread, advanced statement by statement in a generated order, also in the middle of "
               "each other's sections; up to 3 program qubits each; states compared up to a global phase, 1e-6"]
GATES = prog.G1 + prog.G1P + prog.G2
RICH = ["mat1", "tec", "ucr", "add", "qft", "ent", "qop", "inv"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 3))
    shared = draw(st.sampled_from([GATES, GATES[:8], ["H", "X", "Rx", "Rz", "Ry", "T"]]))
    progs = []
    for i in range(n):
        p = draw(prog.programs(prog.Opts(gates=shared, max_q=3, stmts=(2, 8), ctl_max=2, rich=RICH, depth=2, spread=True, min_q=2)))
        t = draw(st.one_of(st.sampled_from([["none"], ["main"]]), comp.targets(("rg", "ti", "linear", "grid"))))
        kind = draw(st.sampled_from(["ref", "ref", "sim"]))
        if t == ["main"] and "AddConstant" in str(p["body"]):
            kind = "sim"
        p.update(list=session.for_simulator(t) if kind == "sim" else t, kind=kind, seed=draw(st.integers(0, 2 ** 32 - 1)))
        progs.append(p)
    if draw(st.integers(0, 3)) == 0:
        progs[-1] = dict(progs[0])      # twins
    return {"progs": progs, "order": draw(st.integers(0, 10 ** 9)), "nested": draw(st.booleans()),
            "share": draw(st.booleans()), "early": draw(st.booleans())}


def run(case, ev):
    memo, builders = {}, (prog.pq_gate, spec.build)
    if case["share"]:
        # the sessions apply the very same gate objects
        def gate(name, params):
            return memo.setdefault(("g", name, str(params)), builders[0](name, params))

        def build(sp):
            return memo.setdefault(("s", str(sp)), builders[1](sp))
        prog.pq_gate, spec.build = gate, build
    r = random.Random(case["order"])
    ss, inner = [], 0
    try:
        for p in case["progs"]:
            ss.append(session.Session(p, p["list"], seed=p["seed"], kind=p["kind"]))
        if case["nested"]:
            def between():
                nonlocal inner
                if r.random() < 0.5:
                    inner += r.choice(ss).step()
            for s in ss:
                s.r.between = between
        switches, last = 0, None
        while any(not s.done for s in ss):
            s = r.choice([s for s in ss if not s.done])
            switches += s is not last
            last = s
            s.step()
            if s.done and case["early"]:
                # judged and let go while the others are still running
                judge(ss, s)
        for s in ss:
            if not case["early"]:
                judge(ss, s)
    finally:
        prog.pq_gate, spec.build = builders
        for s in ss:
            s.close()
    ev.label("nested", inner > 0)
    ev.label("shared gates", case["share"])
    ev.label("both kinds", len({s.sim is None for s in ss}) == 2)
    for s in ss:
        ev.label("list " + s.t[0])
    ev.mark(switches >= 4)


def judge(ss, s):
    try:
        s.judge()
    except Violation as e:
        raise Violation("session %d of %d: %s" % (ss.index(s), len(ss), e)) from None
    s.close()


# ------------------------------------------------------------------ alone or in company
def company_cases():
    return cases()


def alone(p, kind="sim"):
    s = session.Session(p, p["list"], seed=p["seed"], kind=kind)
    try:
        s.finish()
        return s.outcomes()
    finally:
        s.close()


def run_company(case, ev):
    """With seeded simulators, a session's outcomes are the ones it would have alone."""
    progs = [dict(p, list=session.for_simulator(p["list"])) for p in case["progs"]]
    want = [alone(p) for p in progs]
    r = random.Random(case["order"])
    ss = []
    try:
        for p in progs:
            ss.append(session.Session(p, p["list"], seed=p["seed"], kind="sim"))
        if case["nested"]:
            def between():
                if r.random() < 0.5:
                    r.choice(ss).step()
            for s in ss:
                s.r.between = between
        while any(not s.done for s in ss):
            r.choice([s for s in ss if not s.done]).step()
        for i, s in enumerate(ss):
            if s.outcomes() != want[i]:
                raise Violation("session %d of %d: outcomes %s, alone %s" % (i, len(ss), s.outcomes(), want[i]))
            judge(ss, s)
    finally:
        for s in ss:
            s.close()
    ev.mark(sum(bool(w) for w in want) >= 2)


RULE = ("two or three engines, each with its own program and engine list (simulator or reference backend), advanced in a generated "
        "interleaving, also inside each other's sections, sharing gate objects or not; each judged against its own reference; "
        "non-trivial = 4 or more switches")
COMP = "seeded simulators used in turns give each session the outcomes it has alone; non-trivial = two sessions measure"
TESTS = [
    Test("interleaved", cases, run, 900, chunk=30, rule=RULE),
    Test("interleaved-py", cases, run, 400, chunk=30, rule=RULE + " (pure-Python kernel)", kernel="py"),
    Test("company", company_cases, run_company, 400, chunk=30, rule=COMP),
    Test("company-py", company_cases, run_company, 300, chunk=30, rule=COMP + " (pure-Python kernel)", kernel="py"),
]
