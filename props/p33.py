"""P33: a statement that is refused leaves no trace."""
from hypothesis import strategies as st

from vf import compile as comp
from vf import prog, session
from vf.core import Skip, Test, Violation

ASSUMPTIONS = ["statements which the library refuses where they are written (not ones a later compilation step refuses)",
               "up to 4 program qubits; states up to a global phase, 1e-6"]
GATES = prog.G1 + prog.G1P + prog.G2
RICH = ["mat1", "tec", "ucr", "qft", "ent", "qop", "inv"]
FULL = dict(gates=GATES, max_q=4, stmts=(2, 8), ctl_max=2, rich=RICH, depth=2, spread=True, min_q=2)

# name -> (may stand inside a section, fewest live qubits)
ANY = {"measure-list": 2, "measure-tuple": 2, "dead-target": 0, "dead-second": 1, "dead-control": 1, "dead-wrapped": 1, "dead-measure": 0,
       "few-controls": 1, "more-controls": 2, "state-long": 1, "state-short": 2, "state-letter": 1, "state-big": 1, "state-float": 1,
       "conflict": 2, "conflict-list": 2, "control-tuple": 2, "flip-regs": 2, "qop-short": 1, "qop-regs": 2,
       "qop-sum": 1, "qop-size": 1, "te-short": 1, "te-regs": 2, "loop-negative": 1, "loop-float": 1, "target-int": 0, "target-str": 0,
       "target-none": 0, "no-target": 0, "swap-one": 1, "dealloc-dead": 0, "unmeasured": 1}
TOP = {"uncompute": 0, "custom-uncompute": 0}
SIM = {"amplitude-some": 2, "amplitude-dead": 1, "probability-dead": 1, "probability-short": 2, "wavefunction-size": 1, "wavefunction-some": 2,
 "collapse-short": 2, "collapse-never": 1, "expectation-short": 1, "apply-short": 1, "apply-second": 1, "apply-dead": 1,
       "expectation-second": 1, "expectation-dead": 1, "collapse-dead": 1, "wavefunction-dead": 1, "amplitude-short": 1}
ALL = {**ANY, **TOP, **SIM}


def refused(name, eng, r, sim, k):
    """Make the statement; True if it was refused, None if it does not apply here."""
    import projectq.ops as o
    from projectq.meta import Control, CustomUncompute, Loop, Uncompute
    from projectq.types import Qubit
    live = [r.env[n] for n in sorted(r.env)]
    if len(live) < ALL[name]:
        return None
    live = live[k % len(live):] + live[:k % len(live)] if live else live
    a = live[0] if live else None
    b = live[1] if len(live) > 1 else None
    dead = Qubit(eng, -1)

    def section(cm, *more):
        with cm:
            for m in more:
                m()
    if name in ("unmeasured", "probability-short") or name in SIM:
        if name == "unmeasured":
            a = next((r.env[n] for n in sorted(r.env) if not any(e[0] == "m" and e[1] == n for e in r.log)), None)
            if a is None:
                return None
        elif sim is None:
            return None
    acts = {
        "measure-list": lambda: o.Measure | [a, b],
        "measure-tuple": lambda: o.Measure | (a, b),
        "dead-target": lambda: o.X | dead,
        "dead-second": lambda: o.Swap | (a, dead),
        "dead-control": lambda: o.CNOT | (dead, a),
        "dead-wrapped": lambda: section(Control(eng, dead), lambda: o.H | a),
        "dead-measure": lambda: o.Measure | dead,
        "few-controls": lambda: o.C(o.X, 2) | a,
        "more-controls": lambda: o.C(o.X, 3) | ([a, b], live[-1]),
        "state-long": lambda: section(Control(eng, a, ctrl_state="11"), lambda: o.X | b if b else None),
        "state-short": lambda: section(Control(eng, [a, b], ctrl_state="1"), lambda: None),
        "state-letter": lambda: section(Control(eng, a, ctrl_state="2"), lambda: None),
        "state-big": lambda: section(Control(eng, a, ctrl_state=2), lambda: None),
        "state-float": lambda: section(Control(eng, a, ctrl_state=1.0), lambda: None),
        "conflict": lambda: section(Control(eng, a), lambda: section(Control(eng, a, ctrl_state=0), lambda: o.X | b)),
        "conflict-list": lambda: section(Control(eng, [a, a], ctrl_state="01"), lambda: o.X | b),
        "control-tuple": lambda: section(Control(eng, (a, b)), lambda: None),
        "flip-regs": lambda: o.FlipBits([1]) | (a, b),
        "qop-short": lambda: o.QubitOperator("X0 Z3") | [a],
        "qop-regs": lambda: o.QubitOperator("X0 Z1") | ([a], [b]),
        "qop-sum": lambda: (o.QubitOperator("X0") + o.QubitOperator("Z0")) | [a],
        "qop-size": lambda: o.QubitOperator("X0", 0.5) | [a],
        "te-short": lambda: o.TimeEvolution(0.7, o.QubitOperator("X0 Z3")) | [a],
        "te-regs": lambda: o.TimeEvolution(0.7, o.QubitOperator("X0 Z1")) | ([a], [b]),
        "loop-negative": lambda: section(Loop(eng, -1), lambda: o.X | a),
        "loop-float": lambda: section(Loop(eng, 2.0), lambda: o.X | a),
        "target-int": lambda: o.X | 3,
        "target-str": lambda: o.X | "ab",
        "target-none": lambda: o.X | None,
        "no-target": lambda: o.X | [],
        "swap-one": lambda: o.Swap | a,
        "dealloc-dead": lambda: eng.deallocate_qubit(dead),
        "unmeasured": lambda: int(a),
        "uncompute": lambda: Uncompute(eng),
        "custom-uncompute": lambda: section(CustomUncompute(eng), lambda: o.X | live[0] if live else None),
        "amplitude-some": lambda: sim.get_amplitude("0", [a]),
        "amplitude-dead": lambda: sim.get_amplitude("0" * len(live), live[1:] + [dead]),
        "probability-dead": lambda: sim.get_probability("1", [dead]),
        "probability-short": lambda: sim.get_probability("1", [a, b]),
        "wavefunction-size": lambda: sim.set_wavefunction([1.0] + [0.0] * (1 << len(live) + 1), live),
        "wavefunction-some": lambda: sim.set_wavefunction([0.0, 1.0], [a]),
        "collapse-short": lambda: sim.collapse_wavefunction([a, b], [1]),
        "apply-second": lambda: sim.apply_qubit_operator(o.QubitOperator("X0") + o.QubitOperator("Y0 Z1"), [a]),
        "apply-dead": lambda: sim.apply_qubit_operator(o.QubitOperator("X0") + o.QubitOperator("Y0 Z1"), [a, dead]),
        "expectation-second": lambda: sim.get_expectation_value(o.QubitOperator("X0") + o.QubitOperator("Y0 Z1"), [a]),
        "expectation-dead": lambda: sim.get_expectation_value(o.QubitOperator("X0") + o.QubitOperator("Y0 Z1"), [a, dead]),
        "collapse-dead": lambda: sim.collapse_wavefunction([a, dead], [0, 0]),
        "wavefunction-dead": lambda: sim.set_wavefunction([1.0] + [0.0] * ((1 << len(live)) - 1), live[1:] + [dead]),
        "amplitude-short": lambda: sim.get_amplitude("0" * (len(live) - 1), live),
        "collapse-never": None,
        "expectation-short": lambda: sim.get_expectation_value(o.QubitOperator("X0 Z5"), [a]),
        "apply-short": lambda: sim.apply_qubit_operator(o.QubitOperator("X0 Z5"), [a]),
    }
    act = acts[name]
    if name == "collapse-never":
        eng.flush()
        r.collect()
        p = sim.get_probability("1", [a])
        if 1e-6 < p < 1 - 1e-6:
            return None
        bit = int(p < 0.5)

        def act():
            sim.collapse_wavefunction([a], [bit])
    try:
        act()
    except Violation:
        raise
    except Exception:  # noqa: BLE001
        return True
    return False


@st.composite
def cases(draw):
    p = draw(prog.programs(prog.Opts(**FULL)))
    t = draw(st.sampled_from([["none"], ["main"]])) if draw(st.booleans()) else draw(comp.targets(("rg", "rg", "linear", "grid", "ti")))
    p["target"] = t
    p["sim"] = draw(st.sampled_from([0, 0, 1]))
    p["bad"] = draw(st.lists(st.tuples(st.integers(0, 7), st.sampled_from(sorted(ALL)), st.integers(0, 3)).map(list), min_size=1, max_size=5))
    p["seed"] = draw(st.integers(0, 9999))
    return p


def once(case, bad):
    """Run; returns (stream or outcomes, final state in program order, names refused)."""
    t = case["target"]
    kind = "sim" if case["sim"] else "ref"
    if kind == "sim" and t[0] not in ("none", "main"):
        t = session.for_simulator(t)
    s = session.Session(case, t, seed=case["seed"], kind=kind)
    made = []
    at = [0]

    def here(inside):
        for i, name, k in bad:
            if i != at[0] or inside and name not in ANY:
                continue
            if name in SIM and not inside and s.sim is not None:
                s.eng.flush()
                s.r.collect()
            got = refused(name, s.eng, s.r, s.sim, k)
            if got is None:
                continue
            if not got:
                raise Violation("%s: the statement %s was accepted" % (t, name))
            made.append(name + " (inside)" * inside)
        at[0] += 1
    s.r.between = lambda: here(True)
    try:
        here(False)
        while s.step():
            here(False)
        s.judge()
        if s.sim is None:
            out = [str(c) + str(sorted(type(x).__name__ for x in c.tags)) for c in s.be.log]
        else:
            out = s.outcomes()
        return out, made
    finally:
        s.close()


def run(case, ev):
    case = dict(case)
    if case["target"] == ["main"] and "AddConstant" in str(case["body"]) and not case["sim"]:
        raise Skip("arithmetic")
    bad = case["bad"]
    got, made = once(case, bad)
    if not made:
        ev.label("nothing refused")
        return
    if case["sim"] and not any(n in SIM for n in made) or not case["sim"]:
        want, _ = once(case, [])
        if got != want:
            k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            raise Violation("after refusing %s the run differs from item %d on: %s instead of %s" % (made, k, got[k:k + 2], want[k:k + 2]))
    for m in made:
        ev.label(m)
    ev.mark()


TESTS = [
    Test("refusals", cases, run, 1600, chunk=40,
         rule="programs with up to five statements that must be refused, at any point, also inside sections; each raises, and the "
              "commands, outcomes and final state are those of the program without them; non-trivial = one was made"),
]
