"""P28: a program gives the same results whatever engine list compiles it."""
from hypothesis import strategies as st

from vf import compile as comp
from vf import large, prog, ref, session
from vf.core import Skip, Test, Violation
from vf.refbackend import make

ASSUMPTIONS = ["up to 4 program qubits (plus helpers; 24 with classical and opaque gates); states compared up to a global phase, 1e-6",
               "every engine list runs the program on its own and is judged by the outcomes it recorded itself"]
GATES = prog.G1 + prog.G1P + prog.G2
RICH = ["mat1", "tec", "ucr", "add", "qft", "ent", "qop", "inv"]
FULL = dict(gates=GATES, max_q=4, stmts=(2, 9), ctl_max=2, rich=RICH, depth=2, spread=True, min_q=2)


@st.composite
def cases(draw):
    p = draw(prog.programs(prog.Opts(**FULL)))
    p["lists"] = [["none"], draw(st.sampled_from([["main", "cpp"], ["main", "ref"]])),
                  draw(comp.targets(("rg", "rg", "ti"))), draw(comp.targets(("linear", "grid")))]
    p["seed"] = draw(st.integers(0, 999))
    p["also"] = draw(st.integers(0, 2))
    return p


def on_reference(case, t):
    from projectq import MainEngine
    avail = None
    if t[0] == "main":
        avail = comp.allowed(comp.ONE["RzRyRxH"], comp.TWO["CNOT"], ())
    be = make()(outcomes=case["bits"], available=avail, loose_dealloc=False)
    if t[0] == "none":
        eng = MainEngine(be, [], verbose=True)
    elif t[0] == "main":
        eng = MainEngine(be, verbose=True)
    else:
        eng = MainEngine(be, comp.target(t).engines, verbose=True)
    r = prog.Runner(eng, case)
    try:
        r.run()
        want = r.reference()
        mp = eng.mapper.current_mapping if eng.mapper is not None else None
        ids = [r.ids[n] if mp is None else mp[r.ids[n]] for n in want.ids]
        if len(set(ids)) != len(ids):
            raise Violation("%s: two live qubits share a location: %s" % (t, ids))
        if sorted(be.state.ids) != sorted(ids):
            raise Violation("%s: live qubits at the backend %s, expected %s" % (t, be.state.ids, ids))
        d = ref.phase_distance(be.state.vector(ids), want.psi)
        if d > 1e-6:
            raise Violation("%s: the final state is off by %.3g" % (t, d))
    finally:
        be.one = lambda cmd: None
        r.env = {}
    return len(be.log)


def on_simulator(case, t):
    """The engine list everyone starts with: MainEngine() and its simulator."""
    import random
    from projectq import MainEngine
    from projectq.backends import Simulator
    random.seed(case["seed"])
    sim = Simulator(rnd_seed=case["seed"])
    eng = MainEngine(sim, verbose=True) if t[0] == "main" else MainEngine(sim, comp.target(session.for_simulator(t)).engines, verbose=True)
    r = prog.Runner(eng, case)
    try:
        r.run()
        want = r.reference()
        mp, wf = sim.cheat()
        at = eng.mapper.current_mapping if eng.mapper is not None else {i: i for i in r.ids.values()}
        ids = [at[r.ids[n]] for n in want.ids]
        if sorted(mp) != sorted(ids):
            raise Violation("%s: the simulator knows %s, live are %s" % (t, mp, ids))
        import numpy as np
        got = ref.reorder(np.array(wf), sorted(mp, key=lambda i: mp[i]), ids)
        d = ref.phase_distance(got, want.psi)
        if d > 1e-6:
            raise Violation("%s: the final state is off by %.3g" % (t, d))
    finally:
        eng.next_engine.receive = lambda cl: None
        sim.receive = lambda cl: None
        r.env = {}
    return r


def run(case, ev):
    sizes = []
    lists = case["lists"]
    if "AddConstant" in str(case["body"]):
        lists = [t for t in lists if t != ["main", "ref"]]     # the default rules leave arithmetic to the simulator
    for t in lists:
        if t == ["main", "cpp"]:
            r = on_simulator(case, t)
            if case.get("also"):
                # the compiled program on the simulator itself
                on_simulator(case, lists[1 + case["also"]])
                ev.label("compiled for the simulator")
            ev.label("feedback taken", "feedback taken" in r.labels)
        else:
            sizes.append(on_reference(case, t))
        ev.label("list " + t[0])
    if not sizes:
        raise Skip("nothing to run")
    ev.label("measured", any(x[0] in ("m", "md") for x in case["body"]))
    ev.mark(max(sizes) - min(sizes) >= 3)


@st.composite
def large_cases(draw):
    c = draw(large.cases(24, (20, 160)))
    c["list"] = draw(st.sampled_from(["none", "default", "rg", "rg", "linear", "linear", "grid", "grid"]))
    c["cyclic"] = draw(st.booleans())
    c["rows"] = draw(st.integers(1, 5))
    c["swap"] = draw(st.booleans())
    return c


def run_large(case, ev):
    from projectq import MainEngine
    from projectq.ops import CNOT, ClassicalInstructionGate, Swap
    from projectq.setups import default, grid, linear, restrictedgateset
    two = (CNOT, Swap) if case["swap"] or case["list"] in ("linear", "grid") else (CNOT,)
    n, kind = case["most"], case["list"]
    size = n
    if kind == "none":
        engines = []
    elif kind == "default":
        engines = default.get_engine_list()
    elif kind == "rg":
        engines = restrictedgateset.get_engine_list(one_qubit_gates="any", two_qubit_gates=two)
    elif kind == "linear":
        engines = linear.get_engine_list(num_qubits=n, cyclic=case["cyclic"], one_qubit_gates="any", two_qubit_gates=two)
    else:
        cols = -(-n // case["rows"])
        size = cols * case["rows"]
        engines = grid.get_engine_list(num_rows=case["rows"], num_columns=cols, one_qubit_gates="any", two_qubit_gates=two)

    def linked(a, b):
        if kind == "linear":
            return abs(a - b) == 1 or case["cyclic"] and abs(a - b) == n - 1
        return kind != "grid" or sum(abs(x - y) for x, y in zip(divmod(a, cols), divmod(b, cols))) == 1

    def hook(cmd, ctrls, ids):
        al = ctrls + ids
        if len(set(al)) != len(al) or kind in ("linear", "grid") and any(not 0 <= i < size for i in al):
            raise Violation("%s is no command on %d sites" % (cmd, size))
        if isinstance(cmd.gate, ClassicalInstructionGate) or kind == "none":
            return
        if not be.accept(cmd):
            raise Violation("%s is not of the requested gate set" % cmd)
        if len(al) == 2 and not linked(*al):
            raise Violation("%s acts on sites which are not connected" % cmd)

    def accept(cmd):
        from projectq.ops import SwapGate, XGate
        if isinstance(cmd.gate, ClassicalInstructionGate) or kind == "none":
            return True
        if "0" in str(cmd.control_state):
            return False
        if isinstance(cmd.gate, SwapGate):
            return Swap in two and not cmd.control_qubits
        return isinstance(cmd.gate, XGate) and len(cmd.control_qubits) < 2 or hasattr(cmd.gate, "k")
    be = large.backend(hook)
    be.accept = accept
    eng = MainEngine(be, engines, verbose=True)
    large.run(large.program(case), engines, be, (lambda: eng.mapper.current_mapping or {}) if eng.mapper else lambda: None, eng=eng)
    ev.label("list " + kind)
    ev.label("more than 10 qubits", n > 10)
    ev.mark(be.two >= 2)


TESTS = [
    Test("lists", cases, run, 900, chunk=30,
         rule="one program (nested sections, helpers, measurement, feedback, release, high-level and arithmetic gates) run "
              "without compilation, with the default engine list, a restricted gate set and a linear or grid layout; "
              "recorded outcomes and final state consistent with the program each time; non-trivial = the lists emit "
              "command counts differing by 3 or more"),
    Test("large", large_cases, run_large, 240,
         rule="programs of up to 160 operations on up to 24 qubits through the default, gate-set, linear and grid setups; every qubit is 64 "
              "runs of a classical and opaque circuit, compared at every flush; non-trivial = two or more two-qubit gates"),
]
