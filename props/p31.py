"""P31: histograms show exactly the outcome probabilities the backend has for the qubits asked for."""
import contextlib
import io
import random

import numpy as np
from hypothesis import strategies as st

from props import p24
from vf import cloud, ref, spec
from vf.core import Test, Violation

ASSUMPTIONS = ["registers up to 7 qubits; bars read back from the matplotlib axes; probabilities compared to 1e-9 (simulator) and 1e-6 "
               "(services, stand-ins answer with a given histogram)"]


def group(r, items):
    """The same qubits in order, some of them gathered in registers."""
    out, i = [], 0
    while i < len(items):
        k = r.choice([0, 0, 1, 2, 3])
        if k == 0:
            out.append(items[i])
            i += 1
        else:
            out.append(list(items[i:i + k]))
            i += k
    return out


def look(be, qubits, r, what):
    """Call histogram() on a grouping of the qubits; the probabilities it returns and the ones it draws."""
    import matplotlib.pyplot as plt
    from projectq.libs.hist import histogram
    from projectq.types import Qureg
    arg = [Qureg(x) if isinstance(x, list) and r.random() < 0.7 else x for x in group(r, qubits)]
    if len(qubits) > 1 and r.random() < 0.2:
        arg = Qureg(qubits)
    before = str(arg)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        fig, axes, probs = histogram(be, arg)
    try:
        if str(arg) != before:
            raise Violation("%s: the argument was changed" % what)
        fig.canvas.draw()
        names = [t.get_text() for t in axes.get_xticklabels()]
        bars = [(p.get_x() + p.get_width() / 2, p.get_height()) for p in axes.patches]
        ticks = list(axes.get_xticks())
        drawn = {}
        for x, h in bars:
            i = [k for k, t in enumerate(ticks) if abs(t - x) < 1e-9]
            if len(i) != 1 or names[i[0]] in drawn:
                raise Violation("%s: a bar at %s without a name of its own (%s)" % (what, x, names))
            drawn[names[i[0]]] = float(h)
        if fig is not axes.figure:
            raise Violation("%s: the axes belong to another figure" % what)
    finally:
        plt.close(fig)
    if ("Warning" in out.getvalue()) != (len(qubits) > 5):
        raise Violation("%s: %d qubits, printed %r" % (what, len(qubits), out.getvalue()[:60]))
    return probs, drawn, arg


def compare(what, got, want, tol):
    for k in set(got) | set(want):
        if abs(got.get(k, 0.0) - want.get(k, 0.0)) > tol:
            raise Violation("%s: outcome %r has %.6g, expected %.6g (%s)" % (what, k, got.get(k, 0.0), want.get(k, 0.0), dict(got)))


# ------------------------------------------------------------------ simulator
@st.composite
def sim_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6, 7]))
    perm = list(draw(st.permutations(range(n))))
    return {"n": n, "state": [draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(["full", "full", "sparse", "basis", "faint"]))],
            "pick": perm[:draw(st.integers(1, n))], "mapper": draw(st.sampled_from([None, "rev", "rev", "far"])),
            "seed": draw(st.integers(0, 10 ** 6)), "twice": draw(st.booleans())}


def run_sim(case, ev):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import ManualMapper
    from projectq.ops import X
    r = random.Random(case["seed"])
    n = case["n"]
    sim = Simulator(rnd_seed=1)
    m = {None: [], "rev": [ManualMapper(lambda i: n - 1 - i)], "far": [ManualMapper(lambda i: 2 * i + 3)]}[case["mapper"]]
    eng = MainEngine(sim, m, verbose=True)
    q = list(eng.allocate_qureg(n))
    try:
        eng.flush()
        v = spec.random_state(case["state"][0], n, case["state"][1])
        sim.set_wavefunction([complex(x) for x in v], q)
        s = ref.RefState()
        s.ids, s.psi = list(range(n)), np.array(v)
        for turn in range(1 + case["twice"]):
            want = {}
            w = np.abs(s.vector(list(range(n)))) ** 2
            for x in range(1 << n):
                k = "".join(str(x >> i & 1) for i in case["pick"])
                want[k] = want.get(k, 0.0) + float(w[x])
            probs, drawn, arg = look(sim, [q[i] for i in case["pick"]], r, "simulator")
            del arg
            if sorted(probs) != sorted(want):
                raise Violation("outcomes %s, expected %s" % (sorted(probs), sorted(want)))
            compare("returned", probs, want, 1e-9)
            compare("drawn", drawn, want, 1e-9)
            if turn == 0 and case["twice"]:
                # later gates show up in later histograms
                X | q[case["pick"][0]]
                eng.flush()
                s.apply(ref.FIXED["X"], [case["pick"][0]], [], [])
    finally:
        eng.next_engine.receive = sim.receive = lambda cl: None
        del q
    ev.label("mapped", case["mapper"] is not None)
    ev.label("more than 5 qubits", len(case["pick"]) > 5)
    ev.mark(len(case["pick"]) >= 2 and case["state"][1] != "basis")


# ------------------------------------------------------------------ services
@st.composite
def svc_cases(draw):
    c = draw(p24.cases())
    c["mode"] = "run"
    c["jobs"] = c["jobs"][:1]
    c["order"] = draw(st.integers(0, 10 ** 6))
    return c


def run_svc(case, ev):
    name = case["svc"].partition(":")[0]
    svc = cloud.SERVICES[name]()
    places, what, job = case["places"], case["svc"], case["jobs"][0]
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    r = random.Random(case["order"])
    hist = {}
    with svc.installed():
        be, eng = p24.session(case, svc, case["runs"])
        try:
            qs = [eng.allocate_qubit() for _ in places]

            def answer(j):
                hist.update(p24.hist_of(job["h"], j.nq, j.shots))
                return hist
            svc.hist = answer
            p24.program(case, job, eng, qs)
            eng.flush()
            for _ in range(2):
                pick = [i for i in job["m"] if r.random() < 0.8] or job["m"][:1]
                r.shuffle(pick)
                want = {k: v for k, v in p24.marginal(hist, [places[i] for i in pick]).items() if v}
                probs, drawn, arg = look(be, [qs[i][0] for i in pick], r, what)
                del arg
                compare(what + " returned", probs, want, 1e-6)
                compare(what + " drawn", drawn, want, 1e-6)
        finally:
            p24.stop(be, eng)
    ev.label(case["svc"])
    ev.mark(len([v for v in hist.values() if v]) > 1 and len(job["m"]) > 1)


# ------------------------------------------------------------------ others
@st.composite
def other_cases(draw):
    return {"be": draw(st.sampled_from(["counter", "classical", "printer", "unitary", "drawer", "dummy"])), "n": draw(st.integers(1, 3))}


def run_other(case, ev):
    import matplotlib.pyplot as plt
    from projectq import MainEngine
    from projectq.backends import CircuitDrawer, ClassicalSimulator, CommandPrinter, ResourceCounter, UnitarySimulator
    from projectq.cengines import DummyEngine
    from projectq.libs.hist import histogram
    be = {"counter": ResourceCounter, "classical": ClassicalSimulator, "printer": lambda: CommandPrinter(accept_input=False),
          "unitary": UnitarySimulator, "drawer": CircuitDrawer, "dummy": DummyEngine}[case["be"]]()
    with contextlib.redirect_stdout(io.StringIO()):
        eng = MainEngine(be, [], verbose=True)
        q = eng.allocate_qureg(case["n"])
        eng.flush()
        try:
            histogram(be, q)
            raise Violation("a histogram for %s, which has no probabilities" % case["be"])
        except RuntimeError:
            pass
        finally:
            plt.close("all")
            eng.flush()
            eng.next_engine.receive = be.receive = lambda cl: None
            del q
    ev.mark(True)


TESTS = [
    Test("simulator", sim_cases, run_sim, 400, chunk=25,
         rule="a random state behind an optional mapper; histogram() of qubits in generated order and grouping: returned and "
              "drawn probabilities are the state's; non-trivial = 2 or more qubits, not a basis state"),
    Test("services", svc_cases, run_svc, 500, chunk=25,
         rule="a job answered with a generated histogram: histogram() of measured qubits in generated order and grouping "
              "shows its marginals; non-trivial = several outcomes and qubits"),
    Test("others", other_cases, run_other, 30, rule="backends without probabilities are refused"),
]
