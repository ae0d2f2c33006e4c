"""P26: RevKit oracles realise their specification."""
import random
import sys
import types
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from vf import revstub
from vf.core import Test, Violation

ASSUMPTIONS = ["RevKit is not installed: a stand-in module synthesises the circuits (transformation based, two-level swaps, "
               "minterm and fixed-polarity expansions) and writes the ProjectQ code",
               "RevKit reads a hexadecimal table of d digits as a function of log2(4d) variables, so functions of at least two variables"]



@st.composite
def oracles(draw, width):
    kind = draw(st.sampled_from(["perm", "perm", "cf", "cf", "phase", "phase"]))
    if kind == "perm":
        q = draw(st.integers(1, min(4, width)))
        d = {"perm": list(draw(st.permutations(range(1 << q))))}
        synth = draw(st.sampled_from([None, "tbs", "dbs", "lambda-tbs", "lambda-dbs"]))
        lines = q
    else:
        n = draw(st.integers(2, min(4, width - 1) if kind == "cf" else min(4, width)))
        top = (1 << (1 << n)) - 1
        f = draw(st.one_of(st.integers(0, top), st.integers(0, min(top, 255)), st.sampled_from([0, top, 1 << ((1 << n) - 1), top - 1])))
        if kind == "phase":
            f &= ~1
        d = {"f": f, "n": n, "python": draw(st.sampled_from([False, False, False, True]))}
        synth = draw(st.sampled_from([None, "own", "lambda"]))
        lines = n + 1 if kind == "cf" else n
    rest = list(draw(st.permutations(range(width))))
    d.update(kind=kind, synth=synth, qubits=rest[:lines], how=draw(st.sampled_from(["qureg", "tuple", "parts", "pair", "singles"])),
             cut=draw(st.integers(0, lines)), again=draw(st.sampled_from([False, False, True])))
    others = rest[lines:]
    nc = draw(st.integers(0, min(2, len(others))))
    d["ctl"] = [[c, draw(st.integers(0, 1))] for c in others[:nc]]
    d["inside"] = draw(st.sampled_from([None, None, None, "dagger", "compute"]))
    return d


@st.composite
def cases(draw):
    width = draw(st.integers(3, 6))
    return {"width": width, "oracles": draw(st.lists(oracles(width), min_size=1, max_size=3)), "seed": draw(st.integers(0, 9999)),
            "style": draw(st.sampled_from(["list", "all", "nested"]))}


class Stubs:
    def __init__(self, rng, style):
        self.rk = revstub.make(rng, style)
        self.dm = types.ModuleType("dormouse")

        def to_truth_table(f):
            n = f.__code__.co_argcount
            return sum(bool(f(*(bool(i >> k & 1) for k in range(n)))) << i for i in range(1 << n))
        self.dm.to_truth_table = to_truth_table

    def __enter__(self):
        self.p = mock.patch.dict(sys.modules, {"revkit": self.rk, "dormouse": self.dm})
        self.p.start()
        return self

    def __exit__(self, *a):
        self.p.stop()


def as_python(f, n):
    names = ", ".join("a%d" % k for k in range(n))
    ns = {"F": f}
    exec("def fun(%s): return bool(F >> (%s) & 1)" % (names, " + ".join("(a%d << %d)" % (k, k) for k in range(n))), ns)  # noqa: S102
    return ns["fun"]


def synth_of(rk, o):
    own = {"perm": "tbs", "cf": "esopbs", "phase": "esopps"}[o["kind"]]
    s = o["synth"]
    if s is None:
        return {}
    if s == "own":
        return {"synth": getattr(rk, own)}
    name = own if s == "lambda" else s.replace("lambda-", "")
    if s.startswith("lambda"):
        return {"synth": lambda: (getattr(rk, name)(), None)[1]}
    return {"synth": getattr(rk, name)}


def make(rk, o):
    from projectq.libs.revkit import ControlFunctionOracle, PermutationOracle, PhaseOracle
    kw = synth_of(rk, o)
    if o["kind"] == "perm":
        return PermutationOracle(o["perm"], **kw)
    f = as_python(o["f"], o["n"]) if o["python"] else o["f"]
    return (ControlFunctionOracle if o["kind"] == "cf" else PhaseOracle)(f, **kw)


def passed(o, qs):
    from projectq.types import Qureg
    q = [qs[i] for i in o["qubits"]]
    how = o["how"]
    if how == "tuple":
        return tuple(q)
    if how == "singles":
        return tuple(Qureg([x]) for x in q)
    if how == "parts" and 0 < o["cut"] < len(q):
        return Qureg(q[:o["cut"]]), Qureg(q[o["cut"]:])
    if how == "pair" and len(q) > 1:
        return q[:-1], q[-1]
    return Qureg(q)


def effect(o, psi, width):
    """The specified operation on the state (index bit i = qubit i)."""
    out = np.zeros_like(psi)
    for x in range(len(psi)):
        y, amp = x, psi[x]
        if all(x >> c & 1 == v for c, v in o["ctl"]):
            val = sum((x >> q & 1) << k for k, q in enumerate(o["qubits"]))
            if o["kind"] == "perm":
                p = o["perm"]
                if o["inside"] == "dagger":
                    new = p.index(val)
                else:
                    new = p[val]
                y = x
                for k, q in enumerate(o["qubits"]):
                    y = y & ~(1 << q) | (new >> k & 1) << q
            elif o["kind"] == "cf":
                t = o["qubits"][-1]
                if o["f"] >> (val & (1 << o["n"]) - 1) & 1:
                    y = x ^ 1 << t
            elif o["f"] >> val & 1:
                amp = -amp
        out[y] += amp
    return out


def apply(eng, o, oracle, qs):
    import contextlib
    from projectq.meta import Compute, Control, Dagger, Uncompute
    with contextlib.ExitStack() as st_:
        if o["ctl"]:
            st_.enter_context(Control(eng, [qs[c] for c, _ in o["ctl"]], ctrl_state="".join(str(v) for _, v in o["ctl"])))
        if o["inside"] == "dagger":
            st_.enter_context(Dagger(eng))
        if o["inside"] == "compute":
            with Compute(eng):
                oracle | passed(o, qs)
            Uncompute(eng)
            oracle | passed(o, qs)
        else:
            oracle | passed(o, qs)


def run(case, ev):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    from projectq.ops import All, Measure
    from projectq.setups import decompositions
    width = case["width"]
    rng = random.Random(case["seed"])
    g = np.random.default_rng(case["seed"])
    psi = g.normal(size=1 << width) + 1j * g.normal(size=1 << width)
    psi /= np.linalg.norm(psi)
    with Stubs(rng, case["style"]) as s:
        eng = MainEngine(Simulator(), [AutoReplacer(DecompositionRuleSet(modules=[decompositions]))])
        try:
            qs = eng.allocate_qureg(width)
            eng.flush()
            eng.backend.set_wavefunction(psi, qs)
            for o in case["oracles"]:
                oracle = make(s.rk, o)
                for _ in range(2 if o["again"] else 1):
                    apply(eng, o, oracle, qs)
                    psi = effect(o, psi, width)
                    eng.flush()
                    m, v = eng.backend.cheat()
                    got = np.zeros(1 << width, dtype=complex)
                    for x in range(1 << width):
                        y = sum((x >> i & 1) << m[q.id] for i, q in enumerate(qs))
                        got[x] = v[y]
                    if np.abs(got - psi).max() > 1e-9:
                        raise Violation("oracle %s does something else (largest amplitude error %.3g)" % (o, np.abs(got - psi).max()))
                ev.label(o["kind"])
                ev.label("controlled", bool(o["ctl"]))
                ev.label("from a Python function", o.get("python", False))
                ev.label("other synthesis command", o["synth"] is not None)
                ev.label("inverted" if o["inside"] == "dagger" else "in a compute section", o["inside"] is not None)
            ev.mark(any(o["kind"] == "perm" and o["perm"] != sorted(o["perm"]) or o.get("f") for o in case["oracles"]))
            All(Measure) | qs
            eng.flush()
        finally:
            eng.is_measured = lambda *_: True
            eng.backend.receive = lambda cl: None
            eng.active_qubits.clear()


# ------------------------------------------------------------------------------------------ refusals

@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(["perm-invalid", "perm-invalid", "perm-size", "cf-large", "phase-large", "negative", "lines"]))
    c = {"kind": kind, "seed": draw(st.integers(0, 99))}
    if kind == "perm-invalid":
        n = draw(st.integers(1, 9))
        p = draw(st.lists(st.integers(-1, n), min_size=n, max_size=n))
        how = draw(st.sampled_from(["any", "shift", "dup", "gap"]))
        if how == "shift":
            p = [x + 1 for x in draw(st.permutations(range(n)))]
        elif how == "dup" and n > 1:
            p = list(draw(st.permutations(range(n))))
            i, j = draw(st.sampled_from([(i, j) for i in range(n) for j in range(n) if i != j]))
            p[i] = p[j]
        elif how == "gap":
            p = list(draw(st.permutations(range(n))))
            p[draw(st.integers(0, n - 1))] = n + draw(st.integers(0, 2))
        c["perm"] = p
        c["q"] = draw(st.integers(1, 3))
    elif kind == "perm-size":
        c["q"] = draw(st.integers(1, 4))
        c["perm"] = list(draw(st.permutations(range(draw(st.sampled_from([k for k in (1, 2, 3, 4, 5, 6, 8, 15, 16, 17) if k != 1 << c["q"]]))))))
    elif kind in ("cf-large", "phase-large"):
        c["n"] = draw(st.integers(2, 4))
        c["f"] = (1 << (1 << c["n"])) + draw(st.one_of(st.just(0), st.integers(0, 1 << 20)))
    elif kind == "negative":
        c["n"] = draw(st.integers(2, 3))
        c["f"] = -draw(st.integers(1, 1 << 9))
        c["cls"] = draw(st.sampled_from(["cf", "phase"]))
    else:
        c["n"] = draw(st.integers(2, 4))
        c["f"] = draw(st.integers(0, (1 << (1 << c["n"])) - 1)) & ~1
        c["cls"] = draw(st.sampled_from(["cf", "phase"]))
    return c


def run_bad(case, ev):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import DummyEngine
    from projectq.libs.revkit import ControlFunctionOracle, PermutationOracle, PhaseOracle
    k = case["kind"]
    if k == "perm-invalid" and sorted(case["perm"]) == list(range(len(case["perm"]))):
        return
    with Stubs(random.Random(case["seed"]), "list") as s:
        rec = DummyEngine(save_commands=True)
        eng = MainEngine(Simulator(), [rec])
        try:
            err = AttributeError
            if k.startswith("perm"):
                n, make_ = case["q"], lambda: PermutationOracle(case["perm"])
            elif k == "lines":
                cf = case["cls"] == "cf"
                n = case["n"] + cf
                wrong = s.rk.esopps if cf else s.rk.esopbs
                err = RuntimeError
                make_ = lambda: (ControlFunctionOracle if cf else PhaseOracle)(case["f"], synth=wrong)  # noqa: E731
            else:
                cf = k == "cf-large" or case.get("cls") == "cf"
                n = case["n"] + cf
                make_ = lambda: (ControlFunctionOracle if cf else PhaseOracle)(case["f"])  # noqa: E731
            qs = eng.allocate_qureg(n)
            before = len(rec.received_commands)
            try:
                make_() | qs
            except err:
                pass
            except revstub.RevError as e:
                raise Violation("%s: handed to the synthesis instead of being rejected (%s)" % (case, e)) from e
            else:
                raise Violation("%s is accepted" % case)
            if len(rec.received_commands) != before:
                raise Violation("%s: gates were applied although it is rejected" % case)
            ev.label(k)
            ev.mark()
        finally:
            eng.backend.receive = lambda cl: None
            eng.next_engine.receive = lambda cl: None
            eng.active_qubits.clear()


def small():
    """Every permutation of 1 and 2 qubits and every function of 2 variables, in order and reversed."""
    import itertools
    out = []
    base = {"synth": None, "how": "qureg", "cut": 0, "again": False, "ctl": [], "inside": None}
    for q in (1, 2):
        for p in itertools.permutations(range(1 << q)):
            out.append(dict(base, kind="perm", perm=list(p), qubits=list(range(q))[::-1]))
    for f in range(16):
        out.append(dict(base, kind="cf", f=f, n=2, python=False, qubits=[2, 0, 1]))
        if not f & 1:
            out.append(dict(base, kind="phase", f=f, n=2, python=False, qubits=[2, 1]))
    return [{"width": 3, "oracles": [o], "seed": i, "style": "list"} for i, o in enumerate(out)]


TESTS = [
    Test("oracles", cases, run, quick=2400, fixed=small, rule="a permutation other than the identity or a function other than zero"),
    Test("refusals", bad_cases, run_bad, quick=600, rule="an invalid specification"),
]
