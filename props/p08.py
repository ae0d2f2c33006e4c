"""P08: mapping to a linear chain or ring."""
from hypothesis import strategies as st

from vf import large, mapping, prog
from vf.core import Test, Violation

ASSUMPTIONS = ["up to 7 sites (45 with classical and opaque gates); gates on one or two qubits (controls included); states compared up to a global phase, 1e-6"]


@st.composite
def cases(draw, long=False):
    n = draw(st.integers(1, 6 if long else 7))
    o = prog.Opts(max_q=n, min_q=1 if n < 4 else draw(st.integers(1, n)), stmts=(20, 60) if long else (1, 22), ctl_max=1, width=2, blocks=("loop", "cu"),
                  gates=["X", "H", "T", "SqrtX", "Ry", "Rz", "Ph", "Swap", "SqrtSwap", "Rxx", "Rzz", "Z", "X"], depth=1)
    p = draw(prog.programs(o))
    p["sites"] = n
    p["cyclic"] = draw(st.booleans())
    p["storage"] = draw(st.sampled_from([1, 2, 3, 4, 6, 10, 1000, 1000]))
    p["opt"] = draw(st.booleans())
    return p


@st.composite
def dense_cases(draw):
    n = draw(st.integers(2, 7))
    p = draw(mapping.dense(n))
    p.update(sites=n, cyclic=draw(st.booleans()), storage=draw(st.sampled_from([1, 2, 3, 5, 8, 15, 1000])), opt=False)
    return p


def run_case(case, ev):
    from projectq.cengines import LinearMapper, LocalOptimizer
    n = case["sites"]
    m = LinearMapper(n, case["cyclic"], case["storage"])

    def conn(a, b):
        return abs(a - b) == 1 or (case["cyclic"] and abs(a - b) == n - 1)
    seen = mapping.run(case, [m] + ([LocalOptimizer(5)] if case["opt"] else []), m, set(range(n)), conn, ev)
    ev.label("ring", case["cyclic"])
    ev.label("small storage", case["storage"] < 20)
    ev.mark(seen["two"] >= 2)


@st.composite
def large_cases(draw):
    c = draw(large.cases(40))
    c.update(sites=c["most"] + draw(st.sampled_from([0, 0, 1, 5])), cyclic=draw(st.booleans()), storage=draw(st.sampled_from([3, 20, 100, 1000])))
    if draw(st.integers(0, 9)) == 0:
        c["n"] = draw(st.integers(1000, 2500))
    return c


def run_large(case, ev):
    from projectq.cengines import LinearMapper
    n = case["sites"]

    def hook(cmd, ctrls, ids):
        al = ctrls + ids
        if any(not 0 <= i < n for i in al) or len(set(al)) != len(al) or len(al) > 2:
            raise Violation("%s is no command on %d sites" % (cmd, n))
        if len(al) == 2 and abs(al[0] - al[1]) != 1 and not (case["cyclic"] and abs(al[0] - al[1]) == n - 1):
            raise Violation("%s acts on sites which are not neighbours" % cmd)
    m = LinearMapper(n, case["cyclic"], case["storage"])
    be = large.backend(hook)
    large.run(large.program(case), [m], be, lambda: m.current_mapping or {})
    ev.label("more than 10 sites", n > 10)
    ev.label("more than 1000 operations", case["n"] > 1000)
    ev.mark(be.two >= 2)


TESTS = [
    Test("programs", cases, run_case, 6000,
         rule="programs with allocation, release, reuse, measurement and feedback through LinearMapper on a chain or "
              "ring with any storage size; non-trivial = two or more two-qubit gates after mapping"),
    Test("dense", dense_cases, run_case, 5000,
         rule="programs dominated by two-qubit gates between arbitrary qubits, with qubit turnover; non-trivial = two "
              "or more two-qubit gates after mapping"),
    Test("long", lambda: cases(True), run_case, 1000,
         rule="same with 20-60 statements; non-trivial = two or more two-qubit gates after mapping"),
    Test("large", large_cases, run_large, 300,
         rule="programs of up to 2500 operations on chains and rings of up to 45 sites; every qubit is 64 runs of a classical and opaque "
              "circuit, compared at every flush; non-trivial = two or more two-qubit gates after mapping"),
]
