"""P09: mapping to a rectangular grid."""
from hypothesis import strategies as st

from vf import large, mapping, prog
from vf.core import Test, Violation

ASSUMPTIONS = ["grids of up to 9 sites, at most 7 qubits alive (36 sites with classical and opaque gates); gates on one or two qubits; states up to a global phase, 1e-6"]


@st.composite
def cases(draw, long=False):
    rows, cols = draw(st.sampled_from([(1, 1), (1, 3), (3, 1), (2, 2), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3),
                                       (1, 5), (5, 1), (2, 1), (1, 2)]))
    n = rows * cols
    most = min(n, 7)
    o = prog.Opts(max_q=most, min_q=1 if n < 4 else draw(st.integers(1, most)), stmts=(20, 50) if long else (1, 22), ctl_max=1, width=2, blocks=("loop", "cu"),
                  gates=["X", "H", "T", "SqrtX", "Ry", "Rz", "Ph", "Swap", "SqrtSwap", "Rxx", "Rzz", "Z", "X"], depth=1)
    p = draw(prog.programs(o))
    p["rows"], p["cols"] = rows, cols
    p["ids"] = draw(st.sampled_from([None, None, "perm", "gaps"]))
    if p["ids"]:
        p["ids"] = [x + (5 if p["ids"] == "gaps" else 0) for x in draw(st.permutations(range(n)))]
    p["storage"] = draw(st.sampled_from([1, 2, 3, 4, 6, 10, 1000, 1000]))
    p["steps"] = draw(st.sampled_from([1, 2, 50]))
    return p


@st.composite
def dense_cases(draw):
    rows, cols = draw(st.sampled_from([(1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (2, 1), (3, 4)]))
    n = rows * cols
    p = draw(mapping.dense(n, (5, 35)))
    p.update(rows=rows, cols=cols, storage=draw(st.sampled_from([1, 2, 3, 5, 8, 15, 1000])),
             steps=draw(st.sampled_from([1, 3, 50])))
    p["ids"] = draw(st.sampled_from([None, "perm", "gaps"]))
    if p["ids"]:
        p["ids"] = [x + (5 if p["ids"] == "gaps" else 0) for x in draw(st.permutations(range(n)))]
    return p


def run_case(case, ev):
    from projectq.cengines import GridMapper
    rows, cols, ids = case["rows"], case["cols"], case["ids"]
    n = rows * cols
    kw = {} if ids is None else {"mapped_ids_to_backend_ids": dict(enumerate(ids))}
    m = GridMapper(rows, cols, storage=case["storage"], num_optimization_steps=case["steps"], **kw)
    pos = {(i if ids is None else ids[i]): divmod(i, cols) for i in range(n)}

    def conn(a, b):
        (r0, c0), (r1, c1) = pos[a], pos[b]
        return abs(r0 - r1) + abs(c0 - c1) == 1
    seen = mapping.run(case, [m], m, set(pos), conn, ev)
    ev.label("custom numbering", ids is not None)
    ev.label("small storage", case["storage"] < 20)
    ev.mark(seen["two"] >= 2)


@st.composite
def large_cases(draw):
    rows, cols = draw(st.integers(1, 6)), draw(st.integers(2, 6))
    c = draw(large.cases(rows * cols, (20, 250)))
    big = rows * cols > 12
    if big:
        c["n"] = min(c["n"], 100)
    c.update(rows=rows, cols=cols, storage=draw(st.sampled_from([20, 100, 1000] if big else [3, 20, 100, 1000])),
             steps=draw(st.sampled_from([1, 2] if big else [1, 3, 50])), ids=draw(st.sampled_from([None, "perm", "gaps"])))
    if c["ids"]:
        c["ids"] = [x + (5 if c["ids"] == "gaps" else 0) for x in draw(st.permutations(range(rows * cols)))]
    return c


def run_large(case, ev):
    from projectq.cengines import GridMapper
    rows, cols, ids = case["rows"], case["cols"], case["ids"]
    n = rows * cols
    kw = {} if ids is None else {"mapped_ids_to_backend_ids": dict(enumerate(ids))}
    m = GridMapper(rows, cols, storage=case["storage"], num_optimization_steps=case["steps"], **kw)
    pos = {(i if ids is None else ids[i]): divmod(i, cols) for i in range(n)}

    def hook(cmd, ctrls, on):
        al = ctrls + on
        if any(i not in pos for i in al) or len(set(al)) != len(al) or len(al) > 2:
            raise Violation("%s is no command on these sites" % cmd)
        if len(al) == 2:
            (r0, c0), (r1, c1) = pos[al[0]], pos[al[1]]
            if abs(r0 - r1) + abs(c0 - c1) != 1:
                raise Violation("%s acts on sites which are not neighbours" % cmd)
    be = large.backend(hook)
    large.run(large.program(case), [m], be, lambda: m.current_mapping or {})
    ev.label("more than 9 sites", n > 9)
    ev.mark(be.two >= 2)


TESTS = [
    Test("programs", cases, run_case, 5000,
         rule="programs with allocation, release, reuse, measurement and feedback through GridMapper on grids up to 3x3, "
              "2x4 and lines, any storage size and numbering; non-trivial = two or more two-qubit gates after mapping"),
    Test("dense", dense_cases, run_case, 5000,
         rule="programs dominated by two-qubit gates between arbitrary qubits, with qubit turnover; non-trivial = two "
              "or more two-qubit gates after mapping"),
    Test("long", lambda: cases(True), run_case, 800,
         rule="same with 20-50 statements; non-trivial = two or more two-qubit gates after mapping"),
    Test("large", large_cases, run_large, 160,
         rule="programs of up to 250 operations on grids of up to 6x6; every qubit is 64 runs of a classical and opaque circuit, compared at "
              "every flush; non-trivial = two or more two-qubit gates after mapping"),
]
