"""P05: the local optimiser never changes what a stream does."""
import random

from hypothesis import strategies as st

from vf import large, ref, stream
from vf.core import Test, Violation
from vf.refbackend import make

ASSUMPTIONS = ["streams of up to 4 qubits (30 with classical and opaque gates); states compared up to one global phase, 1e-6",
               "qubits are measured before they are released"]


def deliver(case, per_flush):
    from projectq import MainEngine
    from projectq.cengines import LocalOptimizer
    be = make()(outcomes=case["bits"])
    eng = MainEngine(be, [LocalOptimizer(case["cache"])], verbose=True)
    ops = case["ops"] + [["f"]]
    done = 0
    for i, x in enumerate(ops):
        tags = [stream.Tag(1000 + i)] if case["unique"] and x[0] != "f" else []
        eng.receive([stream.make_cmd(eng, x, tags)])
        if x[0] == "f":
            done += 1
            per_flush(be, ops[:i + 1], done)
    return be


def outcomes_of(be):
    out = {}
    for _, phys, bit in be.measured:
        out.setdefault(phys, []).append(bit)
    return out


def run_semantics(case, ev):
    st = {"removed": False}

    def at_flush(be, ops, k):
        from projectq.ops import FlushGate
        if be.flushes != k or not isinstance(be.log[-1].gate, FlushGate):
            raise Violation("%d flushes sent, %d arrived (last command %s)" % (k, be.flushes, be.log[-1]))
        src = stream.Source()
        out = outcomes_of(be)
        for x in ops:
            src.step(x, out)
        if src.nmeas != {q: len(v) for q, v in out.items()}:
            raise Violation("measurements sent %s, arrived %s" % (src.nmeas, {q: len(v) for q, v in out.items()}))
        if sorted(be.live) != sorted(src.s.ids):
            raise Violation("after the flush the backend has qubits %s, the program has %s" % (be.live, src.s.ids))
        d = ref.phase_distance(be.state.vector(src.s.ids), src.s.psi)
        if d > 1e-6:
            raise Violation("after flush %d the optimised stream's state is off by %.3g" % (k, d))
        st["removed"] = len(be.log) < len(ops)
    deliver(case, at_flush)
    g = [x for x in case["ops"] if x[0] == "g"]
    ev.label("stream shortened", st["removed"])
    ev.label("negative control", any(v == 0 for x in g for _, v in x[3]))
    ev.label("tagged", any(x[4] for x in g))
    ev.label("id reused", any(x[0] == "dealloc" for x in case["ops"]))
    for x in g:
        ev.label("gate " + x[1][0])
    ev.mark(len(g) >= 3)


def run_unique(case, ev):
    """Every command carries its own annotation, so nothing may merge or cancel: exact pass-through per qubit."""
    def at_flush(be, ops, k):
        got = [c for c in be.log]
        want = {}
        for i, x in enumerate(ops):
            if x[0] != "f":
                want[1000 + i] = x
        seen = {}
        perq = {}
        for c in got:
            u = [t.v for t in c.tags if isinstance(t, stream.Tag) and t.v >= 1000]
            if not u:
                continue
            if len(u) != 1 or u[0] not in want:
                raise Violation("command with annotations %s" % (c.tags,))
            if u[0] in seen:
                raise Violation("command %s delivered twice" % c)
            seen[u[0]] = c
            x = want[u[0]]
            ids = sorted(q.id for r in c.all_qubits for q in r)
            wids = [x[1]] if x[0] != "g" else sorted([q for r in x[2] for q in r] + [q for q, _ in x[3]])
            if ids != wids:
                raise Violation("command %s arrived on qubits %s instead of %s" % (c, ids, wids))
            if x[0] == "g":
                cs = [[q.id, int(v)] for q, v in zip(c.control_qubits, str(c.control_state))]
                if cs != sorted(x[3]):
                    raise Violation("command %s: controls %s became %s" % (c, sorted(x[3]), cs))
                if x[4] and stream.Tag(x[4]) not in c.tags:
                    raise Violation("command %s lost its annotation" % c)
            for q in ids:
                perq.setdefault(q, []).append(u[0])
        for u, x in want.items():
            if u not in seen and not identity(x):
                raise Violation("command %s was lost" % (x,))
        for q, us in perq.items():
            if us != sorted(us):
                raise Violation("commands on qubit %d were reordered: %s" % (q, us))
    deliver(case, at_flush)
    ev.mark(len([x for x in case["ops"] if x[0] == "g"]) >= 3)


def identity(x):
    import numpy as np
    if x[0] != "g":
        return False
    kind = stream.spec.meaning(x[1], [len(r) for r in x[2]])
    return kind[0] == "mat" and np.allclose(kind[1], np.eye(len(kind[1])), atol=1e-9)


@st.composite
def large_cases(draw):
    c = draw(large.cases(30, (20, 300)))
    c["cache"] = draw(st.sampled_from([1, 2, 3, 5, 10, 30, 100, 1000]))
    c["pair"] = draw(st.sampled_from([0, 0.2, 0.5]))
    return c


def run_large(case, ev):
    from projectq.cengines import LocalOptimizer
    r = random.Random(case["seed"] + 1)
    ops = []
    for x in large.program(case):
        ops.append(x)
        if x[0] in ("x", "cx", "sw") and r.random() < case["pair"]:
            # the same gate again, at once or after something elsewhere
            if r.random() < 0.5 and len(ops) > 1:
                y = ops[-2]
                if y[0] in ("x", "cx", "sw", "o"):
                    ops.append(list(y))
            ops.append(list(x))
    be = large.backend()
    large.run(ops, [LocalOptimizer(case["cache"])], be, lambda: None)
    ev.label("shortened", be.count < len(ops))
    ev.label("more than 10 qubits", case["most"] > 10)
    ev.mark(be.two >= 2)


TESTS = [
    Test("semantics", lambda: stream.streams(), run_semantics, 6000,
         rule="command streams over a small palette of gates, their inverses and variants, any cache size, flushes at "
              "any point; state of the optimised stream = state of the source at every flush; non-trivial = 3+ gates"),
    Test("exactly-once", lambda: stream.streams(unique=True), run_unique, 2500,
         rule="every command uniquely annotated: delivered exactly once, unchanged and in order on each qubit; "
              "non-trivial = 3+ gates"),
    Test("large", large_cases, run_large, 500,
         rule="programs of up to 300 operations and more on up to 30 qubits, gates often repeated; every qubit is 64 runs of a classical and "
              "opaque circuit, compared at every flush; non-trivial = two or more two-qubit gates left"),
]
