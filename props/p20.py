"""P20: the resource counter's numbers are those of the command stream."""
from hypothesis import strategies as st

from vf import stream
from vf.core import Test, Violation
from vf.refbackend import make

ASSUMPTIONS = ["streams of up to 14 qubits and 200 commands, released qubits may come back under the same id",
               "barriers and user-defined classical instructions are left out; gates without equality are only counted by class"]


@st.composite
def cases(draw, wide=False):
    c = draw(stream.streams(maxq=14, length=(50, 150)) if wide else stream.streams(maxq=5, length=(2, 24)))
    c["last"] = True if wide else draw(st.booleans())
    c["chunk"] = draw(st.integers(1, 6))
    c["logical"] = draw(st.booleans())
    # release and allocate again without measuring, more qubits in between
    extra, ops, nxt = [], [], 20 if wide else 10
    for x in c["ops"]:
        ops.append(x)
        k = draw(st.integers(0, 11))
        if k == 0:
            ops.append(["alloc", nxt])
            extra.append(nxt)
            nxt += 1
        elif k == 1 and extra:
            ops.append(["dealloc", extra.pop(draw(st.integers(0, len(extra) - 1)))])
        elif k == 2 and extra:
            ops.append(["g", [draw(st.sampled_from(["X", "Z"]))], [[draw(st.sampled_from(extra))]], [], 0])
    c["ops"] = [x for x in ops if not (x[0] == "g" and x[2] == [[]])]
    # qubits in `extra` must be classical when released: X and Z keep them so
    return c


def run(case, ev):
    from projectq import MainEngine
    from projectq.backends import ResourceCounter
    from projectq.meta import LogicalQubitIDTag
    from projectq.ops import FlushGate, MeasureGate
    from projectq.types import WeakQubitRef
    rc = ResourceCounter()
    be = None
    if case["last"]:
        eng = MainEngine(rc, [], verbose=True)
    else:
        be = make()(outcomes=case["bits"])
        eng = MainEngine(be, [rc], verbose=True)
    sent, batch = [], []
    depth, finished, live, width = {}, 0, 0, 0
    classes, gates = {}, []
    if str(rc) != "(No quantum resources used)" or rc.depth_of_dag or rc.max_width:
        raise Violation("a new counter reports %s" % rc)

    def compare(what):
        want = max([finished] + list(depth.values()))
        if rc.depth_of_dag != want:
            raise Violation("%s: depth %s, should be %d" % (what, rc.depth_of_dag, want))
        if rc.max_width != width:
            raise Violation("%s: width %s, should be %d" % (what, rc.max_width, width))
        if rc.gate_class_counts != classes:
            raise Violation("%s: class counts %s, should be %s" % (what, rc.gate_class_counts, classes))
        if sum(rc.gate_counts.values()) != len(gates):
            raise Violation("%s: %d gates counted, should be %d" % (what, sum(rc.gate_counts.values()), len(gates)))
    try:
        ops = case["ops"] + [["f"]]
        for i, x in enumerate(ops):
            tags = [LogicalQubitIDTag(500 + x[1])] if x[0] == "m" and case["logical"] else []
            cmd = stream.make_cmd(eng, x, tags)
            batch.append(cmd)
            sent.append((cmd, str(cmd)))
            if x[0] == "f":
                pass
            else:
                nc = len(cmd.control_qubits)
                gates.append((cmd.gate, nc, x))
                key = (cmd.gate.__class__, nc)
                classes[key] = classes.get(key, 0) + 1
                if x[0] == "alloc":
                    live += 1
                    depth[x[1]] = 0
                    width = max(width, live)
                elif x[0] == "dealloc":
                    live -= 1
                    finished = max(finished, depth.pop(x[1]))
                else:
                    qs = [x[1]] if x[0] == "m" else [q for r in x[2] for q in r] + [q for q, _ in x[3]]
                    d = 1 + max(depth[q] for q in qs)
                    for q in qs:
                        depth[q] = d
            if len(batch) >= case["chunk"] or i == len(ops) - 1 or x[0] == "f":
                eng.receive(batch)
                batch = []
                compare("after command %d" % i)
        # per gate
        seen = []
        for g, nc, x in gates:
            if x[0] == "g" and x[1][0].endswith("TE") or any(g is h and nc == k for h, k in seen):
                continue
            seen.append((g, nc))
            want = sum(1 for h, k, y in gates if k == nc and not (y[0] == "g" and y[1][0].endswith("TE")) and type(h) is type(g) and h == g)
            fresh = stream.spec.build(x[1]) if x[0] == "g" else g
            got = rc.gate_counts.get((fresh, nc))
            if got != want:
                raise Violation("%s with %d controls is counted %s times, should be %d" % (g, nc, got, want))
        text = str(rc)
        lines = text + "\n"     # names may span several lines
        if "Max. width (number of qubits) : %d." % width not in text:
            raise Violation("the summary does not show the width %d: %s" % (width, text))
        for (cls, nc), k in classes.items():
            if "\n    %s%s : %d\n" % ("C" * nc, cls.__name__, k) not in lines:
                raise Violation("the summary lacks %s with %d controls, %d times:\n%s" % (cls.__name__, nc, k, text))
        for (g, nc), k in rc.gate_counts.items():
            if "\n    %s%s : %d\n" % ("C" * nc, g, k) not in lines:
                raise Violation("the summary lacks %s with %d controls, %d times:\n%s" % (g, nc, k, text))
        if not case["last"]:
            if len(be.log) != len(sent) or any(a is not b for a, (b, _) in zip(be.log, sent)):
                raise Violation("the counter changed the stream: %d commands in, %d out" % (len(sent), len(be.log)))
        for c, s in sent:
            if str(c) != s:
                raise Violation("the counter changed the command %s into %s" % (s, c))
        for c, _ in sent:
            if isinstance(c.gate, MeasureGate):
                q = c.qubits[0][0].id
                lid = 500 + q if case["logical"] else q
                try:
                    r = eng.get_measurement_result(WeakQubitRef(eng, lid))
                except Exception:
                    raise Violation("no result for measured qubit %d" % lid) from None
                if case["last"] and r:
                    raise Violation("the counter measured 1")
        # what it can count
        cmd = [c for c, _ in sent if not isinstance(c.gate, FlushGate)][-1]
        if case["last"] and not rc.is_available(cmd):
            raise Violation("the counter refuses %s" % cmd)
        if not case["last"]:
            for a in (True, False):
                be.available = lambda c, a=a: a
                if rc.is_available(cmd) != a:
                    raise Violation("availability is not that of the next engine")
    finally:
        eng.next_engine.receive = lambda cl: None
    ev.label("last" if case["last"] else "in between")
    ev.label("qubit released and allocated again", any(x[0] == "dealloc" for x in case["ops"]))
    ev.label("depth from a released qubit", finished > max(depth.values(), default=0))
    ev.mark(sum(x[0] == "g" for x in case["ops"]) >= 4)


TESTS = [
    Test("streams", cases, run, 7000,
         rule="command streams (any gates, controls, releases, re-allocation) through the counter as last or middle engine; depth, "
              "width and counts recomputed after every batch; non-trivial = at least four gates"),
    Test("large", lambda: cases(True), run, 250,
         rule="the same with up to 14 qubits (more while some are released and allocated again) and about 150 commands, counter last"),
]
