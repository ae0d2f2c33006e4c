"""P12: reversed, repeated and compute/uncompute sections."""
import numpy as np
from hypothesis import strategies as st

from vf import large, prog, ref, tree
from vf.core import Skip, Test, Violation
from vf.denote import Choi
from vf.refbackend import make

ASSUMPTIONS = ["matrices and states compared to 1e-6; up to 4 qubits and three levels of nesting (40 and seven with classical gates)",
               "no qubit is allocated inside a section that fails before releasing it"]
KINDS = ("dag", "dag", "loop", "loop", "cu", "cu", "ctl")


@st.composite
def tree_cases(draw):
    n = draw(st.integers(1, 4))
    t = draw(tree.trees(list(range(n)), 3, KINDS, (1, 3)))
    return {"n": n, "tree": t}


def run_tree(case, ev):
    if tree.size(case["tree"]) > 80:
        raise Skip("too long")
    c = Choi([case["n"]])
    q = list(c.regs[0])
    tree.run(c.eng, case["tree"], q)
    del q
    got = c.matrix()
    want = tree.matrix(case["tree"], case["n"])
    c.close()
    d = float(np.max(np.abs(got - want)))
    if d > 1e-6:
        raise Violation("the sections act as a matrix off by %.3g" % d)
    k = tree.kinds_in(case["tree"])
    for x in k:
        ev.label("has " + x)
    ev.mark(bool(k & {"dag", "loop", "cu"}))


# ------------------------------------------------------------------ programs with helper qubits
def prog_cases():
    return prog.programs(prog.Opts(max_q=4, stmts=(1, 6), measure=False, feedback=False, delete=False, alloc=False,
                                   flush=True, blocks=("dag", "loop", "cu", "ctl"), depth=3, min_q=1, spread=True))


def run_prog(case, ev, eng=None, be=None):
    from projectq import MainEngine
    if be is None:
        be = make()()
        eng = MainEngine(be, [], verbose=True)
    r = prog.Runner(eng, case)
    allocs = {"n": [], "open": set()}

    def hook(cmd):
        from projectq.ops import AllocateQubitGate, DeallocateQubitGate
        if isinstance(cmd.gate, AllocateQubitGate):
            i = cmd.qubits[0][0].id
            if i in allocs["n"]:
                raise Violation("qubit id %d was allocated a second time" % i)
            allocs["n"].append(i)
            allocs["open"].add(i)
        elif isinstance(cmd.gate, DeallocateQubitGate):
            allocs["open"].discard(cmd.qubits[0][0].id)
    be.hook = hook
    r.run()
    want = r.reference()
    names = list(want.ids)
    ids = [r.ids[n] for n in names]
    if sorted(be.state.ids) != sorted(ids):
        raise Violation("live qubits %s, expected %s" % (be.state.ids, ids))
    d = float(np.max(np.abs(be.state.vector(ids) - want.psi)))
    if d > 1e-6:
        raise Violation("final state is off by %.3g" % d)
    act = sorted(q.id for q in eng.active_qubits if q.id != -1)
    if act != sorted(ids):
        raise Violation("the engine still counts %s as active, live are %s" % (act, ids))
    text = str(case["body"])
    for k in ("dag", "loop", "cu", "cua", "anc"):
        ev.label("has " + k, "'%s'" % k in text)
    ev.mark(any("'%s'" % k in text for k in ("dag", "loop", "cu", "cua")))
    be.one = lambda cmd: None


# ------------------------------------------------------------------ a backend that repeats loops itself
def expand(cmds):
    """Unroll commands carrying loop tags (outermost tag last)."""
    from projectq.meta import LoopTag
    out, i = [], 0
    while i < len(cmds):
        cmd, tags = cmds[i]
        if not tags:
            out.append(cmd)
            i += 1
            continue
        t = tags[-1]
        j = i
        body = []
        while j < len(cmds) and cmds[j][1] and cmds[j][1][-1].id == t.id:
            body.append((cmds[j][0], cmds[j][1][:-1]))
            j += 1
        for _ in range(t.num):
            out += expand(body)
        i = j
    del LoopTag
    return out


def run_tagged(case, ev):
    from projectq.meta import LoopTag
    if tree.size(case["tree"]) > 80:
        raise Skip("too long")
    c = Choi([case["n"]])
    be = c.be
    be.is_meta_tag_handler = lambda tag: tag is LoopTag
    pending = []
    real = be.one
    be.one = lambda cmd: pending.append((cmd, [t for t in cmd.tags if isinstance(t, LoopTag)]))
    q = list(c.regs[0])
    tree.run(c.eng, case["tree"], q)
    del q
    c.eng.flush()
    be.one = real
    for cmd in expand(pending):
        be.one(cmd)
    got = c.matrix()
    want = tree.matrix(case["tree"], case["n"])
    c.close()
    d = float(np.max(np.abs(got - want)))
    if d > 1e-6:
        raise Violation("tagged loops act as a matrix off by %.3g" % d)
    ev.mark("loop" in tree.kinds_in(case["tree"]))


# ------------------------------------------------------------------ errors inside sections
class Boom(Exception):
    pass


@st.composite
def error_cases(draw):
    """Sections outer..inner; the error is raised innermost and caught `keep` levels from the outside."""
    depth = draw(st.integers(1, 4))
    secs = [draw(st.sampled_from(["ctl0", "ctl1", "dag", "loop", "comp", "unc", "cunc"])) for _ in range(depth)]
    keep = draw(st.integers(0, depth - 1))
    if secs[keep] == "unc":
        # an error between Compute and Uncompute ends no section by itself: the enclosing one has to
        secs[keep] = "comp"
    return {"secs": secs, "keep": keep, "how": draw(st.sampled_from(["raise", "raise", "measure", "alloc"])),
            "loopn": draw(st.sampled_from([0, 2, 3])),
            "after": draw(st.sampled_from(["plain", "ctl", "dag", "loop", "cu"]))}


def run_error(case, ev):
    """Qubits: 0 probe, 1..4 condition of the section at that level."""
    from contextlib import ExitStack
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
    from projectq.ops import Measure, Rx, Ry, X
    n = 5
    c = Choi([n])
    eng, q = c.eng, list(c.regs[0])
    secs, keep = case["secs"], case["keep"]
    if case["how"] == "measure" and "comp" in secs[:keep]:
        # the compute section has recorded the command the backend refuses, and rightly undoes it later
        raise Skip("refused command is part of a surviving compute section")
    top = eng.next_engine

    def inner(level):
        """Sections level.. up to the failing point; gates are only sent where they take effect at once."""
        if level == len(secs):
            if case["how"] == "measure" and "dag" in secs[keep:]:
                Measure | q[4]      # cannot be inverted when the section ends
                return
            raise Boom()
        s = secs[level]
        if s in ("ctl0", "ctl1"):
            with Control(eng, q[1], ctrl_state=s[-1]):
                inner(level + 1)
        elif s == "dag":
            with Dagger(eng):
                inner(level + 1)
        elif s == "loop":
            with Loop(eng, case["loopn"]):
                inner(level + 1)
        elif s == "comp":
            with Compute(eng):
                inner(level + 1)
        elif s == "unc":
            with Compute(eng):
                pass
            inner(level + 1)
        else:
            with Compute(eng):
                pass
            with CustomUncompute(eng):
                inner(level + 1)

    def outer(level):
        """Surviving sections: returns the matrix everything in it should have."""
        if level == keep:
            raised = False
            try:
                inner(level)
            except Exception:  # noqa: BLE001
                raised = True
            if not raised:
                raise Skip("no error")
            Rx(0.7) | q[0]
            Ry(0.4) | q[0]
            m = ref.matrix("Ry", [0.4]) @ ref.matrix("Rx", [0.7])
            return ref.unitary_of(lambda s: s.apply(m, [0]), n), []
        s = secs[level]
        if s in ("ctl0", "ctl1"):
            k = 1 + level
            with Control(eng, q[k], ctrl_state=s[-1]):
                m, _ = outer(level + 1)
            return tree.controlled(m, n, [(k, int(s[-1]))]), []
        if s == "dag":
            with Dagger(eng):
                m, _ = outer(level + 1)
            return m.conj().T, []
        if s == "loop":
            with Loop(eng, case["loopn"]):
                m, _ = outer(level + 1)
            return np.linalg.matrix_power(m, case["loopn"]), []
        v = ref.matrix("Rx", [1.1])
        vm = ref.unitary_of(lambda s: s.apply(v, [0]), n)
        if s == "comp":
            with Compute(eng):
                m, _ = outer(level + 1)
            Rx(1.1) | q[0]
            Uncompute(eng)
            return m.conj().T @ vm @ m, []
        with Compute(eng):
            Rx(1.1) | q[0]
        m, _ = outer(level + 1)
        if s == "unc":
            Uncompute(eng)
        else:
            with CustomUncompute(eng):
                Rx(-1.1) | q[0]
        return vm.conj().T @ m @ vm, []

    del ExitStack
    if case["how"] == "alloc":
        del q
        c.close()
        return fail_alloc(case, ev)
    want, _ = outer(0)
    # everything has ended: a later operation arrives at once and unchanged
    if eng.next_engine is not top:
        raise Violation("after the sections ended, engine %s is still active" % type(eng.next_engine).__name__)
    before = len(c.be.log)
    X | q[0]
    if len(c.be.log) != before + 1:
        raise Violation("after the sections ended, a gate caused %d commands" % (len(c.be.log) - before))
    cmd = c.be.log[-1]
    if cmd.control_qubits or cmd.tags:
        raise Violation("after the sections ended, a gate arrived as %s with annotations %s" % (cmd, cmd.tags))
    want = ref.unitary_of(lambda s: s.apply(ref.PX, [0]), n) @ want
    a = case["after"]
    z = ref.unitary_of(lambda s: s.apply(ref.matrix("Rx", [0.3]), [0]), n)
    if a == "plain":
        Rx(0.3) | q[0]
        want = z @ want
    elif a == "ctl":
        with Control(eng, q[2]):
            Rx(0.3) | q[0]
        want = tree.controlled(z, n, [(2, 1)]) @ want
    elif a == "dag":
        with Dagger(eng):
            Rx(0.3) | q[0]
        want = z.conj().T @ want
    elif a == "loop":
        with Loop(eng, 2):
            Rx(0.3) | q[0]
        want = z @ z @ want
    else:
        with Compute(eng):
            Rx(0.3) | q[0]
        Ry(0.9) | q[0]
        Uncompute(eng)
        y = ref.unitary_of(lambda s: s.apply(ref.matrix("Ry", [0.9]), [0]), n)
        want = z.conj().T @ y @ z @ want
    del q
    got = c.matrix()
    c.close()
    d = float(np.max(np.abs(got - want)))
    if d > 1e-6:
        raise Violation("operations after the failed sections act as a matrix off by %.3g" % d)
    ev.label("sections " + str(len(secs)))
    ev.label("inside a surviving section", keep > 0)
    ev.label("error raised by the section's end", case["how"] == "measure" and "dag" in secs[keep:])
    ev.mark(True)


def fail_alloc(case, ev):
    """A helper that outlives its reverse/repeat/uncompute section is an error, which leaves the engines in order."""
    from projectq import MainEngine
    from projectq.meta import Compute, CustomUncompute, Dagger, Loop
    from projectq.meta._exceptions import QubitManagementError
    from projectq.ops import X
    be = make()(loose_dealloc=True)
    eng = MainEngine(be, [], verbose=True)
    p = eng.allocate_qubit()
    top = eng.next_engine
    s = case["secs"][0]
    raised = False
    keepalive = []
    try:
        if s == "loop" and case["loopn"]:
            with Loop(eng, case["loopn"]):
                keepalive.append(eng.allocate_qubit())
        elif s == "cunc":
            with Compute(eng):
                keepalive.append(eng.allocate_qubit())
            with CustomUncompute(eng):
                X | p
                X | p
        else:
            with Dagger(eng):
                keepalive.append(eng.allocate_qubit())
    except QubitManagementError:
        raised = True
    be.one = lambda cmd: be.log.append(cmd)
    if not raised:
        raise Violation("a helper qubit left over in a section was accepted")
    if eng.next_engine is not top:
        raise Violation("after the failed section, engine %s is still active" % type(eng.next_engine).__name__)
    before = len(be.log)
    X | p
    if len(be.log) != before + 1 or be.log[-1].tags or be.log[-1].control_qubits:
        raise Violation("after the failed section a gate arrived as %s" % [str(x) for x in be.log[before:]])
    ev.label("left-over helper")
    ev.mark(True)


# ------------------------------------------------------------------ long sections on large registers
@st.composite
def large_cases(draw):
    return {"t": draw(large.section_cases(["dag", "dag", "loop", "loop", "cu", "cu", "ctl"])), "start": draw(st.integers(0, 99)),
            "opt": draw(st.booleans())}


def run_large(case, ev):
    from projectq.cengines import LocalOptimizer, TagRemover
    be = large.backend()
    engines = [TagRemover(), LocalOptimizer(1 + case["start"] % 30)] if case["opt"] else []
    ks = large.section_kinds(large.section_check(case["t"], engines, be, case["start"]))
    for k in ks:
        ev.label("has " + k)
    ev.label("more than 300 commands", be.count > 300)
    ev.mark(len(ks & {"dag", "loop", "cu"}) > 1)


TESTS = [
    Test("nested", tree_cases, run_tree, 5000,
         rule="random nestings of reverse/repeat/compute/control sections over rich gates vs the matrix; non-trivial = "
              "contains such a section"),
    Test("programs", prog_cases, run_prog, 6000,
         rule="programs with helper qubits allocated inside sections vs the reference state, helper ids unique and "
              "released; non-trivial = contains a section"),
    Test("loop-tags", tree_cases, run_tagged, 2000,
         rule="sections on a backend that repeats tagged commands itself; non-trivial = contains a loop"),
    Test("errors", error_cases, run_error, 3000,
         rule="an error raised inside up to four nested sections and caught at any level; every case with an error "
              "is non-trivial"),
    Test("large", large_cases, run_large, 700,
         rule="sections up to seven deep over up to 40 qubits, loops up to 70 times, helper qubits in compute sections, as sent or "
              "optimised, vs 64 classical runs; non-trivial = two kinds of reversed, repeated or computed sections"),
]
