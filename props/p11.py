"""P11: controlled sections."""
import numpy as np
from hypothesis import strategies as st

from vf import compile as comp
from vf import large, prog, ref, spec, stream, tree
from vf.core import Skip, Test, Violation
from vf.denote import Choi
from vf.refbackend import make

ASSUMPTIONS = ["matrices and states compared to 1e-6; up to 5 qubits and three levels of nesting (40 and seven with classical gates)"]


# ------------------------------------------------------------------ nested sections over rich gates
@st.composite
def tree_cases(draw):
    n = draw(st.integers(2, 4))
    t = draw(tree.trees(list(range(n)), 3, ("ctl", "ctl", "ctl", "cu", "dag", "loop"), (1, 3)))
    return {"n": n, "tree": t}


def run_tree(case, ev):
    if tree.size(case["tree"]) > 60:
        raise Skip("too long")
    c = Choi([case["n"]])
    q = list(c.regs[0])
    tree.run(c.eng, case["tree"], q)
    del q
    got = c.matrix()
    want = tree.matrix(case["tree"], case["n"])
    c.close()
    d = float(np.max(np.abs(got - want)))
    if d > 1e-6:
        raise Violation("the sections act as a matrix off by %.3g" % d)
    k = tree.kinds_in(case["tree"])
    for x in k:
        ev.label("has " + x)
    ev.mark("ctl" in k)


# ------------------------------------------------------------------ programs (helper qubits, compute sections)
def prog_cases():
    return prog.programs(prog.Opts(max_q=4, stmts=(1, 6), measure=False, feedback=False, delete=False, alloc=False,
                                   flush=True, blocks=("ctl", "ctl", "ctl", "cu"), depth=3, min_q=2, spread=True))


def finish(r, be, ev, prog_case):
    want = r.reference()
    names = list(want.ids)
    got = be.state
    ids = [r.ids[n] for n in names]
    if sorted(got.ids) != sorted(ids):
        raise Violation("live qubits %s, expected %s" % (got.ids, ids))
    d = float(np.max(np.abs(got.vector(ids) - want.psi)))
    if d > 1e-6:
        raise Violation("final state is off by %.3g" % d)


def run_prog(case, ev):
    from projectq import MainEngine
    be = make()()
    eng = MainEngine(be, [], verbose=True)
    r = prog.Runner(eng, case)
    r.run()
    finish(r, be, ev, case)
    text = str(case["body"])
    for k in ("ctl", "cua", "anc", "cu"):
        ev.label("has " + k, "'%s'" % k in text)
    ev.mark("'ctl'" in text or ", 0]]" in text)
    close(be)


def close(be):
    be.one = lambda cmd: None


# ------------------------------------------------------------------ compiled negative controls
def run_compiled(case, ev):
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    from projectq.meta import has_negative_control
    import projectq.setups.decompositions as d
    from projectq.ops import ClassicalInstructionGate
    from vf import gates
    if tree.size(case["tree"]) > 40:
        raise Skip("too long")

    def avail(cmd):
        return isinstance(cmd.gate, ClassicalInstructionGate) or not has_negative_control(cmd)
    del gates
    c = Choi([case["n"]], [AutoReplacer(DecompositionRuleSet(modules=[d.controlstate]))], available=avail)
    q = list(c.regs[0])
    neg = []
    c.be.hook = lambda cmd: neg.append(str(cmd)) if not avail(cmd) else None
    tree.run(c.eng, case["tree"], q)
    del q
    got = c.matrix()
    want = tree.matrix(case["tree"], case["n"])
    c.close()
    if neg:
        raise Violation("negatively controlled command %s was not compiled" % neg[0])
    dd = float(np.max(np.abs(got - want)))
    if dd > 1e-6:
        raise Violation("the compiled sections act as a matrix off by %.3g" % dd)
    ev.mark("0]" in str(case["tree"]) and "ctl" in tree.kinds_in(case["tree"]))


# ------------------------------------------------------------------ equivalent forms of one controlled operation
@st.composite
def form_cases(draw):
    n = draw(st.integers(2, 5))
    ids = list(range(n))
    perm = list(draw(st.permutations(ids)))
    k = draw(st.integers(1, n - 1))
    ctl = [[c, draw(st.sampled_from([1, 1, 0]))] for c in perm[:k]]
    t = draw(stream.templates(perm[k:], True, True, 0))
    groups, rest = [], list(ctl)
    while rest:
        m = draw(st.integers(1, len(rest)))
        groups.append([rest[:m], draw(st.sampled_from(["str", "int", "enum", "wrap", "wrap", "twice"]))])
        rest = rest[m:]
    bad = draw(st.sampled_from([None] * 8 + ["long", "short", "letter", "float", "conflict", "tuple"]))
    return {"n": n, "op": [t[0], t[1]], "groups": groups, "bad": bad, "inv": draw(st.integers(0, 2)) == 0}


def run_forms(case, ev):
    from projectq.meta import Control
    from projectq.ops import C, CtrlAll, IncompatibleControlState
    c = Choi([case["n"]])
    q = list(c.regs[0])
    sp, regs = case["op"]
    inverted = []

    def go(groups):
        if not groups:
            tree.apply_op(sp, regs, q)
            return
        (ctl, form), rest = groups[0], groups[1:]
        vals = [v for _, v in ctl]
        cq = [q[i] for i, _ in ctl]
        if form == "wrap" and not rest and all(vals):
            from projectq.ops import get_inverse
            g = C(spec.build(sp), len(cq))
            if case.get("inv"):
                g = get_inverse(g)
                inverted.append(1)
                ev.label("inverted wrapper")
            if sp[0] in ref.NQ:
                g | tuple([cq] + [q[r[0]] for r in regs])
            else:
                g | tuple([cq] + [[q[i] for i in r] for r in regs])
            ev.label("wrapped form")
            return
        if form == "int":
            state = sum(v << i for i, v in enumerate(vals))
        elif form == "enum" and len(set(vals)) == 1:
            state = CtrlAll.One if vals[0] else CtrlAll.Zero
        else:
            state = "".join(map(str, vals))
        with Control(c.eng, cq if len(cq) > 1 else cq[0], ctrl_state=state):
            if form == "twice":
                # repeating a condition changes nothing
                with Control(c.eng, cq[:1], ctrl_state=str(vals[0])):
                    go(rest)
            else:
                go(rest)
    if case["bad"]:
        go_bad(case, c, q, Control, CtrlAll, IncompatibleControlState, ev)
    else:
        go([tuple(g) for g in case["groups"]])
    ctl = [] if case["bad"] else [x for g, _ in case["groups"] for x in g]
    u = None if case["bad"] else tree.op_matrix(["op", sp, regs], case["n"])
    want = np.eye(1 << case["n"]) if case["bad"] else tree.controlled(u.conj().T if inverted else u, case["n"], ctl)
    # afterwards nothing is conditional any more
    from projectq.ops import X
    X | q[0]
    want = ref.unitary_of(lambda s: s.apply(ref.PX, [0]), case["n"]) @ want
    del q
    got = c.matrix()
    c.close()
    d = float(np.max(np.abs(got - want)))
    if d > 1e-6:
        raise Violation("the controlled operation acts as a matrix off by %.3g" % d)
    ev.label("negative", any(v == 0 for _, v in ctl))
    ev.mark(True)


def go_bad(case, c, q, Control, CtrlAll, Incompatible, ev):
    from projectq.ops import X
    bad = case["bad"]
    two = [q[0], q[1]]
    ev.label("rejected: " + bad)
    try:
        if bad == "long":
            with Control(c.eng, two, ctrl_state="101"):
                pass
        elif bad == "short":
            with Control(c.eng, two, ctrl_state="1"):
                pass
        elif bad == "letter":
            with Control(c.eng, two, ctrl_state="1x"):
                pass
        elif bad == "float":
            with Control(c.eng, two, ctrl_state=1.0):
                pass
        elif bad == "tuple":
            with Control(c.eng, tuple(two)):
                pass
        else:
            with Control(c.eng, q[0], ctrl_state="1"):
                with Control(c.eng, q[0], ctrl_state="0"):
                    X | q[1]
    except (ValueError, TypeError, Incompatible):
        return
    raise Violation("invalid control state (%s) was accepted" % bad)


# ------------------------------------------------------------------ conditions stated more than once, compiled
@st.composite
def again_cases(draw):
    n = draw(st.integers(2, 4))
    perm = list(draw(st.permutations(range(n))))
    k = draw(st.integers(1, n - 1))
    ctl = [[c, draw(st.sampled_from([1, 1, 1, 0]))] for c in perm[:k]]
    parts = draw(st.lists(st.lists(st.sampled_from(ctl), min_size=1, max_size=3), min_size=1, max_size=3))
    name = draw(st.sampled_from(["X", "X", "Z", "H", "Ry", "Swap"] if n - k > 1 else ["X", "X", "Z", "H", "Ry", "T"]))
    return {"n": n, "parts": parts, "gate": [name, [0.8] if name == "Ry" else [], perm[k:][:ref.NQ[name]]],
            "wrap": draw(st.booleans()), "target": draw(comp.targets(("rg", "rg", "default", "ti"))), "times": draw(st.integers(1, 2))}


def run_again(case, ev):
    from projectq import MainEngine
    from projectq.meta import Control
    from projectq.ops import All, C, Ry
    t = comp.target(case["target"])
    be = make()(available=t.ok if t.default else None)
    eng = MainEngine(be, t.engines, verbose=True)
    name, params, targets = case["gate"]
    want = ref.RefState()
    try:
        q = eng.allocate_qureg(case["n"])
        ids = [x.id for x in q]
        for i, x in enumerate(q):
            Ry(0.5 + 0.4 * i) | x
            want.alloc(ids[i])
            want.apply(ref.matrix("Ry", [0.5 + 0.4 * i]), [ids[i]])
        every = {}
        for part in case["parts"]:
            every.update({c: v for c, v in part})

        def go(parts):
            g = prog.pq_gate(name, params)
            tq = tuple(q[i] for i in targets)
            if not parts:
                g | tq
            elif len(parts) == 1 and case["wrap"] and all(v for _, v in parts[0]):
                C(g, len(parts[0])) | ([q[c] for c, _ in parts[0]],) + tq
            else:
                with Control(eng, [q[c] for c, _ in parts[0]], ctrl_state="".join(str(v) for _, v in parts[0])):
                    go(parts[1:])
        for _ in range(case["times"]):
            go(case["parts"])
            want.apply(ref.matrix(name, params), [ids[i] for i in targets], [ids[c] for c in every], list(every.values()))
        eng.flush()
        for cmd in be.log:
            seen = [x.id for r in cmd.all_qubits for x in r]
            if len(set(seen)) != len(seen):
                raise Violation("%s uses a qubit twice" % cmd)
        d = ref.phase_distance(be.state.vector(ids), want.vector(ids))
        if d > 1e-6:
            raise Violation("the compiled controlled operation is off by %.3g" % d)
    finally:
        be.one = lambda cmd: None
    listed = [c for part in case["parts"] for c, _ in part]
    ev.mark(len(set(listed)) < len(listed))


# ------------------------------------------------------------------ sections with many conditions on large registers
@st.composite
def large_cases(draw):
    return {"t": draw(large.section_cases(["ctl", "ctl", "ctl", "cu", "dag", "loop"])), "start": draw(st.integers(0, 99)),
            "engines": draw(st.sampled_from(["none", "none", "opt", "positive", "toffoli"]))}


def run_large(case, ev):
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer, TagRemover
    from projectq.meta import has_negative_control
    from projectq.ops import ClassicalInstructionGate, XGate
    import projectq.setups.decompositions as d
    be = large.backend()
    kind = case["engines"]
    engines = []
    if kind == "opt":
        engines = [TagRemover(), LocalOptimizer(1 + case["start"] % 30)]
    elif kind in ("positive", "toffoli"):
        engines = [AutoReplacer(DecompositionRuleSet(modules=[d.controlstate, d.cnu2toffoliandcu]))]
        most = {"positive": 1000, "toffoli": 1}[kind]
        be.accept = lambda cmd: isinstance(cmd.gate, ClassicalInstructionGate) or (
            not has_negative_control(cmd)
            and len(cmd.control_qubits) <= (2 if most == 1 and isinstance(cmd.gate, XGate) else most))
    nodes = large.section_check(case["t"], engines, be, case["start"])
    ks = large.section_kinds(nodes)
    ev.label("engines: " + kind)
    ev.label("more than 8 qubits", case["t"]["n"] > 8)
    ev.mark("ctl" in ks)


TESTS = [
    Test("nested", tree_cases, run_tree, 5000,
         rule="random nestings of control/reverse/repeat/compute sections over rich gates vs the block matrix; "
              "non-trivial = contains a control section"),
    Test("programs", prog_cases, run_prog, 5000,
         rule="programs with controlled sections around compute sections and helper qubits vs the reference state; "
              "non-trivial = contains a control"),
    Test("compiled", tree_cases, run_compiled, 2400,
         rule="same with the backend declining negative controls and the control-state rule compiling them; "
              "non-trivial = a negative control"),
    Test("forms", form_cases, run_forms, 5000,
         rule="one operation, its controls split into nested sections / wrappers / repeated conditions in any listing "
              "order and state notation, or an invalid state that must be rejected; every case is non-trivial"),
    Test("repeated", again_cases, run_again, 1200,
         rule="controlled gates whose conditions are stated several times within and across sections, compiled to a gate "
              "set; non-trivial = some qubit is listed twice"),
    Test("large", large_cases, run_large, 700,
         rule="sections up to seven deep over up to 40 qubits, with up to 39 conditions each, as sent, optimised, or compiled to "
              "positive controls or to Toffoli gates, vs 64 classical runs; non-trivial = contains a control section"),
]
