"""P07: compiling to a gate set."""
from hypothesis import strategies as st

from vf import compile as comp
from vf import prog, ref, spec, stream
from vf.core import Skip, Test, Violation
from vf.refbackend import make

ASSUMPTIONS = ["up to 7 program qubits (plus helpers); states compared up to a global phase, 1e-6",
               "gate sets documented as supported: Rz with Ry, Rx or H, and CNOT or CZ; the shipped device setups",
               "device lists come from stand-ins for the services"]

RICH = ["mat1", "mat1", "tec", "ucr", "add", "qft", "ent", "qop", "inv"]
GATES = prog.G1 + prog.G1P + prog.G2      # Rxx, Ryy and Rzz have no replacement rules
FULL = dict(gates=GATES, max_q=4, stmts=(1, 6), ctl_max=2, rich=RICH, depth=2, spread=True, min_q=2)
DEV = dict(gates=GATES, max_q=4, stmts=(1, 6), ctl_max=2, rich=["mat1", "tec", "ucr", "qft", "ent", "qop", "inv"], depth=1,
           spread=True, min_q=2, alloc=False, anc=False, delete=False)


@st.composite
def cases(draw, wide=False):
    t = draw(comp.targets(("rg", "rg", "ti", "default") if wide else ("rg", "rg", "rg", "rg", "ti", "default", "dev", "linear", "grid")))
    o = dict(DEV if t[0] == "dev" else FULL)
    if wide:
        o.update(max_q=7, min_q=5, stmts=(4, 10), ctl_max=3)
    p = draw(prog.programs(prog.Opts(**o)))
    if t[0] == "default":
        # these rules do not cover arithmetic
        p["body"] = [x for x in p["body"] if "AddConstant" not in str(x)]
    p["target"] = t
    return p


def compile_run(case, ev):
    from projectq import MainEngine
    t = comp.target(case["target"])
    be = make()(outcomes=case["bits"], available=t.ok if t.default else None, loose_dealloc=False)
    bad = []

    def hook(cmd):
        if not t.ok(cmd):
            bad.append(str(cmd))
    be.hook = hook
    eng = MainEngine(be, t.engines, verbose=True)
    r = prog.Runner(eng, case)
    try:
        r.run()
        if bad:
            raise Violation("not in the gate set %s: %s" % (case["target"], bad[:3]))
        compare(r, be, eng)
    finally:
        be.one = lambda cmd: None
        r.env = {}
    return r, be


def compare(r, be, eng, tol=1e-6):
    want = r.reference()
    mp = eng.mapper.current_mapping if eng.mapper is not None else None
    ids = [r.ids[n] if mp is None else mp[r.ids[n]] for n in want.ids]
    got = be.state
    if len(set(ids)) != len(ids):
        raise Violation("two live qubits share a location: %s" % ids)
    if sorted(got.ids) != sorted(ids):
        raise Violation("live qubits at the backend %s, expected %s" % (got.ids, ids))
    d = ref.phase_distance(got.vector(ids), want.psi)
    if d > tol:
        raise Violation("the compiled program's final state is off by %.3g" % d)


def run_compile(case, ev):
    from projectq.ops import ClassicalInstructionGate
    r, be = compile_run(case, ev)
    n = sum(not isinstance(c.gate, ClassicalInstructionGate) for c in be.log)
    ev.label("target " + "/".join(map(str, case["target"][:2])))
    ev.label("negative control", ", 0]]" in str(case["body"]))
    ev.mark(n >= 3)


# ------------------------------------------------------------------ refusing what cannot be compiled
@st.composite
def refuse_cases(draw):
    n = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(["mat", "te"]))
    nctl = draw(st.integers(0, n - 2))
    perm = list(draw(st.permutations(range(n))))
    if kind == "mat":
        k = draw(st.integers(2, n - nctl))
        sp = ["Mat", "full", draw(st.integers(0, 50)), k]
    else:
        k = 2
        sp = ["TE", 0.7, [[[[0, "X"]], 1.0, 0], [[[0, "Z"], [1, "X"]], 0.5, 0]]]
    pre = draw(st.lists(stream.templates(list(range(n)), kinds=["1", "1p", "2"], ctl_max=1), max_size=3))
    return {"n": n, "op": [sp, [perm[:k]], [[c, draw(st.integers(0, 1))] for c in perm[k:k + nctl]]],
            "pre": pre, "target": draw(comp.targets(("rg", "ti", "dev")))}


def run_refuse(case, ev):
    from projectq import MainEngine
    from projectq.cengines._replacer._replacer import NoGateDecompositionError
    t = comp.target(case["target"])
    tw = comp.TWO.get(case["target"][2]) if case["target"][0] == "rg" else ()
    sp, regs, ctrls = case["op"]
    if tw == "any" and len(regs[0]) + len(ctrls) == 2:
        raise Skip("in the gate set")
    if case["target"][0] == "rg" and "TE" in case["target"][3] and sp[0] == "TE":
        raise Skip("in the gate set")
    be = make()()
    bad = []
    be.hook = lambda cmd: bad.append(str(cmd)) if not t.ok(cmd) else None
    eng = MainEngine(be, t.engines, verbose=True)
    try:
        q = eng.allocate_qureg(case["n"])
        ql = list(q)
        del q
        for s2, r2, c2 in case["pre"]:
            apply(eng, s2, r2, c2, ql)
        try:
            apply(eng, sp, regs, ctrls, ql)
            eng.flush()
        except (NoGateDecompositionError, RecursionError, RuntimeError):
            ev.label("refused")
        else:
            raise Violation("%s compiled although no replacement exists; backend: %s" % (
                sp[0], [str(c) for c in be.log][-6:]))
        if bad:
            raise Violation("before failing, gates outside the set were emitted: %s" % bad[:3])
    finally:
        be.one = lambda cmd: None
    ev.mark()


def apply(eng, sp, regs, ctrls, q):
    from projectq.meta import Control
    from vf import tree
    if ctrls:
        with Control(eng, [q[c] for c, _ in ctrls], ctrl_state="".join(str(v) for _, v in ctrls)):
            tree.apply_op(sp, regs, q)
    else:
        tree.apply_op(sp, regs, q)


# ------------------------------------------------------------------ compilations do not influence one another
@st.composite
def indep_cases(draw):
    n = draw(st.integers(2, 4))
    one = stream.templates(list(range(n)), kinds=["1", "1p", "1p", "2", "2p", "mat1", "tec", "ucr", "qft", "ent", "addmod",
                                                  "add", "qop"], ctl_max=2)
    pal = draw(st.lists(one, min_size=1, max_size=4))
    a = [draw(st.sampled_from(pal)) if draw(st.booleans()) else draw(one) for _ in range(draw(st.integers(1, 6)))]
    b = [draw(st.sampled_from(pal)) if draw(st.booleans()) else draw(one) for _ in range(draw(st.integers(1, 5)))]
    return {"n": n, "a": a, "b": b, "how": draw(st.sampled_from(["rules", "rules", "engine", "setup"])),
            "pick": draw(st.sampled_from(["first", "last", "rot"])), "again": draw(st.booleans()),
            "target": draw(comp.targets(("rg", "rg", "ti")))}


def run_indep(case, ev):
    from projectq import MainEngine
    from projectq.backends import CommandPrinter  # noqa: F401
    from projectq.cengines import AutoReplacer, BasicEngine, DecompositionRuleSet, InstructionFilter
    from projectq.ops import ClassicalInstructionGate
    import projectq.libs.math as lm
    import projectq.setups.decompositions as d

    class Rec(BasicEngine):
        def __init__(self):
            super().__init__()
            self.log = []

        def is_available(self, cmd):
            return True

        def receive(self, cl):
            self.log += list(cl)

    ok = comp.allowed(("Rz", "Ry", "Rx", "H", "Ph"), (("X", 1),), ())

    def pick(cmd, ds):
        if case["pick"] == "rot":
            return ds[len(ds) // 2]
        return ds[-1] if case["pick"] == "last" else ds[0]

    def filt(eng, cmd):
        return ok(cmd)

    def rules():
        return DecompositionRuleSet(modules=[lm, d])

    def run(prog_, rs=None, eng=None):
        rec = Rec()
        if eng is None:
            if case["how"] == "setup":
                eng = MainEngine(rec, comp.target(case["target"]).engines, verbose=True)
            else:
                eng = MainEngine(rec, [AutoReplacer(rs, pick), InstructionFilter(filt)], verbose=True)
        else:
            rec = eng.backend
        q = eng.allocate_qureg(case["n"])
        ql = list(q)
        del q
        start = len(rec.log)
        base = ql[0].id
        err = None
        try:
            for sp, regs, ctrls in prog_:
                apply(eng, sp, regs, ctrls, ql)
                if len(rec.log) - start > 200000:
                    raise Violation("compilation blows up")
            eng.flush()
        except (RecursionError, RuntimeError) as e:
            if "NoGateDecomposition" not in type(e).__name__ and not isinstance(e, RecursionError):
                raise
            err = type(e).__name__
        except Exception as e:
            if "NoGateDecomposition" not in type(e).__name__:
                raise
            err = type(e).__name__
        out = [show(c, base) for c in rec.log[start:]]
        rec.receive = lambda cl: None
        for x in ql:
            del x
        return out, err, eng

    if case["how"] == "setup":
        want = run(case["b"])[:2]
        run(case["a"])
        got = run(case["b"])[:2]
    elif case["how"] == "rules":
        want = run(case["b"], rules())[:2]
        shared = rules()
        run(case["a"], shared)
        if case["again"]:
            run(case["a"], shared)
        got = run(case["b"], shared)[:2]
    else:
        # one engine list, the same program twice
        want = run(case["b"], rules())[:2]
        shared = rules()
        got = [None, None]
        for _ in range(3):
            got = run(case["b"], shared)[:2]
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got[0], want[0])) if x != y), min(len(got[0]), len(want[0])))
        raise Violation("compiled after another program the result differs at command %d: %s instead of %s (%s, %s)" % (
            i, got[0][i:i + 3], want[0][i:i + 3], got[1], want[1]))
    ev.label("how " + case["how"])
    ev.label("not compilable", want[1] is not None)
    ev.mark(want[1] is None and sum("Rz" in x or "Ry" in x or "CX" in x for x in want[0]) > 0)


def show(c, base):
    ids = [[q.id - base if q.id >= 0 else q.id for q in r] for r in c.qubits]
    ctl = [q.id - base for q in c.control_qubits]
    return "%s %s %s %s" % (str(c.gate), ids, ctl, c.control_state)


TESTS = [
    Test("compile", cases, run_compile, 4000, chunk=30,
         rule="programs (nested sections, helpers, measurement, feedback, high-level and arithmetic gates) compiled to "
              "a random supported gate set or device setup; every command at the backend in the set, final state and "
              "recorded outcomes consistent with the source; non-trivial = 3+ gates emitted"),
    Test("large", lambda: cases(True), run_compile, 120, chunk=5,
         rule="the same with 5 to 7 program qubits (three controls) and up to 10 statements at the top level"),
    Test("refuse", refuse_cases, run_refuse, 300,
         rule="gates without any replacement (multi-qubit matrices, evolution under non-commuting terms), also "
              "controlled: compilation raises and nothing outside the set is emitted; every case is non-trivial"),
    Test("independence", indep_cases, run_indep, 1500,
         rule="program B compiled after A with shared rules, engines or in the same process equals B compiled afresh; "
              "non-trivial = B compiles and emits rotations or CNOTs"),
]
