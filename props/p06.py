"""P06: every decomposition rule implements its gate."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from vf import prog, ref, spec
from vf.core import Skip, Test, Violation
from vf.denote import Choi

ASSUMPTIONS = ["matrices compared to 1e-6 (the rules themselves work to 1e-12), on every basis state of each case",
               "rules are driven through AutoReplacer with the rule that removes negative controls registered, as in "
               "every supplied rule set; nothing else is compiled",
               "arithmetic rules are exercised inside their documented preconditions only (see P17, P18)"]


def rules():
    """name -> rule, for every registered rule of the library (the arithmetic ones included)."""
    import projectq.libs.math as m
    import projectq.setups.decompositions as d
    out = {}
    for r in [x for mod in [d, m] for x in mod.all_defined_decomposition_rules]:
        out[r.gate_class.__name__ + "/" + r.gate_decomposer.__name__] = r
    return out


def controlstate():
    import projectq.setups.decompositions as d
    return d.controlstate.all_defined_decomposition_rules


small = st.sampled_from([1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-11, 1e-13, 0.0])


@st.composite
def unitary2(draw):
    """A 2x2 unitary: exp(ia) Rz(b) Ry(c) Rz(d), with special, generic and nearly special parameters."""
    return ["U2"] + [draw(st.one_of(st.sampled_from([0.0, math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 2 * math.pi,
                                                     -math.pi, 3 * math.pi / 2]),
                                    st.tuples(st.sampled_from([0, math.pi, math.pi / 2, -math.pi]), small,
                                              st.sampled_from([1, -1])).map(lambda t: t[0] + t[1] * t[2]),
                                    st.floats(-7, 7).map(lambda x: round(x, 6)))) for _ in range(4)]


def u2(p):
    a, b, c, d = p
    return np.exp(1j * a) * ref.PARAM["Rz"](b) @ ref.PARAM["Ry"](c) @ ref.PARAM["Rz"](d)


def build(sp):
    import projectq.ops as o
    if sp[0] == "U2":
        return o.MatrixGate(u2(sp[1:]))
    if sp[0] == "inv:U2":
        return o.get_inverse(o.MatrixGate(u2(sp[1:])))
    if sp[0] == "QPE":
        return o.QPE(build(sp[1]))
    if sp[0] == "QPEf":
        g = build(sp[1])

        def f(qs, time):
            for _ in range(time):
                g | qs
        return o.QPE(f)
    return spec.build(sp)


def angle():
    return st.one_of(prog.angles(), st.tuples(st.sampled_from([0, math.pi, 2 * math.pi]), small).map(sum))


@st.composite
def one_qubit(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(unitary2())
    if k == 1:
        return [draw(st.sampled_from(prog.G1 + ["SqrtXdag"]))]
    if k == 2:
        return [draw(st.sampled_from(prog.G1P)), draw(angle())]
    return ["Mat", draw(st.sampled_from(["full", "perm", "diag", "real"])), draw(st.integers(0, 200)), 1]


@st.composite
def constant_math(draw, k):
    kind = draw(st.integers(0, 4))
    n = 1 << k
    if kind == 0:
        return ["AddConstant", draw(st.integers(-n, n))]
    if kind == 1:
        return ["SubConstant", draw(st.integers(0, n - 1))]
    m = draw(st.integers(2, n))
    a = draw(st.integers(0, m - 1))
    if kind == 2:
        return ["AddConstantModN", a, m]
    if kind == 3:
        return ["inv:AddConstantModN", max(1, a), m]
    a = draw(st.sampled_from([x for x in range(1, m) if math.gcd(x, m) == 1]))
    return [draw(st.sampled_from(["MultiplyByConstantModN", "inv:MultiplyByConstantModN"])), a, m]


def sized(draw, name):
    """(spec, register sizes, max controls) for a rule's gate class."""
    if name in ref.NQ:
        return [name] + prog.params_of(draw, name), [1] * ref.NQ[name]


@st.composite
def cases(draw, pool=None):
    names = pool or FAMILIES
    fam = draw(st.sampled_from(names))
    nc = draw(st.sampled_from([0, 0, 1, 1, 2, 3]))
    if fam == "one":
        sp, sizes = draw(one_qubit()), [1]
        nc = draw(st.integers(0, 4))
    elif fam == "any":
        kind = draw(st.sampled_from(["2", "2p", "mat2", "qop", "te", "one"]))
        nc = draw(st.integers(1, 3))
        if kind == "2":
            sp, sizes = [draw(st.sampled_from(["Swap", "SqrtSwap", "SqrtSwapdag"]))], [1, 1]
        elif kind == "2p":
            sp, sizes = [draw(st.sampled_from(prog.G2P)), draw(angle())], [1, 1]
        elif kind == "mat2":
            sp, sizes = ["Mat", "full", draw(st.integers(0, 99)), 2], [2]
        elif kind == "qop":
            k = draw(st.integers(1, 3))
            sp, sizes = ["QOp", [[[[i, draw(spec.paulis)] for i in range(k)]] + draw(spec.coeff_unit)]], [k]
        elif kind == "te":
            sp, sizes = ["TE", 0.3, [[[[0, "X"], [1, "Z"]], 0.7, 0]]], [2]
        else:
            sp, sizes = draw(one_qubit()), [1]
    elif fam == "rot":
        nc = draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
        sp, sizes = [draw(st.sampled_from(["Rx", "Ry", "Rz", "R", "Ph"])), draw(angle())], [1]
    elif fam == "x":
        nc = draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
        sp, sizes = [draw(st.sampled_from(["X", "H"]))], [1]
    elif fam == "swap":
        sp, sizes = [draw(st.sampled_from(["Swap", "SqrtSwap", "SqrtSwapdag"]))], [1, 1]
    elif fam == "qft":
        sp = [draw(st.sampled_from(["QFT", "QFTdag", "Entangle", "Entangledag"]))]
        sizes = [draw(st.integers(1, 4))]
        nc = min(nc, 2)
    elif fam == "ucr":
        k = draw(st.integers(0, 3))
        sp = [draw(st.sampled_from(["UCRy", "UCRz"])), [draw(angle()) for _ in range(1 << k)]]
        if draw(st.integers(0, 3)) == 0:
            sp = ["inv:" + sp[0]] + sp[1:]
        sizes = [k, 1]
        nc = min(nc, 2)
    elif fam == "stateprep":
        k = draw(st.integers(1, 3))
        sp = ["StatePrep", draw(st.integers(0, 300)), k, draw(st.sampled_from(spec.STATE_KINDS))]
        sizes = [k]
        nc = min(nc, 2)
    elif fam == "te":
        k = draw(st.integers(1, 4))
        sizes = [k]
        nc = min(nc, 2)
        if draw(st.booleans()):
            t = [[i, draw(spec.paulis)] for i in range(k)]
            h = [[t, draw(st.floats(-3, 3).map(lambda x: round(x, 5))), 0]]
        else:
            h = draw(spec.hermitian(k, 3, 0))
            # commuting family: restrict to one Pauli letter per qubit, and touch every qubit
            letters = [draw(spec.paulis) for _ in range(k)]
            seen, hh = set(), []
            for t, c, _ in h + [[[[i, "X"] for i in range(k)], 0.5, 0]]:
                t = [[i, letters[i]] for i, _ in t]
                key = tuple(i for i, _ in t)
                if key not in seen:
                    seen.add(key)
                    hh.append([t, c, 0])
            h = hh
            if draw(st.integers(0, 2)) == 0:
                h = draw(spec.nearly_commuting(k, st.sampled_from([1.0, -0.5, 0.7, 2.0])))
                out = set(range(k)) - {i for t, _, _ in h for i, _ in t}
                if out:
                    h.insert(draw(st.integers(0, len(h))), [[[i, draw(spec.paulis)] for i in sorted(out)], 0.4, 0])
        sp = ["TE", draw(st.sampled_from([0.3, -0.7, 1.0, 2.5, 0.0])), h]
    elif fam == "qop":
        k = draw(st.integers(1, 4))
        sizes = [k]
        sp = ["QOp", [[[[i, draw(spec.paulis)] for i in range(k)]] + draw(spec.coeff_unit)]]
        if k == 1:
            sp = ["QOp", [sp[1][0][:1] + draw(st.sampled_from([[0.0, 1.0], [0.6, 0.8]]))]]
    elif fam == "qpe":
        k = draw(st.integers(1, 2))
        sp = [draw(st.sampled_from(["QPE", "QPEf"])),
              ["Mat", draw(st.sampled_from(["full", "diag"])), draw(st.integers(0, 50)), k]]
        sizes = [draw(st.integers(1, 3)), k]
        nc = min(nc, 2)
    elif fam == "barrier":
        sp, sizes, nc = ["Barrier"], [draw(st.integers(1, 3))], 0
    elif fam == "cmath":
        k = draw(st.integers(1, 3))
        sp, sizes = draw(constant_math(k)), [k]
        nc = min(nc, 2)
    else:
        name = draw(st.sampled_from(["AddQuantum", "inv:AddQuantum", "SubtractQuantum", "inv:SubtractQuantum",
                                     "ComparatorQuantum", "DivideQuantum", "inv:DivideQuantum", "MultiplyQuantum",
                                     "inv:MultiplyQuantum"]))
        n = draw(st.integers(1, 2))
        sp = [name]
        if name.endswith("AddQuantum"):
            sizes = [n, n] + ([1] if draw(st.booleans()) else [])
        elif name.endswith("SubtractQuantum"):
            sizes = [n, n]
        elif name == "ComparatorQuantum":
            sizes = [n, n, 1]
        elif name.endswith("DivideQuantum"):
            sizes = [n, n, n]
        else:
            n = 1 if nc else n
            sizes = [n, n, 2 * n + 1]
        nc = min(nc, 1 if name.endswith(("AddQuantum", "SubtractQuantum")) else 2)     # two controls are rejected (ValueError, tested)
    total = sum(sizes)
    room = max(0, 7 - total)
    nc = min(nc, room)
    ctl = [draw(st.sampled_from([1, 1, 1, 0])) for _ in range(nc)]
    order = list(draw(st.permutations(range(total + nc))))
    return {"spec": sp, "sizes": sizes, "ctl": ctl, "order": order}


FAMILIES = (["one"] * 6 + ["any"] * 4 + ["rot"] * 6 + ["x"] * 3 + ["swap"] * 2 + ["qft"] * 2 + ["ucr"] * 3
            + ["stateprep"] * 2 + ["te"] * 3 + ["qop"] + ["qpe"] * 2 + ["barrier"])
MATH = ["cmath", "qmath"]


def meaning(case, regs, ctrls):
    """Function acting on a RefState, or None (no effect)."""
    sp = case["spec"]
    cs, vs = [c for c, _ in ctrls], [v for _, v in ctrls]
    flat = [q for r in regs for q in r]
    if sp[0] == "U2":
        return lambda s: s.apply(u2(sp[1:]), flat, cs, vs)
    if sp[0] in ("QPE", "QPEf"):
        n, u = len(regs[0]), spec.random_unitary(*sp[1][1:])

        def f(s):
            for q in regs[0]:
                s.apply(ref.FIXED["H"], [q], cs, vs)
            for i, q in enumerate(regs[0]):
                s.apply(np.linalg.matrix_power(u, 1 << i), regs[1], cs + [q], vs + [1])
            # most significant bit of the phase comes first
            s.apply(ref.qft_matrix(n).conj().T, list(reversed(regs[0])), cs, vs)
        return f
    return lambda s: spec.act(s, sp, regs, ctrls)


def domain(case, total, regs, ctrls, act):
    """Basis states meeting the gate's preconditions."""
    sp, sizes = case["spec"], case["sizes"]
    out = []

    def val(x, r):
        return sum(((x >> q) & 1) << i for i, q in enumerate(r))
    name = sp[0]
    for x in range(1 << total):
        v = [val(x, r) for r in regs]
        on = all(((x >> c) & 1) == b for c, b in ctrls)
        if name == "StatePrep" and on and v[0]:
            continue
        if name.endswith("ModN") and v[0] >= sp[2]:
            continue
        if name == "DivideQuantum" and (v[1] or not 0 < v[2] <= v[0]):
            continue
        if name == "MultiplyQuantum" and v[2]:
            continue
        if name == "inv:MultiplyQuantum" and v[2] != v[0] * v[1]:
            continue
        if name == "inv:DivideQuantum" and (v[2] == 0 or v[0] >= v[2] or v[0] + v[1] * v[2] >= 1 << sizes[0]):
            continue
        if len(regs) == 3 and name in ("AddQuantum", "inv:AddQuantum") and v[2]:
            continue
        if name == "ComparatorQuantum" and v[2]:
            continue
        out.append(x)
    if name == "inv:AddQuantum" and len(sizes) == 3:
        # states the forward addition produces
        keep = set()
        for a in range(1 << sizes[0]):
            for b in range(1 << sizes[1]):
                keep.add((a, (a + b) % (1 << sizes[1]), (a + b) >> sizes[1]))
        out = [x for x in range(1 << total) if tuple(val(x, r) for r in regs) in keep]
    return out


def run(case, ev):
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
    from projectq.cengines._replacer._replacer import NoGateDecompositionError
    from projectq.meta import Control, get_control_count, has_negative_control
    from projectq.ops import ClassicalInstructionGate
    sp, sizes = case["spec"], case["sizes"]
    total = sum(sizes) + len(case["ctl"])
    pos = list(case["order"])
    regs, k = [], 0
    for s in sizes:
        regs.append(pos[k:k + s])
        k += s
    ctrls = [[c, v] for c, v in zip(pos[k:], case["ctl"])]
    act = meaning(case, regs, ctrls)
    support = domain(case, total, regs, ctrls, act)
    if not support:
        raise Skip("no state in the domain")
    if sp[0] == "Barrier":
        want = np.eye(1 << total, dtype=complex)
    elif sp[0] == "StatePrep":
        want = np.eye(1 << total, dtype=complex)
        v = spec.random_state(sp[1], sp[2], sp[3])
        for x in support:
            if all(((x >> c) & 1) == b for c, b in ctrls):
                col = np.zeros(1 << total, dtype=complex)
                for y in range(len(v)):
                    t = x
                    for i, q in enumerate(regs[0]):
                        t |= ((y >> i) & 1) << q
                    col[t] = v[y]
                want[:, x] = col
    else:
        cols = []
        for x in support:
            s = ref.RefState()
            s.ids = list(range(total))
            s.psi = np.zeros(1 << total, dtype=complex)
            s.psi[x] = 1
            act(s)
            cols.append(s.psi)
        want = np.zeros((1 << total, 1 << total), dtype=complex)
        want[:, support] = np.array(cols).T
    want = want[:, support]
    used = 0
    for name, rule in rules().items():
        one_rule(case, name, rule, want, support, regs, ctrls, total, locals_=(
            AutoReplacer, DecompositionRuleSet, InstructionFilter, NoGateDecompositionError, Control,
            get_control_count, has_negative_control, ClassicalInstructionGate), ev=ev) and (used := used + 1)
    if not used:
        raise Skip("no rule accepts the command")
    ev.mark(True)


def one_rule(case, name, rule, want, support, regs, ctrls, total, locals_, ev):
    (AutoReplacer, DecompositionRuleSet, InstructionFilter, NoGateDecompositionError, Control, get_control_count,
     has_negative_control, ClassicalInstructionGate) = locals_
    sp = case["spec"]
    src = build(sp)
    # cheap pre-selection: the rule has to be for a class of the gate or of its inverse
    from projectq.ops import get_inverse
    mro = [c.__name__ for c in type(src).mro()] + [c.__name__ for c in type(get_inverse(src)).mro()]
    if rule.gate_class.__name__ not in mro:
        return False
    if sp[0].startswith("QPE") and rule.gate_class.__name__ == "BasicGate":
        return False        # would pass the gate on, which the model cannot execute
    state = {"stage": 0, "active": False, "gate": None}

    def available(eng, cmd):
        del eng
        if not state["active"] or isinstance(cmd.gate, (ClassicalInstructionGate,)) and sp[0] != "Barrier":
            return True
        if state["stage"] == 0:
            state["key"] = [[q.id for q in r] for r in cmd.qubits]
            state["gate"] = cmd.gate
            if has_negative_control(cmd):
                state["stage"] = 1
            else:
                state["stage"] = 2
            return False
        if state["stage"] == 1 and not has_negative_control(cmd) and cmd.gate is not None \
                and [[q.id for q in r] for r in cmd.qubits] == state["key"]:
            state["stage"] = 2
            return False
        return True
    rs = DecompositionRuleSet(rules=[rule] + [r for r in controlstate() if r.gate_decomposer is not
                                              rule.gate_decomposer])
    c = Choi([total], [AutoReplacer(rs), InstructionFilter(available)], support=support)
    q = list(c.regs[0])
    allocated = []

    def hook(cmd):
        from projectq.ops import AllocateQubitGate, DeallocateQubitGate
        if isinstance(cmd.gate, AllocateQubitGate):
            allocated.append(cmd.qubits[0][0].id)
        elif isinstance(cmd.gate, DeallocateQubitGate):
            i = cmd.qubits[0][0].id
            if i in allocated and c.be.state.value(i) != 0:
                raise Violation("rule %s: helper qubit %d released in state %s" % (name, i, c.be.state.value(i)))
    c.be.hook = hook
    state["active"] = True
    emitted = len(c.be.log)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            with Control(c.eng, [q[i] for i, _ in ctrls], ctrl_state="".join(str(v) for _, v in ctrls)):
                apply(src, sp, regs, q)
            c.eng.flush()
    except NoGateDecompositionError:
        del q
        c.close()
        return False
    del q
    if state["stage"] == 0:
        c.close()
        raise Skip("the gate sends no command of its own")
    state["active"] = False
    n_emitted = len(c.be.log) - emitted
    got = c.matrix()
    c.close()
    if ctrls:
        d = float(np.max(np.abs(got - want)))
    else:
        d = ref.phase_distance(got, want)
    if d > 1e-6:
        raise Violation("rule %s: the emitted commands act as a matrix off by %.3g" % (name, d))
    ev.label("rule " + name)
    ev.label("negative control", any(v == 0 for _, v in ctrls))
    ev.label("controls %d" % len(ctrls))
    ev.label("helper qubits", bool(allocated))
    del n_emitted
    return True


def apply(g, sp, regs, q):
    if sp[0] in ref.NQ:
        g | tuple(q[r[0]] for r in regs)
    elif len(regs) == 1:
        g | [q[i] for i in regs[0]]
    else:
        g | tuple([q[i] for i in r] for r in regs)


TESTS = [
    Test("rules", cases, run, 10000,
         rule="a command for every rule that accepts it, on scattered qubits with 0-4 controls of either value; every "
              "case in which some rule applies is non-trivial"),
    Test("arithmetic", lambda: cases(MATH), run, 1600,
         rule="the same for the arithmetic rules inside their documented preconditions"),
]
