"""P03: observables and time evolution agree with exact operator algebra."""
import numpy as np
from hypothesis import strategies as st

from vf import ref, spec, wide
from vf.core import Test, Violation
from vf.denote import Choi, expand
from vf.lab import Session

ASSUMPTIONS = ["at most 6 qubits, 5 terms, |time| * norm below about 600; compared to 1e-6 (1e-7 for expectation values)",
               "time evolution of non-commuting terms is only required to be exact natively; compiling it must be exact or refused"]
COEFF = st.one_of(st.sampled_from([1.0, -1.0, 0.5, 2.0, 0.0, 1, -2]), st.floats(-3, 3).map(lambda x: round(x, 6)))
TIMES = st.one_of(st.sampled_from([0, 1, -1, 2, 0.0, 0.5, 3.141592653589793, 23.5, -41.0, 1e-6]), st.floats(-4, 4).map(lambda x: round(x, 6)))


@st.composite
def operator(draw, n, kind="real", most=5):
    """[[term, re, im]...] with distinct terms on indices below n."""
    out, seen = [], set()
    for _ in range(draw(st.integers(0 if kind != "te" or draw(st.integers(0, 5)) == 0 else 1, most))):
        t = draw(spec.pauli_terms(n)) if n else []
        key = tuple(map(tuple, t))
        if key in seen:
            continue
        seen.add(key)
        c = draw(COEFF)
        out.append([t, c, draw(COEFF) if kind == "complex" else 0])
    return out


def build(terms, how):
    """how: plain | complex (complex numbers with zero imaginary part) | product (built by multiplying) | text."""
    from projectq.ops import QubitOperator
    out = QubitOperator()
    for t, re, im in terms:
        c = complex(re, im) if im else re
        key = tuple((i, p) for i, p in t)
        if how == "complex":
            out += QubitOperator(key, complex(c))
        elif how == "text":
            out += QubitOperator(" ".join("%s%d" % (p, i) for i, p in t) if t else (), c)
        elif how == "product":
            x = QubitOperator((), c)
            for i, p in reversed(t):
                # p = -i * q * r for the two other Paulis
                q, r = {"X": "YZ", "Y": "ZX", "Z": "XY"}[p]
                x = (QubitOperator(((i, q),)) * QubitOperator(((i, r),)) * -1j) * x
            out += x
        else:
            out += QubitOperator(key, c)
    return out


def full(terms, names, ids):
    """Matrix of the operator on all qubits `ids`, index k acting on names[k]."""
    pos = {q: i for i, q in enumerate(ids)}
    return ref.pauli_sum([(tuple((pos[names[i]], p) for i, p in t), complex(re, im)) for t, re, im in terms], len(ids))


@st.composite
def cases(draw, small=False):
    n = draw(st.integers(1, 4 if small else 6))
    names = list(range(n))
    ops = [["set", list(draw(st.permutations(names))), draw(st.integers(0, 9999)), draw(st.sampled_from(spec.STATE_KINDS))]]
    mapper = draw(st.sampled_from(["none", "none", "opt", "manual"]))
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["exp"] * 3 + ["op"] * 2 + ["te"] * 4 + ["gate"] * 3 + ["h", "bad"]))
        perm = list(draw(st.permutations(names)))
        how = draw(st.sampled_from(["plain", "plain", "complex", "product", "text"]))
        if k in ("exp", "op"):
            reg = perm[:draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, n))]
            ops.append([k, draw(operator(len(reg), "complex" if k == "op" else "real")), reg, how])
        elif k == "te":
            reg = perm[:draw(st.integers(1, n))]
            rest = perm[len(reg):]
            ctrls = [[q, draw(st.integers(0, 3)) > 0] for q in rest[:draw(st.integers(0, 2))]]
            ops.append([k, draw(operator(len(reg), "te")), draw(TIMES), reg, ctrls, how,
                        draw(st.sampled_from(["go", "go", "inv", "dagger", "there and back"]))])
        elif k == "gate":
            reg = perm[:draw(st.integers(1, min(n, 5)))]
            rest = perm[len(reg):]
            ctrls = [[q, draw(st.integers(0, 3)) > 0] for q in rest[:draw(st.integers(0, 1))]]
            c = draw(st.one_of(spec.coeff_unit, st.floats(0, 6.28).map(lambda a: [float(np.cos(a)), float(np.sin(a))])))
            ops.append([k, [[draw(spec.pauli_terms(len(reg))), c[0], c[1]]], reg, ctrls,
                        draw(st.sampled_from(["go", "go", "inv", "dagger", "there and back"]))])
        elif k == "h":
            ops.append(["h", perm[0]])
        else:
            ops.append(["bad", draw(st.sampled_from(["exp-wide", "op-wide", "te-wide", "gate-wide", "exp-unknown", "op-unknown",
                                                     "exp-pending", "gate-norm", "gate-sum", "te-complex"])),
                        perm, draw(st.integers(0, 5))])
    return {"n": n, "ops": ops, "mapper": mapper, "fusion": draw(st.booleans()), "seed": draw(st.integers(0, 1000))}


def with_controls(t, gate, reg, ctrls, mode):
    from projectq.meta import Control, Dagger
    from projectq.ops import get_inverse
    cs = [q for q, _ in ctrls]

    def go(g):
        with Control(t.eng, t.reg(cs), ctrl_state="".join("1" if v else "0" for _, v in ctrls) if ctrls else None):
            g | t.reg(reg)
    if mode in ("go", "there and back"):
        go(gate)
    if mode in ("inv", "there and back"):
        go(get_inverse(gate))
    if mode == "dagger":
        with Dagger(t.eng):
            go(gate)


def run(case, ev):
    from projectq.ops import H, QubitOperator, TimeEvolution
    from projectq.types import WeakQubitRef
    t = Session(case, controls=True)
    sim, s = t.sim, t.s
    n = informative = 0
    try:
        for x in case["ops"]:
            k = x[0]
            t.eng.flush()
            ids = s.ids
            if k == "set":
                v = spec.random_state(x[2], len(x[1]), x[3])
                sim.set_wavefunction([complex(a) for a in v], t.reg(x[1]))
                t.wave(v, x[1])
            elif k == "h":
                H | t.q[x[1]]
                s.apply(ref.matrix("H", []), [x[1]])
            elif k == "exp":
                got = sim.get_expectation_value(build(x[1], x[3]), t.reg(x[2]))
                want = np.vdot(s.psi, full(x[1], x[2], ids) @ s.psi).real
                if not abs(got - want) < 1e-7:
                    raise Violation("expectation of %s on %s is %.9g, reported %s" % (x[1], x[2], want, got))
                informative += len(x[1]) > 0
            elif k == "op":
                sim.apply_qubit_operator(build(x[1], x[3]), t.reg(x[2]))
                s.psi = full(x[1], x[2], ids) @ s.psi
                t.check(str(x))
                nrm = np.linalg.norm(s.psi)
                informative += len(x[1]) > 0
                # go on from a normalised state
                v = s.psi / nrm if nrm > 1e-3 else spec.random_state(7, len(ids))
                sim.set_wavefunction([complex(a) for a in v], t.reg(ids))
                s.psi = np.array(v, dtype=complex)
            elif k == "te":
                with_controls(t, TimeEvolution(x[2], build(x[1], x[5])), x[3], x[4], x[6])
                u = ref.expm_herm(spec.qop_matrix(x[1], len(x[3])), x[2])
                u = u @ u.conj().T if x[6] == "there and back" else u if x[6] == "go" else u.conj().T
                s.apply(u, x[3], [q for q, _ in x[4]], [int(v) for _, v in x[4]])
                informative += len(x[1]) > 0 and x[2] != 0
            elif k == "gate":
                with_controls(t, build(x[1], "plain"), x[2], x[3], x[4])
                u = spec.qop_matrix(x[1], len(x[2]))
                u = u @ u.conj().T if x[4] == "there and back" else u if x[4] == "go" else u.conj().T
                s.apply(u, x[2], [q for q, _ in x[3]], [int(v) for _, v in x[3]])
                informative += 1
            else:
                reg = t.reg(x[2])
                m = len(reg)
                wide = QubitOperator(((0, "X"), (m + x[3], "Z"))) + QubitOperator(((0, "Y"),), 0.5)
                one = QubitOperator(((m + x[3], "Y"),))
                ghost = WeakQubitRef(t.eng, 4243)
                q = None
                if x[1] == "exp-pending" and t.lazy:
                    q = t.eng.allocate_qubit()
                call = {"exp-wide": lambda: sim.get_expectation_value(wide, reg),
                        "op-wide": lambda: sim.apply_qubit_operator(wide, reg),
                        "te-wide": lambda: TimeEvolution(1.0, wide) | reg,
                        "gate-wide": lambda: one | reg,
                        "exp-unknown": lambda: sim.get_expectation_value(QubitOperator(((m, "Z"),)), reg + [ghost]),
                        "op-unknown": lambda: sim.apply_qubit_operator(QubitOperator(((m, "X"),)), reg + [ghost]),
                        "exp-pending": (lambda: sim.get_expectation_value(QubitOperator(((0, "X"),)), list(q))) if q is not None else None,
                        "gate-norm": lambda: QubitOperator(((0, "X"),), 0.5 + x[3]) | reg,
                        "gate-sum": lambda: (QubitOperator(((0, "X"),), 1.0) + QubitOperator(((0, "Z"),), x[3])) | reg,
                        "te-complex": lambda: TimeEvolution(1.0, QubitOperator(((0, "X"),), 1 + 1j)) | reg}[x[1]]
                if call is not None:
                    try:
                        got = call()
                    except Exception:
                        ev.label("rejected")
                    else:
                        raise Violation("%s: accepted (returned %r)" % (x[1], got))
                if q is not None:
                    q[0].engine.deallocate_qubit(q[0])
                del q, reg
            t.check(str(x))
            n += 1
    finally:
        t.close()
    ev.label("mapped", t.mapper is not None)
    ev.mark(informative >= 1)


# ------------------------------------------------------------------ compiled
@st.composite
def compiled_cases(draw):
    n = draw(st.sampled_from([3, 4, 4, 2, 1]))
    perm = list(draw(st.permutations(range(n))))
    k = draw(st.sampled_from([n] * 2 + list(range(1, n + 1))))
    reg, rest = perm[:k], perm[k:]
    ctrls = [[q, draw(st.integers(0, 3)) > 0] for q in rest[:draw(st.integers(0, 2))]]
    if draw(st.integers(0, 5)) == 5:
        c = draw(spec.coeff_unit)
        what = ["QOp", [[draw(spec.pauli_terms(k)), c[0], c[1]]]]
    else:
        near = k > 1 and draw(st.booleans())
        ham = draw(spec.nearly_commuting(k, COEFF)) if near else draw(operator(k, "te", 4))
        if not near and draw(st.integers(0, 2)) > 0 and ham:
            # products of a few generators and strings of one letter commute often
            p = draw(spec.paulis)
            ham = [[[[i, p] for i, _ in t], c, 0] for t, c, _ in ham]
            seen, out = set(), []
            for x in ham:
                if str(x[0]) not in seen:
                    seen.add(str(x[0]))
                    out.append(x)
            ham = out
            if k >= 2 and draw(st.integers(0, 3)) == 0:
                ham = [[[[0, "X"], [1, "X"]], draw(COEFF), 0], [[[0, "Y"], [1, "Y"]], draw(COEFF), 0],
                       [[[0, "Z"], [1, "Z"]], draw(COEFF), 0]][:draw(st.integers(1, 3))]
        what = ["TE", draw(TIMES), ham]
    return {"n": n, "spec": what, "reg": reg, "ctrls": ctrls, "inv": draw(st.booleans()),
            "twoq": draw(st.sampled_from(["cx", "cz", "any"])), "opt": draw(st.booleans())}


def run_compiled(case, ev):
    import projectq.setups.decompositions as d
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer
    from projectq.cengines._replacer import NoGateDecompositionError
    from projectq.meta import Control, get_control_count
    from projectq.ops import QubitOperator, TimeEvolution, get_inverse

    def available(cmd):
        g = cmd.gate
        if isinstance(g, (QubitOperator, TimeEvolution)):
            return False
        nc = get_control_count(cmd)
        if nc == 0:
            return sum(len(r) for r in cmd.qubits) == 1 or case["twoq"] == "any"
        return nc == 1 and (case["twoq"] == "any" or str(g) == {"cx": "X", "cz": "Z"}[case["twoq"]]) and \
            set(cmd.control_state) == {"1"}
    eng = [AutoReplacer(DecompositionRuleSet(modules=[d]))] + ([LocalOptimizer(4)] if case["opt"] else [])
    c = Choi([1] * case["n"], eng, available=available)
    sp, reg = case["spec"], case["reg"]
    q = [r[0] for r in c.regs]
    gate = spec.build(sp)
    if case["inv"]:
        gate = get_inverse(gate)
    terms = sp[-1]
    mats = [spec.qop_matrix([x], len(reg)) * (1 if x[1] else 0) for x in terms] if sp[0] == "TE" else []
    commute = all(np.max(np.abs(a @ b - b @ a)) < 1e-9 for a in mats for b in mats)
    try:
        try:
            with Control(c.eng, [q[i] for i, _ in case["ctrls"]],
                         ctrl_state="".join(str(int(v)) for _, v in case["ctrls"]) or None):
                gate | [q[i] for i in reg]
            got = c.matrix()
        except NoGateDecompositionError as e:
            # a target with CZ only may be refused: the rule for CNOT that comes first leads to Rxx
            if commute and case["twoq"] != "cz":
                raise Violation("no decomposition found for commuting terms: %s" % e) from None
            ev.label("refused")
            ev.mark(True)
            return
        u = spec.meaning(sp, [len(reg)])[1]
        want = expand(u.conj().T if case["inv"] else u, case["n"], reg, [[i, int(v)] for i, v in case["ctrls"]])
        dist = float(np.max(np.abs(got - want)))
        if not dist < 1e-6:
            raise Violation("the compiled %s differs from its matrix by %.3g (up to phase %.3g)" % (
                sp, dist, ref.phase_distance(got, want)))
    finally:
        del q
        c.close()
    ev.label("several terms", len(terms) > 1)
    ev.label("controlled", bool(case["ctrls"]))
    ev.mark(sum(len(t[0]) for t in terms) >= 2)


RULE = ("expectation values, operator applications, (controlled, inverted) time evolutions and Pauli gates and invalid calls on "
        "random states against dense matrices; non-trivial = at least one non-empty operator")
TESTS = [
    Test("cpp", cases, run, 5000, rule=RULE),
    Test("py", lambda: cases(small=True), run, 1400, rule=RULE + " (pure-Python kernel)", kernel="py"),
    Test("compiled", compiled_cases, run_compiled, 5000,
         rule="time evolutions and Pauli gates compiled to elementary gates vs their matrix on all basis states; "
              "non-trivial = at least two Pauli factors or a refusal"),
]

TESTS.append(Test("wide", lambda: wide.cases("P03"), wide.run, 160, chunk=15, rule=wide.RULE))
