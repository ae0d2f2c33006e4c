"""P13: inverse, merge, identity, equality and command algebra against the matrices."""
import numpy as np
from hypothesis import strategies as st

from vf import prog, ref, spec, stream
from vf.core import Test, Violation
from vf.denote import Choi, spec_matrix

ASSUMPTIONS = ["matrices compared to 1e-7; angles are specified to about 1e-12 by the project",
               "gates given by a numeric matrix are exempt from hashing alike (they compare approximately)"]
TOL = 1e-7


# ------------------------------------------------------------------ specs
@st.composite
def gate_specs(draw):
    """(spec, sizes)"""
    kind = draw(st.sampled_from(["t"] * 10 + ["flip", "cmp", "mul", "addc", "mulmod", "divide"]))
    if kind == "t":
        sp, regs, _ = draw(stream.templates([0, 1, 2], True, False, 0))
        if sp[0] in ("AddQuantum", "SubtractQuantum", "inv:AddQuantum", "inv:SubtractQuantum") and draw(st.booleans()):
            return sp, [1, 1]
        return sp, [len(r) for r in regs]
    if kind == "flip":
        return ["FlipBits", draw(st.integers(-4, 15))], [draw(st.integers(1, 3))]
    if kind == "cmp":
        return ["ComparatorQuantum"], [1, 1, 1]
    if kind == "mul":
        return ["MultiplyQuantum"], [1, 1, draw(st.integers(1, 2))]
    if kind == "divide":
        return ["DivideQuantum"], [1, 1, 1]
    if kind == "addc":
        return [draw(st.sampled_from(["AddConstant", "SubConstant"])), draw(st.integers(-9, 9))], [3]
    k = draw(st.integers(1, 3))
    n = draw(st.integers(2, 1 << k))
    a = draw(st.sampled_from([a for a in range(1, n) if np.gcd(a, n) == 1]))
    return ["MultiplyByConstantModN", a, n], [k]


@st.composite
def variants(draw, sp, sizes):
    """A spec for the same registers: equal, slightly different, or related."""
    how = draw(st.sampled_from(["same", "param", "param", "other", "inv"]))
    name = sp[0]
    if how == "same":
        return sp
    if how == "inv":
        return stream.inverse_spec(sp)
    if how == "other" and name in ref.NQ:
        return [draw(st.sampled_from([g for g in prog.G1 + prog.G2 if ref.NQ[g] == ref.NQ[name]]))]
    if name in ref.PARAM:
        d = draw(st.sampled_from([1e-9, 1e-4, -0.5, 2 * np.pi, 4 * np.pi, -2 * np.pi]))
        return [name, sp[1] + d]
    if name in ("UCRy", "UCRz"):
        a = list(sp[1])
        a[draw(st.integers(0, len(a) - 1))] += draw(st.sampled_from([1e-4, 0.5, 2 * np.pi, 4 * np.pi]))
        return [name, a]
    if name == "Mat":
        return [name, sp[1], draw(st.integers(0, 50)), sp[3]]
    if name == "TE":
        return draw(stream.related_te(sp))
    if name == "QOp":
        t, _, _ = sp[1][0]
        if draw(st.booleans()):
            t = [[i, draw(spec.paulis)] for i, _ in t]
        c = draw(spec.coeff_unit)
        return [name, [[t, c[0], c[1]]]]
    if name in ("FlipBits", "AddConstant", "SubConstant"):
        return [name, sp[1] + draw(st.sampled_from([-1, 1, 8, 2]))]
    if name == "AddConstantModN":
        return [name, (sp[1] + 1) % sp[2], sp[2]]
    if name == "MultiplyByConstantModN":
        return [name, draw(st.sampled_from([a for a in range(1, sp[2]) if np.gcd(a, sp[2]) == 1])), sp[2]]
    return sp


@st.composite
def gate_cases(draw):
    sp, sizes = draw(gate_specs())
    return {"a": sp, "b": draw(variants(sp, sizes)), "sizes": sizes}


def support_of(sp, sizes):
    name = sp[0].replace("inv:", "")
    n = sum(sizes)
    if name in ("AddConstantModN", "MultiplyByConstantModN", "SubConstantModN"):
        return range(min(sp[2], 1 << n))
    if name == "DivideQuantum" and sp[0] == name:
        return [x for x in range(1 << n) if not (x >> 1) & 1 and (x >> 2) & 1]
    if name == "DivideQuantum":
        # results of dividing: remainder below the divisor (=1)
        return [x for x in range(1 << n) if (x >> 2) & 1 and not x & 1]
    return None


def meaning_matrix(sp, sizes):
    pos, regs = 0, []
    for k in sizes:
        regs.append(list(range(pos, pos + k)))
        pos += k
    m = spec_matrix(sp, regs, [], pos) if support_of(sp, sizes) is None else None
    if m is None:
        cols = []
        for x in support_of(sp, sizes):
            s = ref.RefState()
            s.ids = list(range(pos))
            s.psi = np.zeros(1 << pos, dtype=complex)
            s.psi[x] = 1
            spec.act(s, sp, regs)
            cols.append(s.psi)
        m = np.array(cols).T
    return m


def denote(gates, sizes, support=None):
    """Matrix of applying gate objects one after the other with `gate | registers`."""
    c = Choi(sizes, support=support)
    regs = [r if len(r) != 1 else r[0] for r in c.regs]
    for g in gates:
        g | (tuple(regs) if len(regs) > 1 else regs[0])
    del regs
    m = c.matrix()
    c.close()
    return m


def dist(a, b):
    return float(np.max(np.abs(a - b)))


def run_gates(case, ev):
    from projectq.ops import MatrixGate, NotMergeable, get_inverse, is_identity
    sizes, sa, sb = case["sizes"], case["a"], case["b"]
    sup = support_of(sa, sizes)
    a, a2, b = spec.build(sa), spec.build(sa), spec.build(sb)
    ma, mb = meaning_matrix(sa, sizes), meaning_matrix(sb, sizes)
    # the gate object itself
    if dist(denote([a], sizes, sup), ma) > TOL:
        raise Violation("%s applied to registers %s does not act as defined" % (a, sizes))
    if getattr(a, "matrix", None) is not None and sup is None and np.shape(a.matrix) == ma.shape:
        if dist(np.asarray(a.matrix), ma) > TOL:
            raise Violation("matrix attribute of %s is wrong:\n%s" % (a, a.matrix))
        ev.label("matrix attribute")
    # inverse
    inv = get_inverse(a)
    ident = np.eye(ma.shape[0])[:, list(sup) if sup is not None else list(range(ma.shape[0]))]
    if dist(denote([a, inv], sizes, sup), ident) > TOL:
        raise Violation("%s followed by its inverse %s is not the identity" % (a, inv))
    if sup is None and dist(denote([inv, a], sizes), ident) > TOL:
        raise Violation("the inverse %s followed by %s is not the identity" % (inv, a))
    if getattr(inv, "matrix", None) is not None and np.shape(inv.matrix) == ma.shape:
        if dist(np.asarray(inv.matrix), ma.conj().T) > TOL:
            raise Violation("matrix attribute of the inverse of %s is wrong:\n%s" % (a, inv.matrix))
    inv2 = get_inverse(inv)
    if dist(denote([inv2], sizes, sup), ma) > TOL:
        raise Violation("the inverse of the inverse of %s is %s, which acts differently" % (a, inv2))
    # identity
    for g, m in ((a, ma), (b, mb)):
        if is_identity(g):
            if dist(m, np.eye(m.shape[0])[:, :m.shape[1]]) > TOL:
                raise Violation("%s claims to be the identity" % g)
            ev.label("identity")
    # angle normalisation
    if sa[0] in ref.PARAM:
        top = (2 if sa[0] in ("R", "Ph") else 4) * np.pi
        if not 0 <= a.angle < top:
            raise Violation("angle %r of %s is outside [0, %g)" % (a.angle, a, top))
    if sa[0] in ("UCRy", "UCRz") and not all(0 <= x < 4 * np.pi for x in a.angles):
        raise Violation("angles %r outside [0, 4 pi)" % (a.angles,))
    # merging
    try:
        merged = a.get_merged(b)
    except NotMergeable:
        merged = None
    if merged is not None:
        ev.label("merged")
        if dist(denote([merged], sizes, sup), denote([a, b], sizes, sup)) > TOL:
            raise Violation("%s merged with %s gives %s, which acts differently" % (a, b, merged))
    if sa[0] == sb[0] and sa[0] in ref.PARAM and merged is None:
        raise Violation("%s and %s were not mergeable" % (a, b))
    # equality and hashing
    if not (a == a2) or a != a2:
        same_or_te(sa, a)
    hashes(a, a2, MatrixGate)
    for x, y in ((a, b), (b, a)):
        if x == y:
            ev.label("equal pair")
            if mb.shape != ma.shape or dist(ma, mb) > TOL:
                raise Violation("%s == %s although they act differently" % (x, y))
            if x != y:
                raise Violation("%s == and != %s" % (x, y))
            hashes(x, y, MatrixGate)
    ev.label("gate " + sa[0])
    ev.mark(True)


def same_or_te(sp, x):
    """Time evolutions never compare equal (documented: their parameters are floating point sums)."""
    if sp[0].replace("inv:", "") != "TE":
        raise Violation("two constructions of %s are not equal" % x)


def hashes(x, y, matrix_gate):
    try:
        same = hash(x) == hash(y)
    except TypeError as e:
        raise Violation("%s: %s" % (x, e)) from None
    if type(x) is type(y) and not isinstance(x, matrix_gate) and not same:
        raise Violation("equal gates %s and %s hash differently" % (x, y))


# ------------------------------------------------------------------ commands
IDS = [3, 0, 7, 4, 1]


@st.composite
def command_cases(draw):
    sp, regs, ctrls = draw(stream.templates(IDS, True, True, 2))
    used = {q for r in regs for q in r} | {c for c, _ in ctrls}
    extra = [q for q in IDS if q not in used]
    add = [[q, draw(st.integers(0, 1))] for q in draw(st.permutations(extra))[:draw(st.integers(0, 2))]]
    sp2 = draw(st.one_of(st.just(sp), variants(sp, None)))
    mut = draw(st.sampled_from(["none", "none", "ctrl", "order", "tag", "target", "dropctl"]))
    return {"spec": sp, "regs": regs, "ctrls": list(draw(st.permutations(ctrls))), "add": add,
            "how": draw(st.sampled_from(["str", "int", "list"])),
            "tags": draw(st.lists(st.integers(1, 3), max_size=2)), "spec2": sp2, "mut": mut,
            "tags2": draw(st.lists(st.integers(1, 3), max_size=2))}


def state_arg(vals, how):
    from projectq.ops import CtrlAll
    if how == "int":
        return sum(v << i for i, v in enumerate(vals))
    if how == "list" and len(set(vals)) == 1:
        return CtrlAll.One if vals[0] else CtrlAll.Zero
    return "".join(map(str, vals))


def view(cmd):
    return ([[q.id for q in r] for r in cmd.qubits],
            sorted([q.id, int(v)] for q, v in zip(cmd.control_qubits, str(cmd.control_state))),
            [t.v for t in cmd.tags])


def apply_view(cmd, n_ids):
    """Matrix of a command over sorted IDS."""
    from vf import gates

    def f(s):
        s.ids = list(IDS)
        gates.apply_command(s, cmd)
    order = list(IDS)
    cols = []
    d = 1 << len(order)
    for x in range(d):
        s = ref.RefState()
        s.ids = list(order)
        s.psi = np.zeros(d, dtype=complex)
        s.psi[x] = 1
        gates.apply_command(s, cmd)
        cols.append(s.psi)
    return np.array(cols).T


def same_regs(got, want, sp):
    if got == want:
        return True
    # interchangeable registers may be stored in another order
    return sp[0].replace("inv:", "") in ("Swap", "SqrtSwap", "Rxx", "Ryy", "Rzz") and sorted(got) == sorted(want)


def run_commands(case, ev):
    from copy import deepcopy
    from projectq import MainEngine
    from projectq.ops import Command, NotMergeable
    from projectq.types import WeakQubitRef
    from vf.refbackend import make
    eng = MainEngine(make()(), [], verbose=True)
    sp, regs, ctrls = case["spec"], case["regs"], case["ctrls"]

    def w(i):
        return WeakQubitRef(eng, i)

    def mk(sp, regs, ctrls, tags, how):
        return Command(eng, spec.build(sp), tuple([w(i) for i in r] for r in regs), [w(c) for c, _ in ctrls],
                       tags=[stream.Tag(t) for t in tags], control_state=state_arg([v for _, v in ctrls], how))

    c = mk(sp, regs, ctrls, case["tags"], case["how"])
    want = (regs, sorted(ctrls), case["tags"])

    def chk(cmd, want, what):
        v = view(cmd)
        if v[1:] != want[1:] or not same_regs(v[0], want[0], sp):
            raise Violation("%s: qubits/controls/annotations %s, expected %s (%s)" % (what, v, want, cmd))
        ids = [q.id for q in cmd.control_qubits]
        if ids != sorted(ids):
            raise Violation("%s: control qubits not in canonical order: %s" % (what, ids))
        if [[q.id for q in r] for r in cmd.all_qubits] != [ids] + v[0]:
            raise Violation("%s: all_qubits disagrees with qubits and controls" % what)
        if cmd.engine is not eng or any(q.engine is not eng for r in cmd.all_qubits for q in r):
            raise Violation("%s: engine changed" % what)
    chk(c, want, "new command")
    if case["add"]:
        before = deepcopy(c)
        c.add_control_qubits([w(q) for q, _ in case["add"]], state=state_arg([v for _, v in case["add"]], case["how"]))
        chk(before, want, "copy after adding controls to the original")
        want = (regs, sorted(ctrls + case["add"]), case["tags"])
        chk(c, want, "after adding controls")
    d = deepcopy(c)
    chk(d, want, "copy")
    if not d == c or d != c:
        same_or_te(sp, c)
    i = c.get_inverse()
    chk(i, want, "inverse")
    ma = apply_view(c, IDS)
    want_m = np.eye(len(ma), dtype=complex)

    def f(s):
        spec.act(s, sp, regs, ctrls + case["add"])
    cols = []
    sup = None
    if sp[0].replace("inv:", "") in ("AddConstantModN",):
        sup = sp[2]
    for x in range(len(ma)):
        s = ref.RefState()
        s.ids = list(IDS)
        s.psi = want_m[:, x].copy()
        f(s)
        cols.append(s.psi)
    if dist(ma, np.array(cols).T) > TOL:
        raise Violation("%s does not act as specified" % c)
    if dist(apply_view(i, IDS) @ ma, want_m) > TOL:
        raise Violation("inverse command %s does not undo %s" % (i, c))
    # independence of copy and inverse
    d.tags.append(stream.Tag(99))
    i.tags.append(stream.Tag(98))
    free = [q for q in IDS if q not in {x.id for r in c.all_qubits for x in r}]
    if free:
        d.add_control_qubits([w(free[0])], state="0")
        i.add_control_qubits([w(free[0])], state="1")
    chk(c, want, "original after changing its copy and its inverse")
    if d == c:
        raise Violation("commands with different annotations or controls compare equal")
    # comparison and merging with a related command
    regs2, ctrls2, tags2 = [list(r) for r in regs], [list(x) for x in ctrls + case["add"]], list(case["tags"])
    mut = case["mut"]
    differs = sp != case["spec2"]
    if mut == "ctrl" and ctrls2:
        ctrls2[0][1] ^= 1
        differs = True
    elif mut == "order":
        ctrls2.reverse()
    elif mut == "tag":
        tags2 = case["tags2"]
        differs = differs or tags2 != case["tags"]
    elif mut == "target" and free:
        for r in regs2:
            if r:
                r[0] = free[-1]
                break
        differs = True
    elif mut == "dropctl" and ctrls2:
        ctrls2.pop()
        differs = True
    e = mk(case["spec2"], regs2, ctrls2, tags2, "str")
    me = apply_view(e, IDS)
    if (c == e) != (not (c != e)):
        raise Violation("== and != disagree")
    if c == e:
        ev.label("equal")
        if dist(me, ma) > TOL or e.tags != c.tags:
            raise Violation("%s == %s although they differ (%s, %s)" % (c, e, view(c), view(e)))
    elif not differs and sp[0].replace("inv:", "") != "TE":
        raise Violation("%s and %s describe the same command but compare different" % (c, e))
    try:
        m = c.get_merged(e)
    except NotMergeable:
        m = None
    if m is not None:
        ev.label("merged")
        chk(m, want, "merged command")
        if dist(apply_view(m, IDS), me @ ma) > TOL:
            raise Violation("%s merged with %s gives %s, which acts differently" % (c, e, m))
        if tags2 != case["tags"]:
            raise Violation("commands with different annotations were merged")
    chk(c, want, "original after merging")
    ev.label("negative control", any(v == 0 for _, v in ctrls + case["add"]))
    ev.label("mutation " + mut)
    ev.mark(True)


# ------------------------------------------------------------------ wrappers
@st.composite
def meta_specs(draw, depth=2):
    kind = draw(st.sampled_from(["base", "C", "C", "inv", "Tensor"])) if depth else "base"
    if kind == "base":
        name = draw(st.sampled_from(prog.G1 + prog.G1P + ["Swap", "Rzz"]))
        return [name, prog.params_of(draw, name)]
    inner = draw(meta_specs(depth - 1))
    if kind == "Tensor":
        if inner[0] in ("C", "Tensor", "Swap", "Rzz") or inner[0] == "inv":
            return inner
        return ["Tensor", inner]
    if kind == "C":
        if tensor_in(inner):
            return inner
        return ["C", draw(st.integers(1, 2)), inner]
    return ["inv", inner]


def tensor_in(m):
    return m[0] == "Tensor" or m[0] == "inv" and tensor_in(m[1])


def build_meta(m):
    import projectq.ops as o
    if m[0] == "C":
        return o.C(build_meta(m[2]), m[1])
    if m[0] == "Tensor":
        return o.Tensor(build_meta(m[1]))
    if m[0] == "inv":
        return o.get_inverse(build_meta(m[1]))
    return prog.pq_gate(m[0], m[1])


def meta_matrix(m):
    """(matrix with the targets least significant and controls above, controls, targets, tensor)"""
    if m[0] == "C":
        u, c, t, tens = meta_matrix(m[2])
        return u, c + m[1], t, tens
    if m[0] == "Tensor":
        u, c, t, _ = meta_matrix(m[1])
        return u, c, t, True
    if m[0] == "inv":
        u, c, t, tens = meta_matrix(m[1])
        return u.conj().T, c, t, tens
    return ref.matrix(m[0], m[1]), 0, ref.NQ[m[0]], False


@st.composite
def meta_cases(draw):
    a = draw(meta_specs(3))
    return {"a": a, "b": draw(st.one_of(st.just(a), meta_specs(2))), "split": draw(st.integers(0, 2)),
            "tensor": draw(st.integers(1, 3))}


def apply_meta(m, case):
    u, c, t, tens = meta_matrix(m)
    n = (case["tensor"] if tens else t) + c
    ch = Choi([n])
    q = list(ch.regs[0])
    g = build_meta(m)
    want = np.eye(1 << n, dtype=complex)

    def f(s):
        for tt in ([[c + i] for i in range(case["tensor"])] if tens else [list(range(c, c + t))]):
            s.apply(u, tt, list(range(c)))
    want = ref.unitary_of(f, n)
    if tens:
        g | q
    elif c == 0:
        g | tuple(q)
    elif case["split"] == 0:
        g | (q[:c], *q[c:])
    elif case["split"] == 1:
        g | tuple(q)
    else:
        g | (q[0], q[1:c], *q[c:]) if c > 1 else g | tuple(q)
    del q
    got = ch.matrix()
    ch.close()
    return got, want, g


def run_meta(case, ev):
    got, want, a = apply_meta(case["a"], case)
    if dist(got, want) > TOL:
        raise Violation("%s does not act as the wrapped gate says" % a)
    inv, winv, g = apply_meta(["inv", case["a"]], case)
    if dist(inv @ got, np.eye(len(got))) > TOL:
        raise Violation("%s does not undo %s" % (g, a))
    b = build_meta(case["b"])
    a2 = build_meta(case["a"])
    if not a == a2:
        raise Violation("two constructions of %s differ" % a)
    hashes(a, a2, ())
    if a == b:
        ev.label("equal pair", case["a"] != case["b"])
        ua, ca, ta, na = meta_matrix(case["a"])
        ub, cb, tb, nb = meta_matrix(case["b"])
        if (ca, ta, na) != (cb, tb, nb) or dist(ua, ub) > TOL:
            raise Violation("%s == %s although they act differently" % (a, b))
        hashes(a, b, ())
    ev.label("wrapper " + case["a"][0])
    ev.mark(case["a"][0] in ("C", "Tensor", "inv"))


# ------------------------------------------------------------------ parametrised high-level gates
def run_high(case, ev):
    import projectq.ops as o

    def alg(i):
        def f(eng, q):
            for _ in range(i + 1):
                o.All(o.H) | q

        def orc(eng, q, a):
            o.X | a
        return (f, orc)
    fs = [alg(i) for i in range(4)]

    def mk(i):
        k = case["kind"]
        if k == "QPE":
            return o.QPE([o.Rz(0.5), o.Rz(0.7), o.X, o.R(0.5)][i])
        if k == "QAA":
            return o.QAA(fs[i][0], fs[i // 2][1])
        if k == "StatePreparation":
            return o.StatePreparation(list(spec.random_state(i, 2)))
        return spec.qop([[[[0, "XYZX"[i]], [1, "ZZXX"[i]]], 1.0, 0]])
    a, b = mk(case["a"]), mk(case["b"])
    same = case["a"] == case["b"]
    if a == b and not same:
        raise Violation("%s gates with different parameters %d, %d compare equal" % (case["kind"], case["a"], case["b"]))
    if o.get_inverse(a) == o.get_inverse(b) and not same:
        raise Violation("inverses of %s gates with different parameters compare equal" % case["kind"])
    if a == b:
        hashes(a, b, ())
    ev.label(case["kind"])
    ev.mark(True)


def high_fixed():
    return [{"kind": k, "a": i, "b": j} for k in ("QPE", "QAA", "StatePreparation", "QOp") for i in range(4)
            for j in range(4)]


TESTS = [
    Test("gates", gate_cases, run_gates, 6000,
         rule="pairs of gates (equal, inverse, slightly different parameters) on matching registers: action, matrix "
              "attribute, inverse, merge, identity, equality and hash; every case is non-trivial"),
    Test("commands", command_cases, run_commands, 4000,
         rule="commands with unsorted controls of any value, annotations, related second command: construction, copy, "
              "inverse, merge and equality; every case is non-trivial"),
    Test("wrappers", meta_cases, run_meta, 1500,
         rule="nested controlled / tensor / inverse wrappers: action on any grouping of registers, inverse, equality; "
              "non-trivial = at least one wrapper"),
    Test("high-level", None, run_high, 1, fixed=high_fixed,
         rule="all pairs of four differently parametrised high-level gates of each kind: equality implies same action"),
]
