"""Nested sections over rich gates on a fixed set of qubits: generator, execution, matrix meaning."""
import numpy as np
from hypothesis import strategies as st

from . import ref, spec, stream


@st.composite
def trees(draw, ids, depth=3, kinds=("ctl", "dag", "loop", "cu"), width=(1, 3), neg=True):
    out = []
    for _ in range(draw(st.integers(*width))):
        out.append(draw(node(ids, depth, kinds, neg)))
    return out


@st.composite
def node(draw, ids, depth, kinds, neg):
    kind = draw(st.sampled_from(["op", "op"] + list(kinds))) if depth else "op"
    if kind == "ctl":
        if len(ids) < 2:
            kind = "op"
        else:
            k = draw(st.integers(1, min(2, len(ids) - 1)))
            perm = list(draw(st.permutations(ids)))
            cs = [[c, draw(st.sampled_from([1, 0, 1])) if neg else 1] for c in perm[:k]]
            return ["ctl", cs, draw(st.integers(0, 2)), draw(trees(perm[k:], depth - 1, kinds, (1, 2), neg))]
    if kind == "dag":
        return ["dag", draw(trees(ids, depth - 1, kinds, (1, 3), neg))]
    if kind == "loop":
        return ["loop", draw(st.integers(0, 3)), draw(trees(ids, depth - 1, kinds, (1, 2), neg))]
    if kind == "cu":
        return ["cu", draw(trees(ids, depth - 1, kinds, (1, 2), neg)), draw(trees(ids, depth - 1, kinds, (0, 2), neg)),
                draw(st.sampled_from(["u", "u", "c"]))]
    t = draw(stream.templates(list(ids), True, neg, 0))
    if draw(st.integers(0, 9)) == 0:
        # a pure phase, which a control section turns into a relative one
        t = draw(st.sampled_from([[["TE", 0.4, [[[], 0.7, 0]]], [[ids[0]]], []],
                                  [["QOp", [[[], 0.0, 1.0]]], [[ids[0]]], []],
                                  [["Ph", 0.6], [[ids[0]]], []]]))
    return ["op", t[0], t[1]]


def op_matrix(x, n):
    regs = x[2]

    def f(s):
        if x[1][0] == "QOp" and x[1][1][0][0] == []:
            c = complex(*x[1][1][0][1:])
            s.apply(c * np.eye(2), [regs[0][0]])
        elif x[1][0] == "TE" and x[1][2][0][0] == [] and len(x[1][2]) == 1:
            s.apply(np.exp(-1j * x[1][1] * x[1][2][0][1]) * np.eye(2), [regs[0][0]])
        else:
            spec.act(s, x[1], regs)
    return ref.unitary_of(f, n)


def matrix(xs, n, ctrls=()):
    m = np.eye(1 << n, dtype=complex)
    for x in xs:
        m = node_matrix(x, n, ctrls) @ m
    return m


def controlled(u, n, ctrls):
    idx = np.arange(1 << n)
    ok = np.ones(1 << n, dtype=bool)
    for c, v in ctrls:
        ok &= ((idx >> c) & 1) == v
    out = np.eye(1 << n, dtype=complex)
    out[np.ix_(ok, ok)] = u[np.ix_(ok, ok)]
    return out


def node_matrix(x, n, ctrls):
    """Matrix of a node under conditions on qubits the node itself does not touch."""
    k = x[0]
    if k == "op":
        u = op_matrix(x, n)
        return controlled(u, n, ctrls) if ctrls else u
    if k == "ctl":
        return matrix(x[3], n, list(ctrls) + [tuple(c) for c in x[1]])
    if k == "dag":
        return matrix(x[1], n, ctrls).conj().T
    if k == "loop":
        return np.linalg.matrix_power(matrix(x[2], n, ctrls), x[1])
    if k == "cu":
        c = matrix(x[1], n, ctrls)
        return c.conj().T @ matrix(x[2], n, ctrls) @ c
    raise KeyError(k)


def apply_op(sp, regs, q):
    g = spec.build(sp)
    if sp[0] in ref.NQ:
        t = tuple(q[r[0]] for r in regs)
        g | t
    elif len(regs) == 1:
        g | [q[i] for i in regs[0]]
    else:
        g | tuple([q[i] for i in r] for r in regs)


def run(eng, xs, q):
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
    from projectq.ops import CtrlAll
    for x in xs:
        k = x[0]
        if k == "op":
            apply_op(x[1], x[2], q)
        elif k == "ctl":
            vals = [v for _, v in x[1]]
            if x[2] == 0:
                state = "".join(map(str, vals))
            elif x[2] == 1:
                state = sum(v << i for i, v in enumerate(vals))
            else:
                state = CtrlAll.One if all(vals) else CtrlAll.Zero if not any(vals) else "".join(map(str, vals))
            with Control(eng, [q[c] for c, _ in x[1]], ctrl_state=state):
                run(eng, x[3], q)
        elif k == "dag":
            with Dagger(eng):
                run(eng, x[1], q)
        elif k == "loop":
            with Loop(eng, x[1]):
                run(eng, x[2], q)
        elif k == "cu":
            with Compute(eng):
                run(eng, x[1], q)
            run(eng, x[2], q)
            if x[3] == "u":
                Uncompute(eng)
            else:
                with CustomUncompute(eng):
                    with Dagger(eng):
                        run(eng, x[1], q)


def size(xs):
    """Number of operations executed."""
    n = 0
    for x in xs:
        if x[0] == "op":
            n += 1
        elif x[0] == "ctl":
            n += size(x[3])
        elif x[0] == "dag":
            n += size(x[1])
        elif x[0] == "loop":
            n += x[1] * size(x[2])
        else:
            n += 2 * size(x[1]) + size(x[2])
    return n


def kinds_in(xs):
    out = set()
    for x in xs:
        out.add(x[0])
        for y in x[1:]:
            if isinstance(y, list) and x[0] != "op":
                out |= kinds_in([z for z in y if isinstance(z, list) and z and isinstance(z[0], str)])
    return out
