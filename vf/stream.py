"""Streams of commands on numbered (physical) qubits: generator, delivery, reference."""
from hypothesis import strategies as st

from . import prog, ref, spec
from .core import Violation


class Tag:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Tag) and self.v == other.v

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(("vf-tag", self.v))

    def __repr__(self):
        return "Tag(%r)" % (self.v,)


@st.composite
def templates(draw, ids, rich=True, neg=True, ctl_max=2, wide=False, kinds=None):
    """(spec, regs, ctrls) on some of the ids."""
    if kinds is None:
        kinds = ["1", "1", "1p", "1p", "2", "2p", "mat"]
    else:
        kinds, rich = list(kinds), False
    if rich:
        kinds += ["qop", "te", "ucr", "add", "addq", "qft", "ent", "addmod", "inv"]
    kind = draw(st.sampled_from(kinds))
    perm = list(draw(st.permutations(ids)))
    n = len(perm)
    if kind in ("2", "2p", "addq") and n < 2:
        kind = "1"
    if kind == "1":
        sp, k = [draw(st.sampled_from(prog.G1))], 1
    elif kind == "1p":
        sp, k = [draw(st.sampled_from(prog.G1P)), draw(prog.angles())], 1
    elif kind == "2":
        sp, k = [draw(st.sampled_from(prog.G2))], 2
    elif kind == "2p":
        sp, k = [draw(st.sampled_from(prog.G2P)), draw(prog.angles())], 2
    elif kind in ("mat", "mat1"):
        k = draw(st.integers(1, min(3, n))) if kind == "mat" else 1
        sp = ["Mat", draw(st.sampled_from(["full", "perm", "diag"])), draw(st.integers(0, 50)), k]
    elif kind == "qop":
        k = draw(st.integers(1, min(3, n)))
        t = [[i, draw(spec.paulis)] for i in range(k)]
        c = draw(spec.coeff_unit)
        sp = ["QOp", [[t, c[0], c[1]]]]
        if k == 1:
            sp, k = [draw(st.sampled_from(["X", "Y", "Z"]))], 1
    elif kind == "tec":
        # commuting terms: products of one letter
        k = draw(st.integers(1, min(3, n)))
        p = draw(spec.paulis)
        h = [[[[i, p] for i in sorted(draw(st.permutations(range(k)))[:draw(st.integers(1, k))])],
              draw(st.sampled_from([1.0, -0.5, 0.7, 2.0])), 0] for _ in range(draw(st.integers(1, 3)))]
        h.insert(0, [[[i, p] for i in range(k)], 0.8, 0])
        h = [x for j, x in enumerate(h) if x[0] not in [y[0] for y in h[:j]]]
        sp = ["TE", draw(st.sampled_from([0.3, -0.7, 1.0])), h]
    elif kind == "te":
        k = draw(st.integers(1, min(3, n)))
        h = draw(spec.hermitian(k, 2, 1))
        h[0][0] = [[i, draw(spec.paulis)] for i in range(k)]
        h = [h[0]] + [x for x in h[1:] if x[0] != h[0][0]]
        sp = ["TE", draw(st.sampled_from([0.3, -0.7, 1.0, 0.0])), h]
    elif kind == "ucr":
        k = draw(st.integers(1, min(3, n)))
        sp = [draw(st.sampled_from(["UCRy", "UCRz"])), [draw(prog.angles()) for _ in range(1 << (k - 1))]]
    elif kind == "add":
        k = draw(st.integers(1, min(3, n)))
        sp = ["AddConstant", draw(st.integers(-9, 9))]
    elif kind == "addmod":
        k = draw(st.integers(1, min(3, n)))
        m = draw(st.integers(2, 1 << k))
        sp = ["AddConstantModN", draw(st.integers(0, m - 1)), m]
    elif kind == "addq":
        k = 2 if n < 4 else 4
        sp = [draw(st.sampled_from(["AddQuantum", "SubtractQuantum", "inv:AddQuantum", "inv:SubtractQuantum"]))]
    elif kind == "qft":
        k = draw(st.integers(1, min(3, n)))
        sp = [draw(st.sampled_from(["QFT", "QFTdag"]))]
    elif kind == "ent":
        k = draw(st.integers(1, min(3, n)))
        sp = [draw(st.sampled_from(["Entangle", "Entangledag"]))]
    else:
        sp, k = ["inv:" + draw(st.sampled_from(["SqrtX", "S", "T", "H"]))], 1
    t = perm[:k]
    if sp[0] in ("AddQuantum", "SubtractQuantum", "inv:AddQuantum", "inv:SubtractQuantum"):
        regs = [t[:k // 2], t[k // 2:]]
    elif sp[0] in ("UCRy", "UCRz"):
        regs = [t[:-1], t[-1:]] if k > 1 else [[], t]
    elif sp[0] in ref.NQ:
        regs = [[x] for x in t]
    else:
        regs = [t]
    rest = perm[k:]
    nc = draw(st.sampled_from([1, 2, 2, 3] if wide else [0, 0, 1, 1, 2][:3 + ctl_max])) if ctl_max else 0
    ctrls = [[c, draw(st.sampled_from([1, 1, 0])) if neg else 1] for c in rest[:nc]]
    return [sp, regs, ctrls]


INV = {"S": "Sdag", "Sdag": "S", "T": "Tdag", "Tdag": "T", "QFT": "QFTdag", "QFTdag": "QFT",
       "Entangle": "Entangledag", "Entangledag": "Entangle", "AddQuantum": "inv:AddQuantum",
       "SubtractQuantum": "inv:SubtractQuantum", "inv:AddQuantum": "AddQuantum",
       "inv:SubtractQuantum": "SubtractQuantum"}


def inverse_spec(sp):
    name = sp[0]
    if name in INV:
        return [INV[name]] + sp[1:]
    if name.startswith("inv:"):
        return [name[4:]] + sp[1:]
    if name in ref.PARAM:
        return [name, -sp[1]]
    if name in ("X", "Y", "Z", "H", "Swap"):
        return sp
    return ["inv:" + name] + sp[1:]


@st.composite
def related_te(draw, sp):
    """Another evolution on the same qubits: scaled as a whole or in part, with fewer, more or other terms, or in another order."""
    t, h = sp[1], [list(x) for x in sp[2]]
    n = len(h[0][0])
    how = draw(st.sampled_from(["time", "time", "all", "some", "fewer", "more", "other", "order"]))
    if how == "time":
        return ["TE", t * draw(st.sampled_from([-1, 2, 0.5])), h]
    if how == "all":
        f = draw(st.sampled_from([-1, 2, -0.5, 3]))
        return ["TE", t, [[x, c * f, i] for x, c, i in h]]
    if how == "some":
        return ["TE", t, [[x, c * draw(st.sampled_from([1, 1, -1, 2])), i] for x, c, i in h]]
    if how == "fewer" and len(h) > 1:
        return ["TE", t, h[:1] + h[2:]]
    if how == "other":
        k = draw(st.integers(0, n - 1))
        h[0][0] = [[i, {"X": "Y", "Y": "Z", "Z": "X"}[p] if i == k else p] for i, p in h[0][0]]
    elif how == "order":
        h = h[1:] + h[:1] if draw(st.booleans()) else h[::-1]
    else:
        new = draw(spec.pauli_terms(n, 1))
        if new:
            h.append([new, draw(st.sampled_from([1.0, -0.5, 0.25])), 0])
    # every qubit stays in use and no term appears twice
    keys = [str(x[0]) for x in h]
    used = {i for x in h for i, _ in x[0]}
    return ["TE", t, h] if len(set(keys)) == len(keys) and used == set(range(n)) else ["TE", 2 * t, [list(x) for x in sp[2]]]


@st.composite
def streams(draw, maxq=4, length=(2, 24), rich=True, neg=True, tags=True, measure=True, reuse=True, unique=False):
    n = draw(st.integers(1, maxq))
    ids = list(range(n))
    pal = [draw(templates(ids, rich, neg)) for _ in range(draw(st.integers(1, 4)))]
    live, out = set(), []
    for i in draw(st.permutations(ids)):
        live.add(i)
        out.append(["alloc", i])
    uid = 0
    for _ in range(draw(st.integers(*length))):
        kind = draw(st.sampled_from(["g"] * 12 + ["between"] * 3 + (["m", "realloc"] if measure else []) + ["f"]))
        if kind == "between":
            # a gate, something on one of its qubits, and the gate again (or its inverse, or one it merges with)
            sp, regs, ctrls = draw(templates(ids, rich, neg, wide=True))
            again = draw(st.sampled_from(["same", "inv", "inv", "angle", "angle"]))
            sp2 = draw(related_te(sp)) if again == "angle" and sp[0] == "TE" else inverse_spec(sp) if again == "inv" else (
                [sp[0], draw(prog.angles())] if again == "angle" and sp[0] in ref.PARAM else sp)
            on = [q for r in regs for q in r] + [c for c, _ in ctrls]
            tag = draw(st.sampled_from([0, 0, 0, 1])) if tags else 0
            out.append(["g", sp, regs, ctrls, tag])
            for q in on:
                if draw(st.integers(0, len(on))) == 0:
                    out.append(["g", draw(st.sampled_from([["H"], ["X"], ["SqrtX"], ["T"], ["Ry", 0.7]])), [[q]], [], 0])
            out.append(["g", sp2, regs, ctrls, tag])
        if kind == "g":
            if draw(st.integers(0, 9)) < 8:
                sp, regs, ctrls = draw(st.sampled_from(pal))
                how = draw(st.sampled_from(["same", "same", "inv", "negctl", "angle"]))
                if how == "inv":
                    sp = inverse_spec(sp)
                elif how == "negctl" and neg and ctrls:
                    ctrls = [[c, 1 - v] for c, v in ctrls[:1]] + ctrls[1:]
                elif how == "angle" and sp[0] == "TE":
                    sp = draw(related_te(sp))
                elif how == "angle" and sp[0] in ref.PARAM:
                    sp = [sp[0], draw(prog.angles())]
            else:
                sp, regs, ctrls = draw(templates(ids, rich, neg))
            tag = draw(st.sampled_from([0, 0, 0, 1, 2])) if tags else 0
            out.append(["g", sp, regs, ctrls, tag])
        elif kind == "m":
            out.append(["m", draw(st.sampled_from(ids))])
        elif kind == "realloc":
            q = draw(st.sampled_from(ids))
            out += [["m", q], ["dealloc", q], ["alloc", q]]
        else:
            out.append(["f"])
        uid += 1
    return {"ops": out, "cache": draw(st.sampled_from([1, 2, 3, 5, 10, 50])), "unique": unique,
            "bits": draw(st.lists(st.integers(0, 1), max_size=6))}


def make_cmd(eng, x, tags=()):
    import projectq.ops as o
    from projectq.ops import Command
    from projectq.types import WeakQubitRef

    def w(i):
        return WeakQubitRef(eng, i)
    k = x[0]
    if k == "alloc":
        return Command(eng, o.Allocate, ([w(x[1])],), tags=tags)
    if k == "dealloc":
        return Command(eng, o.Deallocate, ([w(x[1])],), tags=tags)
    if k == "m":
        return Command(eng, o.Measure, ([w(x[1])],), tags=tags)
    if k == "f":
        return Command(eng, o.FlushGate(), ([w(-1)],))
    _, sp, regs, ctrls, tag = x
    cs = sorted(ctrls)
    return Command(eng, spec.build(sp), tuple([w(i) for i in r] for r in regs), [w(c) for c, _ in cs],
                   tags=list(tags) + ([Tag(tag)] if tag else []), control_state="".join(str(v) for _, v in cs))


class Source:
    """Reference execution of a stream, following per-qubit measurement outcomes of the backend."""

    def __init__(self):
        self.s = ref.RefState()
        self.nmeas = {}

    def step(self, x, outcomes):
        k = x[0]
        if k == "alloc":
            self.s.alloc(x[1])
        elif k == "dealloc":
            self.s.dealloc(x[1])
        elif k == "m":
            i = self.nmeas.get(x[1], 0)
            self.nmeas[x[1]] = i + 1
            seq = outcomes.get(x[1], [])
            if i >= len(seq):
                raise Violation("measurement %d of qubit %d never reached the backend" % (i, x[1]))
            p = self.s.prob1(x[1])
            if (p if seq[i] else 1 - p) < 1e-6:
                raise Violation("outcome %d of qubit %d is impossible in the source program" % (seq[i], x[1]))
            self.s.project(x[1], seq[i])
        elif k == "g":
            spec.act(self.s, x[1], x[2], x[3])
