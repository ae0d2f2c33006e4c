"""Rich gate specifications as JSON: [name, args...]; how to build them in projectq and what they mean."""

import random

import numpy as np
from hypothesis import strategies as st

from . import gates, prog, ref


def random_unitary(kind, seed, k):
    r = np.random.RandomState(seed)
    d = 1 << k
    if kind == "perm":
        m = np.zeros((d, d), dtype=complex)
        m[r.permutation(d), np.arange(d)] = np.exp(1j * r.uniform(0, 6.28, d) * (seed % 2))
        return m
    if kind == "diag":
        return np.diag(np.exp(1j * r.uniform(0, 6.28, d)))
    z = r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)) * (kind != "real")
    q, t = np.linalg.qr(z)
    return q * (np.diag(t) / abs(np.diag(t)))


def random_state(seed, n, kind="full"):
    r = np.random.RandomState(seed)
    d = 1 << n
    v = r.normal(size=d) + 1j * r.normal(size=d)
    if kind == "real":
        v = r.normal(size=d).astype(complex)
    elif kind == "sparse":
        v = v * (r.uniform(size=d) < 0.4)
        if not np.any(v):
            v[seed % d] = 1
    elif kind == "basis":
        v = np.zeros(d, dtype=complex)
        v[seed % d] = 1
    elif kind == "faint":
        # amplitudes over five orders of magnitude, some zero
        v = v / np.abs(v) * 10.0 ** -r.randint(0, 6, size=d) * (r.uniform(size=d) < 0.8)
        if not np.any(v):
            v[seed % d] = 1
    elif kind == "uniform":
        v = np.ones(d, dtype=complex)
    return v / np.linalg.norm(v)


STATE_KINDS = ["full", "full", "real", "sparse", "basis", "uniform"]


def qop(terms):
    """[[ [[idx, 'X'], ...], re, im ], ...] -> projectq QubitOperator."""
    from projectq.ops import QubitOperator
    out = QubitOperator()
    for t, re, im in terms:
        out += QubitOperator(tuple((i, p) for i, p in t), complex(re, im) if im else re)
    return out


def qop_matrix(terms, n):
    return ref.pauli_sum([(tuple((i, p) for i, p in t), complex(re, im)) for t, re, im in terms], n)


def build(spec):
    """projectq gate object."""
    import projectq.libs.math as m
    import projectq.ops as o
    name, args = spec[0], spec[1:]
    if name in ref.NQ:
        return prog.pq_gate(name, args)
    if name == "Mat":
        return o.MatrixGate(random_unitary(*args))
    if name == "QOp":
        return qop(args[0])
    if name == "TE":
        return o.TimeEvolution(args[0], qop(args[1]))
    if name in ("UCRy", "UCRz"):
        return (o.UniformlyControlledRy if name == "UCRy" else o.UniformlyControlledRz)(args[0])
    if name == "QFT":
        return o.QFT
    if name == "QFTdag":
        return o.get_inverse(o.QFT)
    if name == "Entangle":
        return o.Entangle
    if name == "Entangledag":
        return o.get_inverse(o.Entangle)
    if name == "Barrier":
        return o.Barrier
    if name == "StatePrep":
        return o.StatePreparation(list(random_state(*args)))
    if name == "FlipBits":
        return o.FlipBits(args[0])
    if name in ("AddConstant", "AddConstantModN", "MultiplyByConstantModN", "SubConstant", "SubConstantModN"):
        return getattr(m, name)(*args)
    if name in ("AddQuantum", "SubtractQuantum", "ComparatorQuantum", "DivideQuantum", "MultiplyQuantum"):
        return getattr(m, name)
    if name.startswith("inv:"):
        return o.get_inverse(build([name[4:]] + list(args)))
    raise KeyError(name)


def meaning(spec, sizes):
    """("mat", matrix) | ("fn", integer function) | ("none",) for registers of the given sizes."""
    name, args = spec[0], spec[1:]
    n = sum(sizes)
    if name in ref.NQ:
        return "mat", ref.matrix(name, args)
    if name == "Mat":
        return "mat", random_unitary(*args)
    if name == "QOp":
        return "mat", qop_matrix(args[0], n)
    if name == "TE":
        return "mat", ref.expm_herm(qop_matrix(args[1], n), args[0])
    if name in ("UCRy", "UCRz"):
        return "mat", gates.ucr_matrix(args[0], n - 1, "R" + name[-1])
    if name == "QFT":
        return "mat", ref.qft_matrix(n)
    if name == "QFTdag":
        return "mat", ref.qft_matrix(n).conj().T
    if name == "Entangle":
        return "mat", ref.entangle_matrix(n)
    if name == "Entangledag":
        return "mat", ref.entangle_matrix(n).conj().T
    if name == "Barrier":
        return ("none",)
    if name == "FlipBits":
        b = args[0]
        return "fn", lambda x: (x ^ (b & ((1 << n) - 1)),)
    if name == "AddConstant":
        return "fn", lambda x: (x + args[0],)
    if name == "SubConstant":
        return "fn", lambda x: (x - args[0],)
    if name == "AddConstantModN":
        return "fn", lambda x: ((x + args[0]) % args[1] if x < args[1] else x,)
    if name == "SubConstantModN":
        return "fn", lambda x: ((x - args[0]) % args[1] if x < args[1] else x,)
    if name == "MultiplyByConstantModN":
        return "fn", lambda x: ((x * args[0]) % args[1] if x < args[1] else x,)
    if name == "AddQuantum":
        return "fn", gates.add_quantum(sizes)
    if name == "SubtractQuantum":
        return "fn", gates.subtract_quantum
    if name == "ComparatorQuantum":
        return "fn", gates.comparator
    if name == "DivideQuantum":
        return "fn", gates.divide
    if name == "MultiplyQuantum":
        return "fn", gates.multiply
    if name.startswith("inv:"):
        base = name[4:]
        if base == "AddQuantum":
            return "fn", gates.inv_add_quantum(sizes)
        if base == "SubtractQuantum":
            return "fn", lambda a, b: (a, a + b)
        if base == "ComparatorQuantum":
            return "fn", gates.comparator
        if base == "DivideQuantum":
            return "fn", gates.inv_divide
        if base == "MultiplyQuantum":
            return "fn", gates.inv_multiply
        if base == "AddConstant":
            return "fn", lambda x: (x - args[0],)
        if base == "FlipBits":
            return meaning([base] + list(args), sizes)
        if base == "SubConstant":
            return "fn", lambda x: (x + args[0],)
        if base == "AddConstantModN":
            return "fn", lambda x: ((x - args[0]) % args[1] if x < args[1] else x,)
        if base == "MultiplyByConstantModN":
            inv = pow(args[0], -1, args[1])
            return "fn", lambda x: ((x * inv) % args[1] if x < args[1] else x,)
        kind = meaning([base] + list(args), sizes)
        if kind[0] == "mat":
            return "mat", kind[1].conj().T
    raise KeyError(name)


def act(state, spec, regs, ctrls=()):
    """Apply the meaning of a spec to a RefState; ctrls = [[name, value]...]."""
    kind = meaning(spec, [len(r) for r in regs])
    cs, vs = [c for c, _ in ctrls], [v for _, v in ctrls]
    if kind[0] == "mat":
        state.apply(kind[1], [q for r in regs for q in r], cs, vs)
    elif kind[0] == "fn":
        state.permute(kind[1], regs, cs, vs)


# ------------------------------------------------------------------ strategies
paulis = st.sampled_from(["X", "Y", "Z"])


@st.composite
def pauli_terms(draw, n, min_len=0):
    k = draw(st.integers(min(min_len, n), n))
    idx = sorted(draw(st.permutations(range(n)))[:k])
    return [[i, draw(paulis)] for i in idx]


@st.composite
def hermitian(draw, n, max_terms=4, min_len=0):
    """Terms with real coefficients, distinct Pauli strings."""
    out, seen = [], set()
    for _ in range(draw(st.integers(1, max_terms))):
        t = draw(pauli_terms(n, min_len))
        key = tuple(map(tuple, t))
        if key in seen:
            continue
        seen.add(key)
        out.append([t, draw(st.one_of(st.sampled_from([1.0, -1.0, 0.5, 2.0, 0.0]),
                                      st.floats(-3, 3).map(lambda x: round(x, 6)))), 0])
    return out


coeff_unit = st.sampled_from([[1.0, 0], [-1.0, 0], [0.0, 1.0], [0.0, -1.0], [0.6, 0.8]])


def distinct_by_key(terms):
    return len({tuple(map(tuple, t)) for t, _, _ in terms}) == len(terms)




@st.composite
def nearly_commuting(draw, n, coeff, most=6):
    """Hamiltonians over a few commuting strings, in half of the cases with one term that anticommutes with
    only one or two of the others, anywhere in the list or after all the others."""
    r = random.Random(draw(st.integers(0, 10 ** 9)))
    axis = [r.choice("XYZ") for _ in range(n)]
    masks = r.sample(range(1, 1 << n), min(r.randint(1, most), (1 << n) - 1))
    out = [[[[i, axis[i]] for i in range(n) if m >> i & 1], draw(coeff), 0] for m in masks]
    r.shuffle(out)
    if r.random() < 0.6:
        i = r.randrange(n)
        t = [[j, axis[j]] for j in range(n) if j != i and r.random() < 0.4]
        t = sorted(t + [[i, r.choice([a for a in "XYZ" if a != axis[i]])]])
        hit = [x for x in out if any(j == i for j, _ in x[0])] or [[[[i, axis[i]]], draw(coeff), 0]]
        free = [x for x in out if not any(j == i for j, _ in x[0])]
        late = hit[:r.randint(1, 2)]
        late.insert(r.randint(0, len(late)), [t, draw(coeff), 0])
        if r.random() < 0.5:
            return free + late
        out = free + late
        r.shuffle(out)
    return out
