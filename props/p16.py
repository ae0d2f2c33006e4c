"""P16: high-level operations prepare and transform states as specified."""
import cmath
import contextlib
import math

import numpy as np
from hypothesis import strategies as st

from vf import arith, prog, ref, spec
from vf.core import Test, Violation
from vf.lab import Lab

ASSUMPTIONS = ["up to 11 qubits, other qubits (and control qubits) in a random entangled state",
               "phase-estimation phases exact in binary unless stated; amplitudes compared to 1e-6"]


def engines(opt):
    from projectq.cengines import AutoReplacer, LocalOptimizer, TagRemover
    out = [AutoReplacer(arith.rules())]
    if opt:
        out = [TagRemover(), LocalOptimizer(5)] + out + [TagRemover(), LocalOptimizer(3)]
    return out


# ------------------------------------------------------------------ plain transformations
@st.composite
def transforms(draw, wide=False):
    kind = draw(st.sampled_from(["stateprep", "stateprep", "qft", "ucr", "ucr", "flip", "entangle", "all", "qft"]))
    k = draw(st.integers(6, 9) if wide else st.integers(1, 5))
    sizes = [k]
    neg = draw(st.integers(0, 4)) == 0
    if kind == "stateprep":
        how = draw(st.sampled_from(spec.STATE_KINDS + ["tiny", "signs"]))
        sp = ["StatePrep", draw(st.integers(0, 9999)), k, how]
    elif kind == "qft":
        sp = ["QFT"]
    elif kind == "ucr":
        k = draw(st.integers(5, 7) if wide else st.integers(0, 4))
        same = draw(st.integers(0, 3)) == 0
        angles = [draw(prog.angles()) for _ in range(1 << k)] if not same and not wide else np.random.RandomState(
            draw(st.integers(0, 999))).uniform(-7, 7, 1 << k).tolist() if not same else [draw(prog.angles())] * (1 << k)
        sp, sizes = [draw(st.sampled_from(["UCRy", "UCRz"])), angles], [k, 1]
    elif kind == "flip":
        form = draw(st.sampled_from(["int", "str", "list", "bools", "short", "long"]))
        sp = ["Flip", form, draw(st.integers(-(1 << k) - 2, (1 << (k + 1)) + 2)),
              draw(st.lists(st.integers(0, 1), min_size=k, max_size=k))]
    elif kind == "entangle":
        sp = ["Entangle"]
    else:
        sp = [draw(st.sampled_from(["All", "Tensor"])), draw(st.sampled_from(["H", "X", "T", "SqrtX", "Ry"])),
              round(draw(st.floats(-7, 7)), 6)]
    total = sum(sizes)
    spare = draw(st.integers(0, min(2, (11 if wide else 7) - total)))
    nc = draw(st.integers(0, min(2, spare)))
    return {"spec": sp, "sizes": sizes, "ctl": [0 if neg else 1] * nc, "n": total + spare,
            "perm": list(draw(st.permutations(range(total + spare)))), "seed": draw(st.integers(0, 99)),
            "dag": draw(st.integers(0, 3)) == 0, "style": draw(st.integers(0, 1)), "opt": draw(st.booleans())}


def amplitudes(sp):
    _, seed, k, how = sp
    if how == "tiny":
        v = spec.random_state(seed, k, "full")
        v = v * np.where(np.arange(1 << k) % 2 == seed % 2, 1e-5, 1)
        return v / np.linalg.norm(v)
    if how == "signs":
        return np.sign(np.random.RandomState(seed).normal(size=1 << k)).astype(complex) / math.sqrt(1 << k)
    return spec.random_state(seed, k, how)


def flip_mask(sp, k):
    _, form, num, lst = sp
    if form == "int":
        return sum(((num >> i) & 1) << i for i in range(k))
    if form == "short":
        lst = lst[:-1]
    return sum(b << i for i, b in enumerate(lst))


def transform_gate(sp):
    import projectq.ops as o
    name = sp[0]
    if name == "StatePrep":
        return o.StatePreparation([complex(x) for x in amplitudes(sp)])
    if name == "QFT":
        return o.QFT
    if name == "UCRy":
        return o.UniformlyControlledRy(sp[1])
    if name == "UCRz":
        return o.UniformlyControlledRz(sp[1])
    if name == "Entangle":
        return o.Entangle
    if name == "Flip":
        _, form, num, lst = sp
        return o.FlipBits({"int": num, "str": "".join(map(str, lst)), "list": lst, "bools": [bool(b) for b in lst],
                           "short": lst[:-1], "long": lst + [1]}[form])
    g = prog.pq_gate(sp[1], [sp[2]] if sp[1] == "Ry" else [])
    return (o.All if name == "All" else o.Tensor)(g)


def transform_matrix(sp, sizes):
    name, k = sp[0], sizes[0]
    if name == "QFT":
        return ref.qft_matrix(k)
    if name in ("UCRy", "UCRz"):
        d = 1 << (k + 1)
        m = np.zeros((d, d), dtype=complex)
        for c in range(1 << k):
            r = ref.matrix("Ry" if name == "UCRy" else "Rz", [sp[1][c]])
            for i in (0, 1):
                for j in (0, 1):
                    m[c | i << k, c | j << k] = r[i, j]
        return m
    if name == "Entangle":
        return ref.entangle_matrix(k)
    if name == "Flip":
        d = 1 << k
        m = np.zeros((d, d), dtype=complex)
        f = flip_mask(sp, k)
        for x in range(d):
            m[x ^ f, x] = 1
        return m
    g = ref.matrix(sp[1], [sp[2]] if sp[1] == "Ry" else [])
    m = np.eye(1)
    for _ in range(k):
        m = np.kron(g, m)
    return m


def run_transform(case, ev):
    from projectq.meta import Control, Dagger
    from projectq.ops import get_inverse
    sp, sizes, n = case["spec"], case["sizes"], case["n"]
    regs, k = [], 0
    for s in sizes:
        regs.append(case["perm"][k:k + s])
        k += s
    ctrls = [[p, v] for p, v in zip(case["perm"][k:], case["ctl"])]
    prep = sp[0] == "StatePrep"
    lab = Lab(n, engines(case["opt"]), case["seed"], zero=regs[0] if prep else ())
    g = transform_gate(sp)
    flat = [q for r in regs for q in r]
    cs, vs = [c for c, _ in ctrls], [v for _, v in ctrls]
    if prep:
        v = amplitudes(sp)
        d = len(v)
        m = np.zeros((d, d), dtype=complex)
        m[:, 0] = v
        r = np.random.RandomState(0)
        full = np.concatenate([v.reshape(-1, 1), r.normal(size=(d, d - 1)) + 1j * r.normal(size=(d, d - 1))], axis=1)
        q, t = np.linalg.qr(full)
        m = q
        m[:, 0] = v
        if case["dag"]:
            # start from the prepared state
            lab.s.apply(m, flat, cs, vs)
            lab.sim.set_wavefunction([complex(x) for x in lab.s.psi], lab.q)
    else:
        m = transform_matrix(sp, sizes)
    lab.s.apply(m.conj().T if case["dag"] else m, flat, cs, vs)
    args = [[lab.q[i] for i in r] for r in regs]
    single = sp[0] in ("All", "Tensor", "Flip", "QFT", "Entangle", "StatePrep")
    with contextlib.ExitStack() as stack:
        if ctrls:
            stack.enter_context(Control(lab.eng, [lab.q[c] for c in cs], ctrl_state="".join(map(str, vs))))
        if case["dag"] and case["style"]:
            stack.enter_context(Dagger(lab.eng))
        elif case["dag"]:
            g = get_inverse(g)
        if single:
            g | args[0]
        else:
            g | (args[0], args[1])
    del args
    lab.check("%s%s on %s" % (sp[0], " inverted" if case["dag"] else "", regs), exact=prep or bool(ctrls))
    ev.label(sp[0] + (" inverse" if case["dag"] else ""))
    ev.label("controlled", bool(ctrls))
    ev.label("negative control", 0 in case["ctl"])
    ev.mark(True)
    lab.close()


# ------------------------------------------------------------------ amplitude amplification
@st.composite
def small_circuit(draw, k):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        name = draw(st.sampled_from(["H", "Ry", "T", "X", "Rz", "CX", "Swap"]))
        if name in ("CX", "Swap"):
            if k < 2:
                continue
            a, b = draw(st.permutations(range(k)))[:2]
            out.append([name, [], [a, b]])
        else:
            out.append([name, prog.params_of(draw, name), [draw(st.integers(0, k - 1))]])
    return out


def circuit_matrix(gs, k):
    def f(s):
        for name, ps, ts in gs:
            if name == "CX":
                s.apply(ref.matrix("X"), [ts[1]], [ts[0]])
            else:
                s.apply(ref.matrix(name, ps), ts)
    return ref.unitary_of(f, k)


def apply_circuit(gs, q):
    import projectq.ops as o
    for name, ps, ts in gs:
        if name == "CX":
            o.CNOT | (q[ts[0]], q[ts[1]])
        else:
            prog.pq_gate(name, ps) | tuple(q[t] for t in ts)


@st.composite
def qaa_cases(draw):
    k = draw(st.integers(1, 4))
    uniform = draw(st.booleans())
    alg = [["H", [], [i]] for i in range(k)] if uniform else draw(small_circuit(k))
    marked = draw(st.lists(st.integers(0, (1 << k) - 1), min_size=1, max_size=1 << k, unique=True))
    nc = draw(st.sampled_from([0, 0, 0, 1, 1]))
    return {"k": k, "alg": alg, "marked": sorted(marked), "times": draw(st.integers(1, 4)), "nc": nc,
            "perm": list(draw(st.permutations(range(k + 1 + nc)))), "seed": draw(st.integers(0, 99)),
            "loop": draw(st.booleans()), "prepare": draw(st.integers(0, 3)) > 0, "dag": draw(st.integers(0, 4)) == 0,
            "opt": draw(st.booleans())}


def run_qaa(case, ev):
    import projectq.ops as o
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
    k, perm = case["k"], case["perm"]
    sysq, anc, ctl = perm[:k], perm[k], perm[k + 1:]
    lab = Lab(k + 1 + case["nc"], engines(case["opt"]), case["seed"],
              zero=[anc] + (list(sysq) if case["prepare"] else []))
    marked = case["marked"]

    def algorithm(eng, q):
        apply_circuit(case["alg"], q)

    def oracle(eng, q, a):
        for v in marked:
            with Compute(eng):
                for i in range(k):
                    if not (v >> i) & 1:
                        o.X | q[i]
            with Control(eng, q):
                o.X | a
            Uncompute(eng)
    amat = circuit_matrix(case["alg"], k)
    d = 1 << k
    chi = np.diag([-1.0 if x in marked else 1.0 for x in range(d)])
    s0 = np.diag([-1.0] + [1.0] * (d - 1))
    grover = -amat @ s0 @ amat.conj().T @ chi
    q = lab.q
    o.X | q[anc]
    o.H | q[anc]
    lab.s.apply(ref.matrix("X"), [anc])
    lab.s.apply(ref.matrix("H"), [anc])
    if case["prepare"]:
        algorithm(lab.eng, [q[i] for i in sysq])
        lab.s.apply(amat, sysq)
    gate = o.QAA(algorithm, oracle)
    arg = ([q[i] for i in sysq], [q[anc]])
    with contextlib.ExitStack() as stack:
        if ctl:
            stack.enter_context(Control(lab.eng, [q[c] for c in ctl]))
        if case["dag"]:
            stack.enter_context(Dagger(lab.eng))
        if case["loop"]:
            with Loop(lab.eng, case["times"]):
                gate | arg
        else:
            for _ in range(case["times"]):
                gate | arg
    del arg
    for _ in range(case["times"]):
        lab.s.apply(grover.conj().T if case["dag"] else grover, sysq, ctl)
    lab.check("%d rounds of amplitude amplification%s" % (case["times"], " undone" if case["dag"] else ""),
              exact=bool(ctl))
    if case["prepare"] and not ctl and not case["dag"]:
        p0 = float(sum(abs(amat[x, 0]) ** 2 for x in marked))
        th = math.asin(min(1.0, math.sqrt(p0)))
        want = math.sin((2 * case["times"] + 1) * th) ** 2
        got = 0.0
        for x in marked:
            got += lab.sim.get_probability("".join(str((x >> i) & 1) for i in range(k)), [q[i] for i in sysq])
        if abs(got - want) > 1e-6:
            raise Violation("success probability %.8f after %d rounds, expected %.8f" % (got, case["times"], want))
        ev.label("success probability checked")
    ev.label("controlled", bool(ctl))
    ev.label("undone", case["dag"])
    ev.label("loop section", case["loop"])
    ev.mark(len(marked) < d)
    lab.close()


# ------------------------------------------------------------------ phase estimation
@st.composite
def qpe_cases(draw):
    m = draw(st.integers(1, 4))
    k = draw(st.integers(1, 2))
    exact = draw(st.integers(0, 3)) > 0
    phases = [draw(st.integers(0, (1 << m) - 1)) / (1 << m) if exact else round(draw(st.floats(0, 1)), 6)
              for _ in range(1 << k)]
    form = draw(st.sampled_from(["gate", "function", "ph", "r", "te"]))
    nc = draw(st.sampled_from([0, 0, 0, 1]))
    return {"m": m, "k": k if form in ("gate", "function") else 1, "phases": phases, "form": form, "nc": nc,
            "seed": draw(st.integers(0, 99)), "eig": draw(st.integers(0, 3)), "useed": draw(st.integers(0, 99)),
            "mix": draw(st.booleans()), "opt": draw(st.booleans()), "dag": draw(st.integers(0, 4)) == 0,
            "perm": list(draw(st.permutations(range(m + (k if form in ("gate", "function") else 1) + nc))))}


def run_qpe(case, ev):
    import projectq.ops as o
    from projectq.meta import Control, Dagger
    m, k, form = case["m"], case["k"], case["form"]
    perm = case["perm"]
    anc, sysq, ctl = perm[:m], perm[m:m + k], perm[m + k:]
    v = spec.random_unitary("full", case["useed"], k)
    ph = case["phases"][:1 << k]
    w = [cmath.exp(2j * math.pi * x) for x in ph]
    if form == "gate":
        u = v @ np.diag(w) @ v.conj().T
        gate = o.MatrixGate(u)
    elif form == "function":
        u = v @ np.diag(w) @ v.conj().T

        def gate(q, time):
            o.MatrixGate(np.linalg.matrix_power(u, time)) | q
    elif form == "ph":
        ph = [ph[0], ph[0]]
        u, v = np.eye(2) * w[0], np.eye(2)
        gate = o.Ph(2 * math.pi * ph[0])
    elif form == "r":
        ph = [0.0, ph[0]]
        u, v = np.diag([1, w[0]]), np.eye(2)
        gate = o.R(2 * math.pi * ph[1])
    else:
        # exp(-i t Z): phases -t/2pi and t/2pi
        t = 2 * math.pi * ph[0]
        ph = [-ph[0] % 1.0, ph[0]]
        u, v = np.diag([cmath.exp(-1j * t), cmath.exp(1j * t)]), np.eye(2)
        gate = o.TimeEvolution(t, o.QubitOperator("Z0"))
    lab = Lab(m + k + case["nc"], engines(case["opt"]), case["seed"], zero=list(anc) + list(sysq))
    # an eigenstate, or a superposition of eigenstates
    e = case["eig"] % (1 << k)
    coef = spec.random_state(case["seed"] + 5, k) if case["mix"] else np.eye(1 << k)[e]
    target = v @ coef
    r = np.random.RandomState(1)
    d = 1 << k
    q0, _ = np.linalg.qr(np.concatenate([target.reshape(-1, 1), r.normal(size=(d, d - 1)) + 0j], axis=1))
    q0[:, 0] = target
    lab.s.apply(q0, sysq)
    big = 1 << m
    # what phase estimation does: |0>|x> -> sum_y 1/2^m sum_t exp(2 pi i t (phi - y/2^m)) |y>|x>, anc[0] = MSB of y
    out = np.zeros((big * d, big * d), dtype=complex)
    had = np.ones((1, 1))
    for _ in range(m):
        had = np.kron(had, ref.matrix("H"))
    iqft = np.array([[cmath.exp(-2j * math.pi * t * y / big) for t in range(big)] for y in range(big)]) / math.sqrt(big)
    # time index t has anc[i] as bit i; result y has anc[0] as the most significant bit
    rev = np.zeros((big, big))
    for y in range(big):
        rev[int(format(y, "0%db" % m)[::-1], 2), y] = 1
    cu = np.zeros((big * d, big * d), dtype=complex)
    for t in range(big):
        ut = np.linalg.matrix_power(u, t)
        for i in range(d):
            for j in range(d):
                cu[t + big * i, t + big * j] = ut[i, j]
    out = np.kron(np.eye(d), rev @ iqft) @ cu @ np.kron(np.eye(d), had)
    if case["dag"]:
        lab.s.apply(out, list(anc) + list(sysq), ctl)
    lab.sim.set_wavefunction([complex(x) for x in lab.s.psi], lab.q)
    lab.s.apply(out.conj().T if case["dag"] else out, list(anc) + list(sysq), ctl)
    q = lab.q
    with contextlib.ExitStack() as stack:
        if ctl:
            stack.enter_context(Control(lab.eng, [q[c] for c in ctl]))
        if case["dag"]:
            stack.enter_context(Dagger(lab.eng))
        o.QPE(gate) | ([q[i] for i in anc], [q[i] for i in sysq])
    lab.check("phase estimation (%s) of phases %s%s" % (form, ph, " undone" if case["dag"] else ""), exact=bool(ctl))
    if not case["dag"] and not ctl:
        # the distribution of the result, stated independently of the circuit
        for y in range(big):
            want = 0.0
            for c, phi in zip(coef, ph):
                amp = sum(cmath.exp(2j * math.pi * t * (phi - y / big)) for t in range(big)) / big
                want += abs(c) ** 2 * abs(amp) ** 2
            got = lab.sim.get_probability(format(y, "0%db" % m), [q[i] for i in anc])
            if abs(got - want) > 1e-6:
                raise Violation("estimate %d/%d has probability %.7f, expected %.7f (phases %s)" % (
                    y, big, got, want, ph))
        ev.label("distribution checked")
    ev.label("form " + form)
    ev.label("controlled", bool(ctl))
    ev.label("undone", case["dag"])
    ev.mark(any(0 < x < 1 for x in ph))
    lab.close()


TESTS = [
    Test("transforms", transforms, run_transform, 12000,
         rule="state preparation, Fourier transform, uniformly controlled rotations, bit flips, entangling, All/Tensor, "
              "with controls and reversed, on part of a random state vs their matrices; every case non-trivial"),
    Test("large", lambda: transforms(True), run_transform, 200, chunk=20,
         rule="the same on registers of 6 to 9 qubits; every case is non-trivial"),
    Test("amplification", qaa_cases, run_qaa, 2400,
         rule="1-4 rounds of amplitude amplification of random algorithms and marked sets: state and success "
              "probability; non-trivial = not everything is marked"),
    Test("estimation", qpe_cases, run_qpe, 2400,
         rule="phase estimation of gates, functions and time evolutions on eigenstates and mixtures; non-trivial = a "
              "non-zero phase"),
]
