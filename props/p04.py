"""P04: emulated classical functions act exactly on every basis state."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import prog, ref, spec, wide
from vf.core import Test
from vf.lab import Session

ASSUMPTIONS = ["at most 8 qubits; only functions that are one-to-one on the values modulo the register sizes",
               "amplitudes compared to 1e-7 on random superpositions of all basis states"]


def function(kind, args, sizes):
    """The integer function a user would write down (results not reduced)."""
    n = len(sizes)
    if kind == "table":
        seed, junk = args
        r = np.random.RandomState(seed)
        total = sum(sizes)
        table = [int(v) for v in r.permutation(1 << total)]
        hi = [int(v) for v in r.randint(-3, 4, size=(1 << total))]

        def f(*a):
            x, k = 0, 0
            for v, s in zip(a, sizes):
                x |= v << k
                k += s
            y, out = table[x], []
            for s in sizes:
                out.append((y & ((1 << s) - 1)) + (hi[x] * (1 << s) if junk else 0))
                y >>= s
            return tuple(out)
        return f
    if kind == "affine":        # every register: a * x + b with odd a
        a, b = args
        return lambda *x: tuple(a * v + b for v in x)
    if kind == "chain":         # each register takes a multiple of its predecessor
        c, sign = args

        def f(*x):
            out = list(x)
            for i in range(1, n):
                out[i] = out[i] + sign * c * out[i - 1]
            return out
        return f
    if kind == "xor":
        c = args[0]

        def f(*x):
            out = list(x)
            out[-1] ^= c
            for v in out[:-1]:
                out[-1] ^= v * v
            return out
        return f
    if kind == "maddinto":      # last register takes the product of the others
        return lambda *x: tuple(x[:-1]) + (x[-1] + math.prod(x[:-1]) * args[0],)
    if kind == "swap":
        return lambda *x: tuple(reversed(x))
    if kind == "negate":
        return lambda *x: tuple(-v for v in x) if args[0] else tuple(~v for v in x)
    raise KeyError(kind)


def gate(kind, args, sizes, form):
    from projectq.ops import BasicMathGate
    f = function(kind, args, sizes)
    conv = {"tuple": tuple, "list": list, "numpy": lambda t: [np.int64(v) for v in t]}[form if form != "late" else "tuple"]
    if form == "numpy" and kind == "affine" and max(map(abs, args)) > 1 << 40:
        conv = tuple
    if form == "late":
        class Late(BasicMathGate):
            def __init__(self):
                super().__init__(lambda *x: x)

            def get_math_function(self, qubits):
                g = function(kind, args, [len(r) for r in qubits])
                return lambda x: list(g(*x))
        return Late()
    if form == "list":
        # explicit argument lists, as in the documentation
        if len(sizes) == 1:
            return BasicMathGate(lambda a: list(f(a)))
        if len(sizes) == 2:
            return BasicMathGate(lambda a, b: list(f(a, b)))
    return BasicMathGate(lambda *x: conv(f(*x)))


@st.composite
def cases(draw, small=False):
    n = draw(st.integers(1, 5 if small else 8))
    names = list(range(n))
    ops = [["set", list(draw(st.permutations(names))), draw(st.integers(0, 9999)), draw(st.sampled_from(spec.STATE_KINDS))]]
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["fn"] * 6 + ["lib"] * 2 + ["g", "m"]))
        perm = list(draw(st.permutations(names)))
        if k in ("fn", "lib"):
            nreg = draw(st.integers(1, 3 if k == "fn" else 1))
            regs, i = [], 0
            for _ in range(nreg):
                w = draw(st.integers(1, 4))
                r = perm[i:i + w]
                i += w
                if r:
                    regs.append(r)
            rest = perm[sum(map(len, regs)):]
            ctrls = [[q, draw(st.integers(0, 3)) > 0] for q in rest[:draw(st.integers(0, 3))]]
            w = len(regs[0])
            if k == "lib":
                big = draw(st.integers(2, 1 << w))
                what = draw(st.sampled_from([["AddConstant", draw(st.integers(-(1 << w), 1 << w))],
                                             ["SubConstant", draw(st.integers(0, 1 << w))],
                                             ["FlipBits", draw(st.integers(0, (1 << w) - 1))]]
                                            + ([["AddConstantModN", draw(st.integers(0, big - 1)), big]] if big == 1 << w else [])))
                ops.append(["lib", what, regs, ctrls])
            else:
                kind = draw(st.sampled_from(["table", "table", "table", "affine", "affine", "chain", "xor", "maddinto", "swap", "negate"]))
                if kind == "swap" and [len(r) for r in regs] != [len(r) for r in regs][::-1]:
                    kind = "table"
                if kind in ("chain", "maddinto", "xor") and len(regs) < 2:
                    kind = "affine"
                args = {"table": [draw(st.integers(0, 9999)), draw(st.booleans())],
                        "affine": [draw(st.one_of(st.integers(-9, 9), st.integers(-(1 << 40), 1 << 70))) | 1,
                                   draw(st.one_of(st.integers(-9, 9), st.integers(-(1 << 70), 1 << 40)))],
                        "chain": [draw(st.integers(1, 5)), draw(st.sampled_from([1, -1]))],
                        "xor": [draw(st.integers(0, 15))], "maddinto": [draw(st.sampled_from([1, -1, 3]))],
                        "swap": [], "negate": [draw(st.booleans())]}[kind]
                ops.append(["fn", kind, args, regs, ctrls, draw(st.sampled_from(["tuple", "list", "numpy", "late"]))])
        elif k == "g":
            name = draw(st.sampled_from(["H", "T", "X", "Ry"]))
            ops.append(["g", name, prog.params_of(draw, name), perm[0]])
        else:
            ops.append(["m", perm[0]])
    return {"n": n, "ops": ops, "mapper": draw(st.sampled_from(["none", "none", "manual", "opt"])),
            "fusion": draw(st.booleans()), "seed": draw(st.integers(0, 1000))}


def run(case, ev):
    from projectq.meta import Control
    from projectq.ops import Measure
    t = Session(case, controls=True)
    sim, s = t.sim, t.s
    moved = 0
    try:
        for x in case["ops"]:
            if x[0] == "set":
                v = spec.random_state(x[2], len(x[1]), x[3])
                sim.set_wavefunction([complex(a) for a in v], t.reg(x[1]))
                t.wave(v, x[1])
                continue
            if x[0] == "g":
                prog.pq_gate(x[1], x[2]) | t.q[x[3]]
                s.apply(ref.matrix(x[1], x[2]), [x[3]])
            elif x[0] == "m":
                Measure | t.q[x[1]]
                t.eng.flush()
                s.project(x[1], int(t.q[x[1]]))
            else:
                regs, ctrls = (x[3], x[4]) if x[0] == "fn" else (x[2], x[3])
                sizes = [len(r) for r in regs]
                if x[0] == "fn":
                    g, f = gate(x[1], x[2], sizes, x[5]), function(x[1], x[2], sizes)
                else:
                    g, f = spec.build(x[1]), spec.meaning(x[1], sizes)[1]
                before = s.psi
                with Control(t.eng, t.reg([q for q, _ in ctrls]), ctrl_state="".join(str(int(v)) for _, v in ctrls)):
                    g | tuple(t.reg(r) for r in regs)
                s.permute(f, regs, [q for q, _ in ctrls], [int(v) for _, v in ctrls])
                moved += not np.allclose(before, s.psi)
                ev.label("%d registers" % len(regs))
                ev.label("controlled", bool(ctrls))
            t.check(str(x))
    finally:
        t.close()
    ev.mark(moved >= 1)


RULE = ("generated reversible integer functions on generated register tuples and controls of random superpositions against the "
        "exact permutation of amplitudes; non-trivial = the state changed")
TESTS = [
    Test("cpp", cases, run, 6000, rule=RULE),
    Test("py", lambda: cases(small=True), run, 3000, rule=RULE + " (pure-Python kernel)", kernel="py"),
]

TESTS.append(Test("wide", lambda: wide.cases("P04"), wide.run, 240, chunk=15, rule=wide.RULE))
