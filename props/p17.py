"""P17: arithmetic with classical constants computes the exact integers."""
import math

from hypothesis import strategies as st

from vf import arith
from vf.core import Test, Violation

ASSUMPTIONS = ["documented preconditions: 0 <= a < N, register values below N <= 2^n, gcd(a, N) = 1 for products",
               "superpositions of up to 8 register values; widths up to 10 (circuits; 7 modular, 3 products) and 18 (emulation)"]
PLAIN = ["AddConstant", "SubConstant"]
MOD = ["AddConstantModN", "SubConstantModN", "MultiplyByConstantModN"]


@st.composite
def constants(draw, width):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.sampled_from([0, 1, -1, (1 << width) - 1, 1 << width, -(1 << width), 1 << (width - 1)]))
    if k == 1:
        return draw(st.integers(-(1 << 70), 1 << 70))
    return draw(st.integers(-(1 << width), 1 << width))


@st.composite
def cases(draw, lo=1, hi=5, mulhi=3, maxc=2, modhi=99):
    mod = draw(st.booleans())
    width = draw(st.integers(lo, min(hi, modhi) if mod else hi))
    n = None
    names = PLAIN
    if mod:
        n = draw(st.one_of(st.integers(2, 1 << width), st.integers(max(2, (1 << width) - 8), 1 << width)))
        names = MOD if width <= mulhi else MOD[:2]
    nc = draw(st.sampled_from([0, 0, 1, 1, 2])) if maxc else 0
    nc = min(nc, maxc)
    ops = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        name = draw(st.sampled_from(names))
        if name in PLAIN:
            a = draw(constants(width))
        elif name == "MultiplyByConstantModN":
            a = draw(st.integers(1, n - 1))
            while math.gcd(a, n) != 1:
                a -= 1
        else:
            a = draw(st.integers(0, n - 1))
        cs = [[k, draw(st.sampled_from([1, 1, 1, 0]))] for k in range(nc) if draw(st.integers(0, 3))]
        dag = draw(st.sampled_from([0, 0, 1, 2]))
        if name == "MultiplyByConstantModN" and width > 3:
            dag = 0         # only its circuit can be inverted
        ops.append([name, a, n, dag, cs])
    top = (n or 1 << width) - 1
    vals = draw(st.lists(st.tuples(st.integers(0, top), st.integers(0, (1 << nc) - 1)), min_size=1, max_size=8,
                         unique=True))
    return {"width": width, "nc": nc, "ops": ops, "inputs": [list(v) for v in vals],
            "perm": list(draw(st.permutations(range(width + nc)))), "seed": draw(st.integers(0, 99))}


def runner(circuit):
    def run(case, ev):
        w = case["width"]
        m = arith.Machine([w], case["nc"], case["perm"], case["inputs"], case["seed"], circuit)
        for name, a, n, dag, cs in case["ops"]:
            g = arith.constant_gate(name, a, n)
            if dag == 2:
                from projectq.ops import get_inverse
                g = get_inverse(g)
            m.apply(g, cs, arith.constant_value(name, a, n, dag > 0, w), dagger=dag == 1)
            m.check("%s(%s%s)%s" % (name, a, "" if n is None else ", %d" % n, " inverted" * (dag > 0)))
            ev.label(name + (" inverse" if dag else ""))
            ev.label("controlled", bool(cs))
            ev.label("negative control", any(v == 0 for _, v in cs))
            ev.label("modulus above half the range", n is not None and 2 * n > 1 << w)
            ev.label("constant outside the register range", not 0 <= a < 1 << w)
        ev.label("helper qubits", m.spy.helpers > 0)
        ev.mark(any(a for _, a, _, _, _ in case["ops"]))
        m.close()
    return run


@st.composite
def inverses(draw):
    bits = draw(st.sampled_from([3, 8, 20, 53, 60, 64, 100, 300]))
    n = draw(st.integers(max(2, 1 << (bits - 1)), 1 << bits))
    a = draw(st.integers(1, n - 1))
    return {"a": a, "n": n}


def run_inverse(case, ev):
    from projectq.libs.math._constantmath import inv_mod_N
    a, n = case["a"], case["n"]
    g = math.gcd(a, n)
    a, n = a // g, n // g
    while math.gcd(a, n) != 1:
        n //= math.gcd(a, n)
    if n < 2:
        return
    got = inv_mod_N(a, n)
    if got != pow(a, -1, n):
        raise Violation("inv_mod_N(%d, %d) = %s, not %d" % (a, n, got, pow(a, -1, n)))
    ev.label("more than 53 bits", n > 1 << 53)
    ev.mark(a > 1)


TESTS = [
    Test("circuit", cases, runner(True), 2400,
         rule="1-3 constant operations (and inverses, controlled by any values) compiled to gates, on superpositions "
              "of register values: every amplitude must arrive at the exact integer and helpers come back clean; "
              "non-trivial = a constant other than 0"),
    Test("circuit-wide", lambda: cases(6, 10, 3, 1, 7), runner(True), 150,
         rule="the same on registers of 6 to 10 qubits (7 for modular additions)"),
    Test("emulation", lambda: cases(1, 10, 10), runner(False), 3000, rule="the same, emulated by the C++ simulator"),
    Test("emulation-py", lambda: cases(1, 7, 7), runner(False), 1200, kernel="py",
         rule="the same, emulated by the Python simulator"),
    Test("emulation-wide", lambda: cases(14, 18, 18, 1), runner(False), 250,
         rule="the same on registers of 14 to 18 qubits"),
    Test("inverse", inverses, run_inverse, 4000, rule="modular inverses of numbers of up to 300 bits"),
]
