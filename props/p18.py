"""P18: arithmetic between registers computes the exact integers."""
import random

from hypothesis import strategies as st

from vf import arith, bits, gates
from vf.core import Test, Violation

ASSUMPTIONS = ["documented preconditions: equal register sizes, zeroed result registers, divisor between 1 and the "
               "dividend", "AddQuantum takes at most one control qubit when compiled (more raise ValueError)"]
NAMES = ["AddQuantum", "AddCarry", "AddCarry2", "SubtractQuantum", "ComparatorQuantum", "MultiplyQuantum",
         "DivideQuantum"]


def gate_of(name):
    import projectq.libs.math as m
    return getattr(m, "AddQuantum" if name.startswith("AddCarry") else name)


def sizes_of(name, n):
    return {"AddQuantum": [n, n], "SubtractQuantum": [n, n], "AddCarry": [n, n, 1], "AddCarry2": [n, n, 2],
            "ComparatorQuantum": [n, n, 1], "MultiplyQuantum": [n, n, 2 * n + 1], "DivideQuantum": [n, n, n]}[name]


def forward(name, n):
    m = 1 << n
    return {"AddQuantum": lambda a, b: (a, (a + b) % m),
            "SubtractQuantum": lambda a, b: (a, (b - a) % m),
            "AddCarry": lambda a, b, c: (a, (a + b) % m, c ^ (a + b) // m),
            "AddCarry2": lambda a, b, c: (a, (a + b) % m, c ^ (a + b) // m),
            "ComparatorQuantum": lambda a, b, c: (a, b, c ^ (a > b)),
            "MultiplyQuantum": lambda a, b, c: (a, b, a * b),
            "DivideQuantum": lambda a, b, c: (a % c, a // c, c)}[name]


def backward(name, n):
    m = 1 << n
    return {"AddQuantum": lambda a, b: (a, (b - a) % m),
            "SubtractQuantum": lambda a, b: (a, (b + a) % m),
            "AddCarry": lambda a, b, c: (a, (b - a) % m, c ^ (b < a)),
            "AddCarry2": lambda a, b, c: (a, (b - a) % m, c ^ (b < a)),
            "ComparatorQuantum": lambda a, b, c: (a, b, c ^ (a > b)),
            "MultiplyQuantum": lambda a, b, c: (a, b, 0),
            "DivideQuantum": lambda r, q, c: (r + q * c, 0, c)}[name]


def operand(n):
    top = (1 << n) - 1
    return st.one_of(st.integers(0, top), st.integers(0, top),
                     st.sampled_from(sorted({0, 1 & top, top, top >> 1, (top >> 1) + 1 & top, top - 1 if top else 0})))


@st.composite
def values(draw, name, n, inverse):
    """Values of the registers before the operation (after it, if it is to be inverted)."""
    a, b = draw(operand(n)), draw(operand(n))
    if name in ("AddQuantum", "SubtractQuantum"):
        return [a, b]
    if name in ("AddCarry", "ComparatorQuantum"):
        return [a, b, draw(st.integers(0, 1))]
    if name == "AddCarry2":
        # the second bit is a borrowed helper, the first receives the carry
        return [a, b, draw(st.integers(0, 1))]
    if name == "MultiplyQuantum":
        return [a, b, a * b if inverse else 0]
    a, b = max(a, 1), max(b, 1)
    dividend, divisor = max(a, b), min(a, b)
    return [dividend % divisor, dividend // divisor, divisor] if inverse else [dividend, 0, divisor]


@st.composite
def cases(draw, top, wide=None):
    name = draw(st.sampled_from(NAMES))
    hi = {"MultiplyQuantum": top // 4, "DivideQuantum": top // 3}.get(name, top // 2)
    n = draw(st.integers(1, max(1, hi)))
    if wide and draw(st.integers(0, 3)) == 0:
        n = draw(st.integers(1, wide))
    nc = draw(st.sampled_from([0, 0, 1, 1, 2]))
    inverse = draw(st.sampled_from([0, 0, 1, 2]))
    if name == "AddCarry2":
        nc = 1      # this form of the adder exists with one control qubit only
    both = draw(st.booleans())
    cs = [[k, draw(st.sampled_from([1, 1, 0]))] for k in range(nc)]
    k = draw(st.integers(1, 8))
    vals = draw(st.lists(st.tuples(values(name, n, inverse > 0), st.integers(0, (1 << nc) - 1)), min_size=1,
                         max_size=k))
    seen, out = set(), []
    for v, c in vals:
        t = tuple(v) + (c,)
        if t not in seen:
            seen.add(t)
            out.append(list(t))
    total = sum(sizes_of(name, n)) + nc
    return {"name": name, "n": n, "ctrls": cs, "inverse": inverse, "undo": both, "inputs": out,
            "perm": list(draw(st.permutations(range(total)))), "seed": draw(st.integers(0, 99))}


def limited(case):
    """Whether the compiled adder would be asked for more than its one control."""
    return len(case["ctrls"]) > 1 and case["name"] in ("AddQuantum", "AddCarry", "SubtractQuantum")


def labels(case, ev):
    ev.label(case["name"] + (" inverse" if case["inverse"] else ""))
    ev.label("controls %d" % len(case["ctrls"]))
    ev.label("negative control", any(v == 0 for _, v in case["ctrls"]))
    ev.label("undone", case["undo"])
    ev.label("width %s" % (case["n"] if case["n"] < 8 else "8+"))
    ev.mark(any(any(v[:-1]) for v in case["inputs"]))


def use(eng, gate, regs, inverse):
    from projectq.meta import Dagger
    from projectq.ops import get_inverse
    if inverse == 1:
        with Dagger(eng):
            gate | regs
    elif inverse == 2:
        get_inverse(gate) | regs
    else:
        gate | regs


def run_circuit(case, ev):
    """All runs at once as bits, at any width."""
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer
    from projectq.meta import Control
    name, n = case["name"], case["n"]
    cs = case["ctrls"][:1] if limited(case) else case["ctrls"]
    sizes = sizes_of(name, n)
    inputs = case["inputs"]
    if n > 3 or len(inputs) < 4:
        r = random.Random(case["seed"])
        inputs = inputs + [random_values(r, name, n, case["inverse"] > 0) + [r.randrange(1 << len(case["ctrls"]))]
                           for _ in range(24)]
    be = bits.make()(len(inputs))
    eng = MainEngine(be, [AutoReplacer(arith.rules())], verbose=True)
    q = eng.allocate_qureg(len(case["perm"]))
    eng.flush()
    be.initial = set(be.bits)
    regs, k = [], 0
    for s in sizes + [len(case["ctrls"])]:
        regs.append([q[p] for p in case["perm"][k:k + s]])
        k += s
    ids = [[x.id for x in r] for r in regs]
    for i, r in enumerate(ids):
        be.load(r, [v[i] for v in inputs])
    f, g = forward(name, n), backward(name, n)
    steps = [(case["inverse"], g if case["inverse"] else f)]
    if case["undo"]:
        steps.append((0 if case["inverse"] else 1, f if case["inverse"] else g))
    cur = [tuple(v) for v in inputs]
    for step, (inv, fn) in enumerate(steps):
        before = be.ops
        with Control(eng, [regs[-1][k] for k, _ in cs], ctrl_state="".join(str(v) for _, v in cs)):
            use(eng, gate_of(name), tuple(regs[:-1]), inv)
        eng.flush()
        nxt = []
        for v in cur:
            if all((v[-1] >> k) & 1 == b for k, b in cs):
                v = tuple(fn(*v[:-1])) + (v[-1],)
            nxt.append(v)
        got = list(zip(*[be.read(r) for r in ids]))
        for j, (a, b) in enumerate(zip(got, nxt)):
            if a != b:
                raise Violation("%s%s of %d-qubit registers, controls %s: %s became %s, expected %s" % (
                    name, " inverted" if inv else "", n, cs, cur[j], a, b))
        if set(be.bits) != set(i for r in ids for i in r):
            raise Violation("helper qubits were not released: %s" % sorted(be.bits))
        cur = nxt
        ev.label("several gates", be.ops - before > 3)
    regs = None
    del q
    labels(case, ev)


def random_values(r, name, n, inverse):
    top = (1 << n) - 1
    a, b = r.randint(0, top), r.randint(0, top)
    if name in ("AddQuantum", "SubtractQuantum"):
        return [a, b]
    if name in ("AddCarry", "ComparatorQuantum", "AddCarry2"):
        return [a, b, r.randint(0, 1)]
    if name == "MultiplyQuantum":
        return [a, b, a * b if inverse else 0]
    a, b = max(a, 1), max(b >> r.randrange(n), 1)
    if a < b:
        a, b = b, a
    return [a % b, a // b, b] if inverse else [a, 0, b]


def run_emulation(case, ev):
    name, n = case["name"], case["n"]
    sizes = sizes_of(name, n)
    m = arith.Machine(sizes, len(case["ctrls"]), case["perm"], case["inputs"], case["seed"], False)
    f, g = forward(name, n), backward(name, n)
    from projectq.ops import get_inverse
    steps = [(case["inverse"], g if case["inverse"] else f)]
    if case["undo"]:
        steps.append((0 if case["inverse"] else 1, f if case["inverse"] else g))
    for inv, fn in steps:
        gate = gate_of(name)
        m.apply(get_inverse(gate) if inv == 2 else gate, case["ctrls"], fn, dagger=inv == 1)
        m.check("%s%s of %d-qubit registers" % (name, " inverted" if inv else "", n))
    labels(case, ev)
    m.close()


def run_agree(case, ev):
    """The compiled circuit in superposition on the simulator."""
    name, n = case["name"], case["n"]
    cs = case["ctrls"][:1] if limited(case) else case["ctrls"]
    m = arith.Machine(sizes_of(name, n), len(case["ctrls"]), case["perm"], case["inputs"], case["seed"], True)
    f, g = forward(name, n), backward(name, n)
    steps = [(case["inverse"], g if case["inverse"] else f)]
    if case["undo"]:
        steps.append((0 if case["inverse"] else 1, f if case["inverse"] else g))
    from projectq.ops import get_inverse
    for inv, fn in steps:
        gate = gate_of(name)
        m.apply(get_inverse(gate) if inv == 2 else gate, cs, fn, dagger=inv == 1)
        m.check("%s%s of %d-qubit registers, compiled" % (name, " inverted" if inv else "", n))
    labels(case, ev)
    m.close()


def exhaustive():
    import itertools
    out = []
    for name in NAMES:
        for n in (1, 2, 3):
            for nc in (0, 1, 2):
                if name == "AddCarry2" and nc != 1:
                    continue
                for inverse in (0, 1):
                    vals = []
                    for a, b in itertools.product(range(1 << n), repeat=2):
                        if name in ("AddQuantum", "SubtractQuantum"):
                            vs = [[a, b]]
                        elif name in ("AddCarry", "ComparatorQuantum", "AddCarry2"):
                            vs = [[a, b, 0], [a, b, 1]]
                        elif name == "MultiplyQuantum":
                            vs = [[a, b, a * b if inverse else 0]]
                        elif 0 < b <= a:
                            vs = [[a % b, a // b, b] if inverse else [a, 0, b]]
                        else:
                            vs = []
                        vals += [v + [c] for v in vs for c in range(1 << nc)]
                    total = sum(sizes_of(name, n)) + nc
                    out.append({"name": name, "n": n, "ctrls": [[k, 1] for k in range(nc)], "inverse": inverse,
                                "undo": True, "inputs": vals, "perm": list(range(total)), "seed": 0})
    return out


del gates
TESTS = [
    Test("circuit", lambda: cases(16, 24), run_circuit, 6000, fixed=exhaustive,
         rule="register arithmetic (and inverses, undone again, under controls of either value) compiled to gates: all "
              "operands for widths 1 to 3, sampled operands up to width 24; non-trivial = a non-zero operand"),
    Test("emulation", lambda: cases(12), run_emulation, 2400,
         rule="the same in superposition, emulated by the C++ simulator"),
    Test("emulation-py", lambda: cases(9), run_emulation, 1000, kernel="py",
         rule="the same, emulated by the Python simulator"),
    Test("circuit-superposed", lambda: cases(12), run_agree, 800,
         rule="the compiled circuits on superpositions of operands on the simulator"),
]
