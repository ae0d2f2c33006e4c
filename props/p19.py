"""P19: the classical simulator computes the integer semantics of reversible programs."""
from hypothesis import strategies as st

from props.p04 import function, gate
from vf import spec
from vf.core import Test, Violation

ASSUMPTIONS = ["programs of up to 40 operations on up to 70 bits (10 next to the quantum simulator)",
               "modular additions are given values below the modulus, divisions a divisor and remainder as documented"]
QUANTUM = ["AddQuantum", "SubtractQuantum", "MultiplyQuantum", "ComparatorQuantum"]


@st.composite
def cases(draw, flavours=("raw", "raw", "compiled", "compiled", "manual", "main", "opt"), most=70, quantum=False):
    flavour = draw(st.sampled_from(flavours))
    alive, ctr, ops = [], 0, []
    for _ in range(draw(st.integers(2, 40))):
        k = draw(st.sampled_from(["a"] * (9 if len(alive) < 4 else 3) + ["d", "x", "x", "x", "x", "fn", "fn", "lib", "lib", "q", "m", "swap"]
                                 + ([] if quantum else ["wb", "wr", "wr", "rr", "bad"])))
        perm = list(draw(st.permutations(alive[-12:] if len(alive) > 12 and draw(st.booleans()) else alive))) if alive else []
        n = len(perm)

        def controls(rest, top=3):
            return [[q, draw(st.integers(0, 3)) > 0] for q in rest[:draw(st.integers(0, top))]]
        if k == "a":
            w = draw(st.sampled_from([1, 1, 2, 3, 4, 4, 6, 20, 33] if most > 20 else [1, 2, 3, 4]))
            w = min(w, most - len(alive))
            if w > 0:
                alive += list(range(ctr, ctr + w))
                ops.append(["a", list(range(ctr, ctr + w))])
                ctr += w
        elif not n:
            continue
        elif k == "d":
            gone = perm[:draw(st.integers(1, min(3, n)))]
            alive = [q for q in alive if q not in gone]
            ops.append(["d", gone])
        elif k == "x":
            ops.append(["x", perm[0], controls(perm[1:])])
        elif k == "swap" and n > 1:
            ops.append(["swap", perm[0], perm[1], controls(perm[2:], 1)])
        elif k == "wb":
            ops.append(["wb", perm[0], draw(st.sampled_from([0, 1, True, False]))])
        elif k in ("wr", "rr"):
            r = perm[:draw(st.integers(0, n))]
            ops.append([k, r, draw(st.integers(0, (1 << len(r)) - 1))])
        elif k == "m":
            ops.append(["m", perm[:draw(st.integers(1, n))]])
        elif k == "bad":
            r = perm[:draw(st.integers(0, n))]
            ops.append(["bad", draw(st.sampled_from(["big", "negative", "gone-read", "gone-write", "measure"])), r])
        elif k == "lib":
            w = draw(st.integers(1, min(n, 24 if most > 20 else 5)))
            big = draw(st.integers(1, 1 << w))
            what = draw(st.sampled_from([["AddConstant", draw(st.integers(-(1 << 70), 1 << 70))],
                                         ["SubConstant", draw(st.integers(0, 1 << w))],
                                         ["FlipBits", draw(st.integers(0, (1 << w) - 1))],
                                         ["AddConstantModN", draw(st.integers(0, big - 1)), big],
                                         ["SubConstantModN", draw(st.integers(0, big - 1)), big]]))
            ops.append(["lib", what, [perm[:w]], controls(perm[w:], 2)])
        elif k == "q":
            w = draw(st.integers(1, 6 if most > 20 else 2))
            what = draw(st.sampled_from(QUANTUM))
            sizes = {"AddQuantum": [w, w, 1], "SubtractQuantum": [w, w], "MultiplyQuantum": [w, w, 2 * w + 1],
                     "ComparatorQuantum": [w, w, 1]}[what]
            if what == "AddQuantum" and draw(st.booleans()):
                sizes = sizes[:2]
            if sum(sizes) <= n:
                regs, i = [], 0
                for s in sizes:
                    regs.append(perm[i:i + s])
                    i += s
                ops.append(["lib", [what], regs, controls(perm[i:], 1)])
        elif k == "fn":
            regs, i = [], 0
            for _ in range(draw(st.integers(1, 3))):
                r = perm[i:i + draw(st.integers(1, 4))]
                i += len(r)
                if r:
                    regs.append(r)
            kind = draw(st.sampled_from(["table", "affine", "affine", "chain", "xor", "maddinto", "swap", "negate"]))
            if kind == "table" and i > 8 or kind == "swap" and [len(r) for r in regs] != [len(r) for r in regs][::-1]:
                kind = "affine"
            if kind in ("chain", "maddinto", "xor") and len(regs) < 2:
                kind = "affine"
            args = {"table": [draw(st.integers(0, 9999)), draw(st.booleans())],
                    "affine": [draw(st.integers(-9, 9)) | 1, draw(st.integers(-(1 << 70), 1 << 40))],
                    "chain": [draw(st.integers(1, 5)), draw(st.sampled_from([1, -1]))],
                    "xor": [draw(st.integers(0, 15))], "maddinto": [draw(st.sampled_from([1, -1, 3]))],
                    "swap": [], "negate": [draw(st.booleans())]}[kind]
            ops.append(["fn", kind, args, regs, controls(perm[i:]), draw(st.sampled_from(["tuple", "list", "late"]))])
    return {"flavour": flavour, "ops": ops, "order": draw(st.integers(0, 999))}


def engine(flavour):
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator, Simulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer, ManualMapper
    rules = AutoReplacer(DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions]))
    if flavour == "quantum":
        sim = Simulator(rnd_seed=1)
        return sim, MainEngine(sim, [rules], verbose=True)
    sim = ClassicalSimulator()
    if flavour == "main":
        return sim, MainEngine(sim, verbose=True)
    engines = {"raw": [], "compiled": [rules], "opt": [rules, LocalOptimizer(7)],
               "manual": [rules, ManualMapper(lambda i: 1000 - i if i % 2 else 3 * i)]}[flavour]
    return sim, MainEngine(sim, engines, verbose=True)


def run(case, ev):
    import random
    from projectq.cengines import DecompositionRuleSet  # noqa: F401  (fails early when the package is broken)
    from projectq.meta import Control
    from projectq.ops import Measure, Swap, X
    from projectq.types import WeakQubitRef
    sim, eng = engine(case["flavour"])
    raw, quantum = case["flavour"] == "raw", case["flavour"] == "quantum"
    q, bit, moved = {}, {}, 0
    rnd = random.Random(case["order"])

    def reg(names):
        return [q[i] for i in names]

    def value(names):
        return sum(bit[i] << j for j, i in enumerate(names))

    def store(names, v):
        for j, i in enumerate(names):
            bit[i] = (v >> j) & 1

    def check(what):
        eng.flush()
        order = sorted(bit)
        rnd.shuffle(order)
        if quantum:
            if bit and sim.get_probability([bit[i] for i in order], reg(order)) < 1 - 1e-6:
                raise Violation("%s: the quantum simulator is not in the state %s" % (what, bit))
            return
        got = sim.read_register(reg(order))
        if got != value(order):
            raise Violation("%s: register %s reads %d, should be %d" % (what, order, got, value(order)))
        for i in order[:5]:
            if sim.read_bit(q[i]) != bit[i]:
                raise Violation("%s: bit %d reads %s, should be %d" % (what, i, sim.read_bit(q[i]), bit[i]))
    try:
        for x in case["ops"]:
            k, refused = x[0], False
            if k == "a":
                new = eng.allocate_qureg(len(x[1]))
                for i, qb in zip(x[1], new):
                    q[i], bit[i] = qb, 0
                del new, qb
            elif k == "d":
                eng.flush()
                for i in x[1]:
                    qb = q.pop(i)
                    qb.engine.deallocate_qubit(qb)
                    del qb, bit[i]
            elif k in ("x", "swap", "fn", "lib"):
                ctrls = x[2] if k == "x" else x[3] if k in ("swap", "lib") else x[4]
                if k == "x":
                    g, regs, f = X, [[x[1]]], lambda a: (a ^ 1,)
                elif k == "swap":
                    g, regs, f = Swap, [[x[1]], [x[2]]], lambda a, b: (b, a)
                elif k == "fn":
                    sizes = [len(r) for r in x[3]]
                    g, f, regs = gate(x[1], x[2], sizes, x[5]), function(x[1], x[2], sizes), x[3]
                else:
                    regs = x[2]
                    g, f = spec.build(x[1]), spec.meaning(x[1], [len(r) for r in regs])[1]
                    if x[1][0].endswith("ModN") and value(regs[0]) >= x[1][2]:
                        eng.flush()
                        if quantum:
                            continue
                        sim.write_register(reg(regs[0]), value(regs[0]) % x[1][2])
                        store(regs[0], value(regs[0]) % x[1][2])
                    if x[1][0] in QUANTUM and len(regs) == 3:
                        # third registers are defined for the value zero
                        for i in regs[2]:
                            if bit[i]:
                                X | q[i]
                                bit[i] = 0
                    if x[1][0] == "FlipBits" and case["flavour"] != "raw":
                        ev.label("FlipBits")
                try:
                    with Control(eng, reg([c for c, _ in ctrls]), ctrl_state="".join(str(int(v)) for _, v in ctrls)):
                        g | tuple(reg(r) for r in regs)
                    eng.flush()
                except Exception:
                    # without a compiler only positive controls on flips and functions are native
                    if not raw or k != "swap" and all(v for _, v in ctrls):
                        raise
                    refused = True
                    ev.label("declined")
                if not refused and all(bit[c] == int(v) for c, v in ctrls):
                    old = dict(bit)
                    for r, v in zip(regs, f(*[value(r) for r in regs])):
                        store(r, v)
                    moved += old != bit
                    ev.label("controlled and executed", bool(ctrls))
            elif k == "wb":
                eng.flush()
                sim.write_bit(q[x[1]], x[2])
                bit[x[1]] = int(x[2])
            elif k == "wr":
                eng.flush()
                sim.write_register(reg(x[1]), x[2])
                store(x[1], x[2])
            elif k == "rr":
                eng.flush()
                got = sim.read_register(reg(x[1]))
                if got != value(x[1]):
                    raise Violation("register %s reads %s, should be %d" % (x[1], got, value(x[1])))
            elif k == "m":
                for i in x[1]:
                    Measure | q[i]
                eng.flush()
                for i in x[1]:
                    if int(q[i]) != bit[i]:
                        raise Violation("bit %d is %d, but %s was measured" % (i, bit[i], int(q[i])))
            elif k == "bad":
                eng.flush()
                ghost = WeakQubitRef(eng, 987654)
                r = reg(x[2])
                call = {"big": lambda: sim.write_register(r, 1 << len(r)), "negative": lambda: sim.write_register(r, -1),
                        "gone-read": lambda: sim.read_register(r + [ghost]),
                        "gone-write": lambda: sim.write_bit(ghost, 1),
                        "measure": (lambda: controlled_measure(eng, r)) if len(r) > 1 and raw else None}[x[1]]
                if call:
                    try:
                        call()
                    except Exception:
                        ev.label("rejected")
                    else:
                        raise Violation("%s: accepted" % x[1])
                del r, call
            check(str(x))
    finally:
        eng.next_engine.receive = sim.receive = lambda cl: None
        q.clear()
    ev.label(case["flavour"])
    ev.mark(moved >= 2)


def controlled_measure(eng, r):
    from projectq.ops import Command, Measure
    eng.backend.receive([Command(eng, Measure, ([r[0]],), controls=list(r[1:]))])


# ------------------------------------------------------------------ what it claims to support
@st.composite
def offers(draw):
    n = draw(st.integers(1, 5))
    perm = list(draw(st.permutations(range(n))))
    name = draw(st.sampled_from(["X", "X", "Y", "Z", "H", "S", "T", "SX", "Swap", "Rx", "Ph", "Mat", "AddConstant", "FlipBits", "QFT", "Barrier"]))
    w = 2 if name == "Swap" else draw(st.integers(1, n)) if name in ("AddConstant", "FlipBits", "QFT") else 1
    w = min(w, n)
    rest = perm[w:]
    return {"n": n, "name": name, "regs": perm[:w], "bits": draw(st.integers(0, (1 << n) - 1)), "arg": draw(st.integers(-9, 9)),
            "ctrls": [[c, draw(st.booleans())] for c in rest[:draw(st.integers(0, 3))]]}


def run_offer(case, ev):
    """A command it calls available must be executed exactly; other commands must not change its bits silently."""
    import projectq.ops as o
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator
    from projectq.libs.math import AddConstant
    from projectq.ops import Command
    sim = ClassicalSimulator()
    eng = MainEngine(sim, [], verbose=True)
    q = list(eng.allocate_qureg(case["n"]))
    try:
        sim.write_register(q, case["bits"])
        name, r = case["name"], case["regs"]
        if name == "Swap" and len(r) < 2:
            name = "X"
        g = {"Rx": lambda: o.Rx(0.5), "Ph": lambda: o.Ph(0.5), "Mat": lambda: o.MatrixGate([[0, 1], [1, 0]]),
             "AddConstant": lambda: AddConstant(case["arg"]), "FlipBits": lambda: o.FlipBits(case["arg"] & 7)}.get(
                 name, lambda: getattr(o, {"SX": "SqrtX"}.get(name, name)))()
        regs = [[q[r[0]]], [q[r[1]]]] if name == "Swap" else [[q[i] for i in r]]
        cmd = Command(eng, g, tuple(regs), controls=[q[c] for c, _ in case["ctrls"]],
                      control_state="".join(str(int(v)) for _, v in case["ctrls"]))
        offered = sim.is_available(cmd)
        try:
            sim.receive([cmd])
            done = True
        except Exception:
            done = False
        got = sim.read_register(q)
        want = case["bits"]
        active = all((want >> c) & 1 == int(v) for c, v in case["ctrls"])
        known = True
        if active:
            if name in ("X", "Mat", "Y"):
                want ^= 1 << r[0]
            elif name == "Swap":
                a, b = (want >> r[0]) & 1, (want >> r[1]) & 1
                want = want & ~(1 << r[0]) & ~(1 << r[1]) | a << r[1] | b << r[0]
            elif name == "AddConstant":
                v = (sum(((want >> i) & 1) << j for j, i in enumerate(r)) + case["arg"])
                for j, i in enumerate(r):
                    want = want & ~(1 << i) | ((v >> j) & 1) << i
            elif name == "FlipBits":
                for j, i in enumerate(r):
                    want ^= ((case["arg"] & 7) >> j & 1) << i
            elif name == "Barrier":
                pass
            else:
                known = False
        if done and (got != want or not known):
            raise Violation("%s executed as bits %s -> %s" % (cmd, bin(case["bits"]), bin(got)))
        if not done and got != case["bits"]:
            raise Violation("%s was refused but the bits changed: %s -> %s" % (cmd, bin(case["bits"]), bin(got)))
        if offered and not done:
            raise Violation("%s is called available but is refused" % cmd)
        positive = all(v for _, v in case["ctrls"])
        if positive and name in ("X", "AddConstant") and not offered:
            raise Violation("%s is not available" % cmd)
        ev.label("offered" if offered else "declined")
        ev.mark(bool(case["ctrls"]) or not offered)
        del cmd, regs
    finally:
        eng.next_engine.receive = sim.receive = lambda cl: None
        del q


RULE = ("programs of (controlled) flips, swaps, integer functions, library arithmetic, register reads and writes, measurements, "
        "allocations, releases and invalid calls against plain integers after every step; non-trivial = two steps changed bits")
TESTS = [
    Test("programs", cases, run, 3000, rule=RULE),
    Test("quantum", lambda: cases(("quantum",), 9, True), run, 250,
         rule="the same programs (without direct writes) on the quantum simulator; non-trivial = two steps changed bits"),
    Test("offers", offers, run_offer, 5000,
         rule="single commands: what is called available is executed exactly, anything else is refused; non-trivial = controlled or refused"),
]
