"""Large registers: programs of classical and opaque gates, where every qubit is a 64-bit word.

A word holds the qubit's value in 64 runs. X, CNOT and Swap act on all runs at once; an opaque one-qubit gate turns the word
and adds a pattern, so any misplaced, lost, doubled or reordered gate changes the words from then on."""
import random

from hypothesis import strategies as st

from .core import Violation

M = (1 << 64) - 1


def opaque(k, w):
    r = random.Random(k)
    s = r.randint(1, 63)
    return ((w << s | w >> (64 - s)) ^ r.getrandbits(64)) & M


def gate_class():
    from projectq.ops import BasicGate

    class Opaque(BasicGate):
        def __init__(self, k):
            super().__init__()
            self.k = k

        def __str__(self):
            return "Opaque(%d)" % self.k

        def __eq__(self, other):
            return isinstance(other, Opaque) and other.k == self.k

        def __hash__(self):
            return hash(str(self))
    return Opaque


@st.composite
def cases(draw, most, length=(20, 400)):
    return {"seed": draw(st.integers(0, 10 ** 9)), "n": draw(st.integers(length[0], length[1])), "most": draw(st.integers(2, most)),
            "mix": draw(st.sampled_from(["local", "far", "far", "few", "star"])), "turn": draw(st.sampled_from([0, 0, 0.02, 0.15])),
            "flush": draw(st.sampled_from([0, 0, 0.005, 0.05])), "early": draw(st.booleans())}


def program(case, swap=True, values=True, meas=True):
    """["a", i] ["d", i] ["x", i] ["o", i, k] ["cx", c, v, t] ["sw", i, j] ["m", i] ["f"]"""
    r = random.Random(case["seed"])
    live, out, nxt = [], [], 0
    most = case["most"]

    def new():
        nonlocal nxt
        out.append(["a", nxt])
        live.append(nxt)
        nxt += 1
        if r.random() < 0.8:
            out.append(["o", live[-1], r.randint(0, 999)])
    for _ in range(most if case["early"] else r.randint(2, most)):
        new()
    few = r.sample(live, min(len(live), 4))
    for _ in range(case["n"]):
        if r.random() < case["turn"]:
            if len(live) > 2 and r.random() < 0.5:
                i = live.pop(r.randrange(len(live)))
                if meas and r.random() < 0.5:
                    out.append(["m", i])
                out.append(["d", i])
            elif len(live) < most:
                new()
            continue
        if r.random() < case["flush"]:
            out.append(["f"])
            continue
        if case["mix"] == "few":
            few = [i for i in few if i in live]
            if len(few) < 2 or r.random() < 0.02:
                few = r.sample(live, min(len(live), 4))
        i, j = r.sample(few if case["mix"] == "few" else live, 2)
        if case["mix"] == "local":
            k = r.randrange(len(live) - 1)
            i, j = live[k:k + 2][::r.choice((1, -1))]
        elif case["mix"] == "star" and j != live[0]:
            i = live[0]
        kind = r.random()
        if kind < 0.45:
            out.append(["cx", i, r.randint(0, 1) if values else 1, j])
        elif kind < 0.55 and swap:
            out.append(["sw", i, j])
        elif kind < 0.65:
            out.append(["x", i])
        elif kind < 0.69 and meas:
            out.append(["m", j])
        else:
            out.append(["o", j, r.randint(0, 9)])
    return out


def backend(hook=None):
    from projectq.cengines import BasicEngine
    from projectq.meta import LogicalQubitIDTag
    from projectq.ops import (
        AllocateQubitGate, ClassicalInstructionGate, DeallocateQubitGate, FlushGate, MeasureGate, SwapGate, XGate,
    )
    from projectq.types import WeakQubitRef

    class Words(BasicEngine):
        def __init__(self):
            super().__init__()
            self.w = {}
            self.count = self.two = 0
            self.accept = None

        def is_available(self, cmd):
            return True if self.accept is None else self.accept(cmd)

        def receive(self, command_list):
            for cmd in command_list:
                self.one(cmd)

        def one(self, cmd):
            g = cmd.gate
            self.count += 1
            if isinstance(g, FlushGate):
                return
            ids = [q.id for r in cmd.qubits for q in r]
            if hook is not None:
                hook(cmd, [q.id for q in cmd.control_qubits], ids)
            if isinstance(g, AllocateQubitGate):
                if ids[0] in self.w:
                    raise Violation("site %d is allocated twice" % ids[0])
                self.w[ids[0]] = 0
                return
            for i in ids + [q.id for q in cmd.control_qubits]:
                if i not in self.w:
                    raise Violation("%s acts on %d, which is not allocated" % (cmd, i))
            if isinstance(g, DeallocateQubitGate):
                del self.w[ids[0]]
                return
            if isinstance(g, MeasureGate):
                lid = ids[0]
                for t in cmd.tags:
                    if isinstance(t, LogicalQubitIDTag):
                        lid = t.logical_qubit_id
                self.main_engine.set_measurement_result(WeakQubitRef(self, lid), self.w[ids[0]] & 1)
                return
            if isinstance(g, ClassicalInstructionGate):
                return
            on = M
            for q, v in zip(cmd.control_qubits, str(cmd.control_state)):
                on &= self.w[q.id] ^ (0 if v == "1" else M)
            self.two += len(ids) + len(cmd.control_qubits) == 2
            if isinstance(g, XGate):
                self.w[ids[0]] ^= on
            elif isinstance(g, SwapGate):
                a, b = ids
                d = (self.w[a] ^ self.w[b]) & on
                self.w[a] ^= d
                self.w[b] ^= d
            elif hasattr(g, "mask"):
                self.w[ids[0]] ^= on & g.mask
            elif hasattr(g, "turn") and not cmd.control_qubits:
                self.w[ids[0]] = turned(g.turn, self.w[ids[0]], g.back)
            elif hasattr(g, "k") and not cmd.control_qubits:
                self.w[ids[0]] = opaque(g.k, self.w[ids[0]])
            else:
                raise Violation("%s reached the backend" % cmd)
    return Words()


def run(ops, engines, be, where, eng=None):
    """Run the program; where() -> {logical id: site}. The words are compared at every flush and at the end."""
    from projectq import MainEngine
    from projectq.meta import Control
    from projectq.ops import Measure, Swap, X
    eng = eng or MainEngine(be, engines, verbose=True)
    opq = gate_class()
    q, w, seen = {}, {}, {}

    def settle():
        eng.flush()
        mp = where()
        got = {}
        for i in q:
            lid = q[i][0].id
            site = lid if mp is None else mp.get(lid)
            if site is None or site not in be.w:
                raise Violation("live qubit %d is at no allocated site (%s)" % (lid, site))
            if site in got:
                raise Violation("qubits %d and %d share site %d" % (i, got[site], site))
            got[site] = i
            if be.w[site] != w[i]:
                raise Violation("after %d commands qubit %d (site %d) is not what the program makes it" % (be.count, i, site))
            if i in seen and int(q[i][0]) != seen[i]:
                raise Violation("qubit %d was measured as %d, the engine says %d" % (i, seen[i], int(q[i][0])))
        if len(be.w) != len(q):
            raise Violation("%d qubits are live, %d sites are in use" % (len(q), len(be.w)))
    try:
        for x in ops:
            k = x[0]
            if k == "a":
                q[x[1]] = eng.allocate_qubit()
                w[x[1]] = 0
            elif k == "d":
                del q[x[1]]
                w.pop(x[1]), seen.pop(x[1], None)
            elif k == "x":
                X | q[x[1]]
                w[x[1]] ^= M
            elif k == "o":
                opq(x[2]) | q[x[1]]
                w[x[1]] = opaque(x[2], w[x[1]])
            elif k == "cx":
                with Control(eng, q[x[1]], ctrl_state=str(x[2])):
                    X | q[x[3]]
                w[x[3]] ^= w[x[1]] ^ (0 if x[2] else M)
            elif k == "sw":
                Swap | (q[x[1]], q[x[2]])
                w[x[1]], w[x[2]] = w[x[2]], w[x[1]]
            elif k == "m":
                Measure | q[x[1]]
                seen[x[1]] = w[x[1]] & 1
            else:
                settle()
        settle()
    finally:
        be.one = lambda cmd: None
        q.clear()
    return be


# ------------------------------------------------------------------ nested sections on large registers
def mask(k):
    return random.Random("mask%d" % k).getrandbits(64)


def mask_class():
    from projectq.ops import BasicGate

    class Mask(BasicGate):
        def __init__(self, m):
            super().__init__()
            self.mask = m

        def __str__(self):
            return "Mask(%d)" % self.mask

        def __eq__(self, other):
            return isinstance(other, Mask) and other.mask == self.mask

        def __hash__(self):
            return hash(str(self))

        def get_inverse(self):
            return Mask(self.mask)
    return Mask


def turn_class():
    from projectq.ops import BasicGate

    class Turn(BasicGate):
        """An opaque gate with an inverse."""

        def __init__(self, k, back=False):
            super().__init__()
            self.turn, self.back = k, back

        def __str__(self):
            return "Turn(%d,%d)" % (self.turn, self.back)

        def __eq__(self, other):
            return isinstance(other, Turn) and (other.turn, other.back) == (self.turn, self.back)

        def __hash__(self):
            return hash(str(self))

        def get_inverse(self):
            return Turn(self.turn, not self.back)
    return Turn


def turned(k, w, back):
    r = random.Random("turn%d" % k)
    s, x = r.randint(1, 63), r.getrandbits(64)
    if not back:
        return ((w << s | w >> (64 - s)) ^ x) & M
    w ^= x
    return (w >> s | w << (64 - s)) & M


@st.composite
def section_cases(draw, kinds):
    return {"seed": draw(st.integers(0, 10 ** 9)), "n": draw(st.integers(2, 40)), "depth": draw(st.integers(1, 7)),
            "width": draw(st.integers(1, 9)), "loop": draw(st.sampled_from([2, 3, 3, 12, 70])), "kinds": kinds}


def sections(case, most=1500):
    """A list of nodes, at most about `most` commands when unrolled:
    ["x", q] ["k", q, mask] ["t", q, turn] ["cx", c, v, t] ["sw", a, b]
    ["ctl", [[q, v]..], body] ["dag", body] ["loop", n, body] ["cu", helper or None, compute, action]"""
    r = random.Random(case["seed"])
    helper = [case["n"]]

    def gate(free, read, turn):
        k = r.random()
        q = r.choice(free)
        if k < 0.15:
            return ["x", q]
        if k < 0.35:
            return ["k", q, r.randint(0, 20)]
        if k < 0.55 and turn:
            return ["t", q, r.randint(0, 20)]
        others = [i for i in read if i != q]
        if k < 0.8 and others:
            return ["cx", r.choice(others), r.randint(0, 1), q]
        two = [i for i in free if i != q]
        if two:
            return ["sw", q, r.choice(two)]
        return ["x", q]

    def body(depth, free, read, turn, budget):
        out, used = [], 0
        for _ in range(r.randint(1, case["width"])):
            if used >= budget:
                break
            if depth and r.random() < 0.45:
                node, u = section(depth - 1, free, read, turn, budget - used)
            else:
                node, u = gate(free, read, turn), 1
            out.append(node)
            used += u
        return out, used

    def section(depth, free, read, turn, budget):
        k = r.choice(case["kinds"])
        if k == "ctl" and len(free) > 1:
            m = r.choice([1, 1, 2, 3, r.randint(1, len(free) - 1), len(free) - 1])
            c = r.sample(free, min(m, len(free) - 1))
            b, u = body(depth, [i for i in free if i not in c], [i for i in read if i not in c], False, budget)
            return ["ctl", [[i, r.choice([1, 1, 0])] for i in c], b], u
        if k == "loop":
            m = r.choice([0, 1, 2, case["loop"], r.randint(1, case["loop"])])
            b, u = body(depth, free, read, turn, max(1, budget // max(1, m)))
            return ["loop", m, b], u * m
        if k == "cu":
            h = None
            if r.random() < 0.5:
                h = helper[0]
                helper[0] += 1
            own = [] if h is None else [h]
            cb, u1 = body(depth, free + own, read + own, turn, budget // 3)
            if h is not None:  # the action leaves what the helper was computed from, so that the helper comes back clean
                free = [i for i in free if i not in touched(cb)]
            ab, u2 = body(depth, free, read + own, turn, budget // 3) if free else ([], 0)
            return ["cu", h, cb, ab], 2 * u1 + u2 + 2
        b, u = body(depth, free, read, turn, budget)
        return ["dag", b], u
    ids = list(range(case["n"]))
    out, used = [], 0
    while used < min(most, 40):
        b, u = body(case["depth"], ids, ids, True, most - used)
        out += b
        used += max(u, 1)
    return out


def touched(nodes):
    out = set()
    for x in nodes:
        if x[0] in ("x", "k", "t"):
            out.add(x[1])
        elif x[0] in ("cx", "sw"):
            out.update((x[1], x[-1]))
        elif x[0] == "ctl":
            out.update([i for i, _ in x[1]], touched(x[2]))
        else:
            for b in x[1:]:
                if isinstance(b, list):
                    out |= touched(b)
    return out


def section_words(nodes, w, on=M, inv=False):
    for x in (reversed(nodes) if inv else nodes):
        k = x[0]
        if k == "x":
            w[x[1]] ^= on
        elif k == "k":
            w[x[1]] ^= on & mask(x[2])
        elif k == "t":
            w[x[1]] = turned(x[2], w[x[1]], inv)
        elif k == "cx":
            w[x[3]] ^= on & (w[x[1]] ^ (0 if x[2] else M))
        elif k == "sw":
            d = on & (w[x[1]] ^ w[x[2]])
            w[x[1]] ^= d
            w[x[2]] ^= d
        elif k == "ctl":
            o = on
            for q, v in x[1]:
                o &= w[q] ^ (0 if v else M)
            section_words(x[2], w, o, inv)
        elif k == "dag":
            section_words(x[1], w, on, not inv)
        elif k == "loop":
            for _ in range(x[1]):
                section_words(x[2], w, on, inv)
        else:
            if x[1] is not None:
                w[x[1]] = 0
            section_words(x[2], w, on)
            section_words(x[3], w, on, inv)
            section_words(x[2], w, on, True)
            if x[1] is not None:
                del w[x[1]]


def section_run(nodes, eng, q, cls):
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
    from projectq.ops import Swap, X
    mask_, turn_ = cls
    for x in nodes:
        k = x[0]
        if k == "x":
            X | q[x[1]]
        elif k == "k":
            mask_(mask(x[2])) | q[x[1]]
        elif k == "t":
            turn_(x[2]) | q[x[1]]
        elif k == "cx":
            with Control(eng, q[x[1]], ctrl_state=x[2]):
                X | q[x[3]]
        elif k == "sw":
            Swap | (q[x[1]], q[x[2]])
        elif k == "ctl":
            with Control(eng, [q[i][0] for i, _ in x[1]], ctrl_state="".join(str(v) for _, v in x[1])):
                section_run(x[2], eng, q, cls)
        elif k == "dag":
            with Dagger(eng):
                section_run(x[1], eng, q, cls)
        elif k == "loop":
            with Loop(eng, x[1]):
                section_run(x[2], eng, q, cls)
        else:
            with Compute(eng):
                if x[1] is not None:
                    q[x[1]] = eng.allocate_qubit()
                section_run(x[2], eng, q, cls)
            section_run(x[3], eng, q, cls)
            Uncompute(eng)
            if x[1] is not None:
                del q[x[1]]


def section_kinds(nodes, into=None):
    into = set() if into is None else into
    for x in nodes:
        if x[0] in ("ctl", "dag", "loop", "cu"):
            into.add(x[0])
            for b in x[1:]:
                if isinstance(b, list) and (not b or isinstance(b[0][0], str)):
                    section_kinds(b, into)
    return into


def section_check(case, engines, be, start):
    """Run the sections of the case from random words; compare every qubit's word."""
    from projectq import MainEngine
    nodes = sections(case)
    cls = (mask_class(), turn_class())
    eng = MainEngine(be, engines, verbose=True)
    q, w = {}, {}
    r = random.Random(start)
    try:
        for i in range(case["n"]):
            q[i] = eng.allocate_qubit()
            w[i] = r.getrandbits(64)
            cls[0](w[i]) | q[i]
        section_run(nodes, eng, q, cls)
        section_words(nodes, w)
        eng.flush()
        for i in q:
            if be.w.get(q[i][0].id) != w[i]:
                raise Violation("after the sections qubit %d (id %d) is not what they make it" % (i, q[i][0].id))
        if len(be.w) != len(q):
            raise Violation("%d qubits are live, the backend holds %d" % (len(q), len(be.w)))
    finally:
        be.one = lambda cmd: None
        q.clear()
    return nodes
