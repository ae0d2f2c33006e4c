"""Programs as JSON: generator, execution on projectq, execution on the reference model."""
import math

from hypothesis import strategies as st

from . import ref
from .core import Violation

# ------------------------------------------------------------------ strategies
PI = math.pi


def angles(lo=-4 * PI, hi=8 * PI):
    special = st.sampled_from([k * PI / 8 for k in (0, 1, 2, 3, 4, 6, 8, 12, 16, 20, 24, 28, 32)]
                              + [-PI / 2, -PI, -PI / 4, 4 * PI, 4 * PI - 1e-13, 1e-13, 2 * PI - 1e-13])
    return st.one_of(special, st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: round(x, 9)))


G1 = ["X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX"]
G1P = ["Rx", "Ry", "Rz", "R", "Ph"]
G2 = ["Swap", "SqrtSwap"]
G2P = ["Rxx", "Ryy", "Rzz"]


@st.composite
def gate_names(draw, names):
    return draw(st.sampled_from(names))


def params_of(draw, name):
    return [draw(angles())] if name in ref.PARAM else []


class Opts:
    def __init__(self, max_q=4, stmts=(1, 12), gates=None, ctl_max=2, neg=True, measure=True, delete=True, flush=True,
                 blocks=("ctl", "dag", "loop", "cu"), feedback=True, anc=True, depth=2, min_q=1, alloc=True,
                 styles=3, spread=False, rich=(), width=99):
        self.max_q, self.stmts, self.ctl_max, self.neg = max_q, stmts, ctl_max, neg
        self.gates = gates if gates is not None else G1 + G1P + G2 + G2P
        self.measure, self.delete, self.flush, self.blocks = measure, delete, flush, tuple(blocks)
        self.spread = spread
        self.width = width          # most qubits one gate may touch, controls included
        self.rich = tuple(rich)     # kinds of stream.templates, "" for none
        self.feedback, self.anc, self.depth, self.min_q, self.alloc, self.styles = (
            feedback, anc, depth, min_q, alloc, styles)


class _S:
    """Generation state: names alive, names whose last event is a measurement."""

    def __init__(self):
        self.alive = []
        self.measured = set()
        self.counter = 0


def _new(s):
    s.counter += 1
    return "q%d" % (s.counter - 1)


def _draw_controls(draw, pool, k, neg):
    k = min(k, len(pool))
    if k == 0:
        return []
    cs = draw(st.permutations(pool))[:k]
    return [[c, draw(st.sampled_from([1, 1, 0])) if neg else 1] for c in cs]


def _gate(draw, s, o, forbidden):
    free = [q for q in s.alive if q not in forbidden]
    names = [g for g in o.gates if ref.NQ[g] <= len(free)]
    if not names:
        return None
    name = draw(st.sampled_from(names))
    perm = draw(st.permutations(free))
    k = ref.NQ[name]
    targets = list(perm[:k])
    rest = list(perm[k:])
    most = min(o.ctl_max, len(rest), o.width - k)
    nc = draw(st.integers(0, most)) if most > 0 else 0
    ctrls = [[c, draw(st.sampled_from([1, 1, 0])) if o.neg else 1] for c in rest[:nc]]
    style = draw(st.integers(0, o.styles - 1)) if nc else 0
    return ["g", name, params_of(draw, name), targets, ctrls, style]


def _rich(draw, s, o, forbidden):
    from . import stream
    free = [q for q in s.alive if q not in forbidden]
    if not free:
        return None
    sp, regs, ctrls = draw(stream.templates(free, neg=o.neg, ctl_max=min(2, o.ctl_max), kinds=o.rich))
    return ["sg", sp, regs, ctrls, draw(st.integers(0, min(1, o.styles - 1))) if ctrls else 0]


def _body(draw, s, o, forbidden, depth, n):
    """A purely unitary block body."""
    out = []
    for _ in range(n):
        kinds = ["g"] * 6 + (["sg"] * 3 if o.rich else [])
        if depth > 0:
            kinds += list(o.blocks)
            if o.anc:
                kinds += ["anc", "cua"]
        kind = draw(st.sampled_from(kinds))
        x = _block(draw, s, o, forbidden, depth, kind)
        if x is not None:
            out.append(x)
    return out


def _block(draw, s, o, forbidden, depth, kind):
    if kind == "g":
        return _gate(draw, s, o, forbidden)
    if kind == "sg":
        return _rich(draw, s, o, forbidden)
    if kind == "ctl":
        pool = [q for q in s.alive if q not in forbidden]
        if len(pool) < 2:
            return None
        cs = _draw_controls(draw, pool, draw(st.integers(1, max(1, min(2, len(pool) - 1)))), o.neg)
        body = _body(draw, s, o, set(forbidden) | {c for c, _ in cs}, depth - 1, draw(st.integers(1, 3)))
        return ["ctl", cs, body]
    if kind == "dag":
        return ["dag", _body(draw, s, o, forbidden, depth - 1, draw(st.integers(1, 3)))]
    if kind == "loop":
        return ["loop", draw(st.integers(0, 3)), _body(draw, s, o, forbidden, depth - 1, draw(st.integers(1, 2)))]
    if kind == "cu":
        return ["cu", _body(draw, s, o, forbidden, depth - 1, draw(st.integers(1, 3))),
                _body(draw, s, o, forbidden, depth - 1, draw(st.integers(0, 2))),
                draw(st.sampled_from(["u", "u", "c"]))]
    if kind in ("anc", "cua"):
        if len(s.alive) >= o.max_q or not s.alive:
            return None
        name = _new(s)
        s.alive.append(name)
        # the helper holds a Boolean function of other qubits, so that it ends clean
        pool = [q for q in s.alive if q not in forbidden and q != name]
        comp = []
        for _ in range(draw(st.integers(1, 2))):
            cs = _draw_controls(draw, pool, draw(st.integers(0, min(2, o.ctl_max))), o.neg)
            comp.append(["g", "X", [], [name], cs, 0])
        touched = {c for g in comp for c, _ in g[4]} | {name}
        body = [g for g in _body(draw, s, o, set(forbidden), 0, draw(st.integers(0, 2)))
                if not targets_of(g) & touched]
        s.alive.remove(name)
        if kind == "cua":
            return ["cua", name, comp, body, draw(st.sampled_from(["u", "u", "c"]))]
        return ["anc", name, comp, body]
    return None


@st.composite
def programs(draw, o):
    s = _S()
    out = []
    k = draw(st.integers(o.min_q, o.max_q))
    while k > 0:
        m = draw(st.integers(1, k))
        names = [_new(s) for _ in range(m)]
        s.alive += names
        out.append(["a", names])
        k -= m
    if o.spread and draw(st.integers(0, 3)):
        for i, q in enumerate(s.alive):
            out += [["g", "Ry", [0.7 + 0.4 * i], [q], [], 0], ["g", "Rz", [0.3 + 0.5 * i], [q], [], 0]]
    for _ in range(draw(st.integers(*o.stmts))):
        kinds = ["g"] * 8 + (["sg"] * 4 if o.rich else [])
        if o.measure and s.alive:
            kinds += ["m"] * 2
        if o.delete and s.alive:
            kinds += ["d"]
        if o.flush:
            kinds += ["f"]
        if o.alloc and len(s.alive) < o.max_q:
            kinds += ["a"] * 2
        if o.feedback and s.measured:
            kinds += ["if"] * 2
        kinds += list(o.blocks)
        if o.anc:
            kinds += ["anc", "cua"]
        kind = draw(st.sampled_from(kinds))
        x = None
        if kind == "a":
            n = draw(st.integers(1, min(2, o.max_q - len(s.alive))))
            names = [_new(s) for _ in range(n)]
            s.alive += names
            x = ["a", names]
        elif kind == "m":
            q = draw(st.sampled_from(s.alive))
            s.measured.add(q)
            x = ["m", [q]]
        elif kind == "d":
            q = draw(st.sampled_from(s.alive))
            s.alive.remove(q)
            x = ["d", q] if q in s.measured and draw(st.booleans()) else ["md", q]
            s.measured.discard(q)
        elif kind == "f":
            x = ["f"]
        elif kind == "if":
            q = draw(st.sampled_from(sorted(s.measured)))
            if s.alive:
                x = ["if", q, draw(st.integers(0, 1)), _body(draw, s, o, set(), 0, draw(st.integers(1, 2)))]
        else:
            x = _block(draw, s, o, set(), o.depth, kind)
        if x is not None:
            out.append(x)
            _touch(x, s)
    bits = draw(st.lists(st.integers(0, 1), min_size=0, max_size=8))
    return {"body": out, "bits": bits}


def targets_of(x):
    return set(x[3]) if x[0] == "g" else {q for r in x[2] for q in r}


def names_in(stmts):
    out = set()
    for x in stmts:
        k = x[0]
        if k == "g":
            out |= set(x[3]) | {c for c, _ in x[4]}
        elif k == "sg":
            out |= targets_of(x) | {c for c, _ in x[3]}
        elif k == "ctl":
            out |= {c for c, _ in x[1]} | names_in(x[2])
        elif k == "dag":
            out |= names_in(x[1])
        elif k == "loop":
            out |= names_in(x[2])
        elif k == "cu":
            out |= names_in(x[1]) | names_in(x[2])
        elif k in ("anc", "cua"):
            out |= names_in(x[2]) | names_in(x[3])
        elif k == "if":
            out |= {x[1]} | names_in(x[3])
        elif k in ("m", "a"):
            out |= set(x[1])
        elif k in ("d", "md"):
            out.add(x[1])
    return out


def _touch(x, s):
    """A measured qubit that is acted on again is no longer classical: forget it for 'd' without measurement."""
    if x[0] in ("m", "a", "d", "md", "f"):
        return
    body = [x] if x[0] != "if" else x[3]
    s.measured -= names_in(body)


# ------------------------------------------------------------------ flattening (reference meaning)
def flatten(stmts, ctrls=()):
    """Unitary statements -> primitive list [("u", matrix, targets, [[c, v]...]) | ("alloc", q) | ("dealloc", q)]."""
    out = []
    for x in stmts:
        k = x[0]
        if k == "g":
            cs = dict((c, v) for c, v in ctrls)
            cs.update((c, v) for c, v in x[4])
            out.append(("u", ref.matrix(x[1], x[2]), list(x[3]), list(cs.items())))
        elif k == "sg":
            from . import spec
            names = [q for r in x[2] for q in r]
            m = ref.unitary_of(lambda s: spec.act(s, x[1], index_regs(x[2])), len(names))  # noqa: B023
            cs = dict((c, v) for c, v in ctrls)
            cs.update((c, v) for c, v in x[3])
            out.append(("u", m, names, list(cs.items())))
        elif k == "ctl":
            out += flatten(x[2], list(ctrls) + [tuple(c) for c in x[1]])
        elif k == "dag":
            out += invert(flatten(x[1], ctrls))
        elif k == "loop":
            b = flatten(x[2], ctrls)
            for _ in range(x[1]):
                out += b
        elif k == "cu":
            # the compute part and its undoing act unconditionally equal to acting conditionally on the controls
            c = flatten(x[1], ())
            out += c + flatten(x[2], ctrls) + invert(c)
        elif k == "anc":
            c = flatten(x[2], ctrls)
            out += [("alloc", x[1])] + c + flatten(x[3], ctrls) + invert(c) + [("dealloc", x[1])]
        elif k == "cua":
            c = flatten(x[2], ())
            out += [("alloc", x[1])] + c + flatten(x[3], ctrls) + invert(c) + [("dealloc", x[1])]
        else:
            raise ValueError("not unitary: %s" % k)
    return out


def index_regs(regs):
    out, i = [], 0
    for r in regs:
        out.append(list(range(i, i + len(r))))
        i += len(r)
    return out


def invert(prims):
    out = []
    for p in reversed(prims):
        if p[0] == "u":
            out.append(("u", p[1].conj().T, p[2], p[3]))
        elif p[0] == "alloc":
            out.append(("dealloc", p[1]))
        else:
            out.append(("alloc", p[1]))
    return out


def run_prims(state, prims):
    for p in prims:
        if p[0] == "u":
            state.apply(p[1], p[2], [c for c, _ in p[3]], [v for _, v in p[3]])
        elif p[0] == "alloc":
            state.alloc(p[1])
        else:
            if state.value(p[1]) != 0:
                raise ref.RefError("helper qubit not clean")
            state.dealloc(p[1])


# ------------------------------------------------------------------ execution on projectq
def pq_gate(name, params):
    import projectq.ops as o
    if name in ("Sdag", "Tdag"):
        return getattr(o, name)
    if name == "SqrtXdag":
        return o.get_inverse(o.SqrtX)
    if name == "SqrtSwapdag":
        return o.get_inverse(o.SqrtSwap)
    if name in ref.PARAM:
        return getattr(o, name)(*params)
    return getattr(o, name)


class Runner:
    """Runs a program on a MainEngine and on the reference, the reference following the measured outcomes."""

    def __init__(self, eng, prog):
        self.eng = eng
        self.prog = prog
        self.env = {}
        self.ids = {}
        self.log = []           # reference events, in program order
        self.pending = {}       # name -> event awaiting its outcome
        self.labels = set()
        self.between = None     # called after every statement inside a section

    # --- helpers
    def ctrl(self, ctrls, style, action):
        from projectq.meta import Control
        from projectq.ops import C
        del C
        eng = self.eng
        if not ctrls:
            action()
            return
        if style == 1 and len(ctrls) > 1:
            c, v = ctrls[0]
            with Control(eng, self.env[c], ctrl_state=str(v)):
                self.ctrl(ctrls[1:], style, action)
            return
        if style == 2:
            # integer control state: least significant bit belongs to the first control
            with Control(eng, [self.env[c] for c, _ in ctrls],
                         ctrl_state=sum(v << i for i, (_, v) in enumerate(ctrls))):
                action()
            return
        with Control(eng, [self.env[c] for c, _ in ctrls], ctrl_state="".join(str(v) for _, v in ctrls)):
            action()

    def gate(self, x):
        from projectq.ops import C
        _, name, params, targets, ctrls, style = x
        g = pq_gate(name, params)
        tq = tuple(self.env[t] for t in targets)
        if style == 2 and ctrls and all(v for _, v in ctrls):
            C(g, len(ctrls)) | ([self.env[c] for c, _ in ctrls], *tq)
            return
        self.ctrl(ctrls, style, lambda: g | tq)

    def rich(self, x, inverse=False):
        from projectq.ops import get_inverse

        from . import spec
        _, sp, regs, ctrls, style = x
        g = spec.build(sp)
        if inverse:
            g = get_inverse(g)
        if sp[0] in ref.NQ:
            t = tuple(self.env[r[0]] for r in regs)
        elif len(regs) == 1:
            t = [self.env[q] for q in regs[0]]
        else:
            t = tuple([self.env[q] for q in r] for r in regs)
        self.ctrl(ctrls, style, lambda: g | t)

    def block(self, x):
        from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
        eng = self.eng
        k = x[0]
        if k == "g":
            self.gate(x)
        elif k == "sg":
            self.rich(x)
        elif k == "ctl":
            with Control(eng, [self.env[c] for c, _ in x[1]], ctrl_state="".join(str(v) for _, v in x[1])):
                self.blocks(x[2])
        elif k == "dag":
            with Dagger(eng):
                self.blocks(x[1])
        elif k == "loop":
            with Loop(eng, x[1]):
                self.blocks(x[2])
        elif k == "cu":
            with Compute(eng):
                self.blocks(x[1])
            self.blocks(x[2])
            if x[3] == "u":
                Uncompute(eng)
            else:
                with CustomUncompute(eng):
                    self.inverse_blocks(x[1])
        elif k == "anc":
            q = eng.allocate_qubit()
            self.env[x[1]] = q[0]
            self.blocks(x[2])
            self.blocks(x[3])
            self.inverse_blocks(x[2])
            del self.env[x[1]]
            del q[0]
        elif k == "cua":
            with Compute(eng):
                q = eng.allocate_qubit()
                self.env[x[1]] = q[0]
                self.blocks(x[2])
            self.blocks(x[3])
            if x[4] == "u":
                Uncompute(eng)
                del self.env[x[1]]
            else:
                with CustomUncompute(eng):
                    self.inverse_blocks(x[2])
                    del self.env[x[1]]
                    del q[0]
        else:
            raise ValueError(k)

    def blocks(self, xs):
        for x in xs:
            self.block(x)
            if self.between is not None:
                self.between()

    def inverse_blocks(self, xs):
        """Explicitly written inverse of a block (no Dagger)."""
        from projectq.meta import Control
        from projectq.ops import get_inverse
        for x in reversed(xs):
            k = x[0]
            if k == "g":
                g = get_inverse(pq_gate(x[1], x[2]))
                tq = tuple(self.env[t] for t in x[3])
                self.ctrl(x[4], 0, lambda g=g, tq=tq: g | tq)
            elif k == "sg":
                self.rich(x, inverse=True)
            elif k == "ctl":
                with Control(self.eng, [self.env[c] for c, _ in x[1]], ctrl_state="".join(str(v) for _, v in x[1])):
                    self.inverse_blocks(x[2])
            elif k == "dag":
                self.blocks(x[1])
            elif k == "loop":
                for _ in range(x[1]):
                    self.inverse_blocks(x[2])
            elif k == "cu":
                self.blocks(x[1])
                self.inverse_blocks(x[2])
                self.inverse_blocks(x[1])
            elif k in ("anc", "cua"):
                q = self.eng.allocate_qubit()
                self.env[x[1]] = q[0]
                self.blocks(x[2])
                self.inverse_blocks(x[3])
                self.inverse_blocks(x[2])
                del self.env[x[1]]
                del q[0]

    def collect(self):
        from projectq.types import WeakQubitRef
        for name, ev in self.pending.items():
            ev[2] = int(WeakQubitRef(self.eng, self.ids[name]))
        self.pending = {}

    def flush(self):
        self.eng.flush()
        self.collect()

    def run(self):
        """Execute on projectq; leaves self.env (live qubits) and self.log."""
        for _ in self.steps():
            pass

    def steps(self):
        """Execute one statement of the program at a time."""
        from projectq.ops import Measure
        eng = self.eng
        for x in self.prog["body"]:
            k = x[0]
            if k == "a":
                qs = eng.allocate_qureg(len(x[1])) if len(x[1]) > 1 else eng.allocate_qubit()
                for n, q in zip(x[1], qs):
                    self.env[n] = q
                    self.ids[n] = q.id
                del qs, q
                self.log.append(["a", x[1]])
            elif k in ("m", "md"):
                names = x[1] if k == "m" else [x[1]]
                if any(n in self.pending for n in names):
                    self.flush()
                for n in names:
                    Measure | self.env[n]
                    ev = ["m", n, None]
                    self.log.append(ev)
                    self.pending[n] = ev
                if k == "md":
                    self.delete(x[1])
            elif k == "d":
                self.delete(x[1])
            elif k == "f":
                self.flush()
            elif k == "if":
                if x[1] in self.pending:
                    self.flush()
                if int(self.env[x[1]]) == x[2]:
                    self.blocks(x[3])
                    self.log.append(["u", x[3]])
                    self.labels.add("feedback taken")
            else:
                self.block(x)
                self.log.append(["u", [x]])
            yield
        self.flush()

    def delete(self, name):
        from projectq.ops import Deallocate  # noqa: F401
        q = self.env.pop(name)
        del q
        self.log.append(["d", name])

    def reference(self):
        """State the program must have reached given the recorded outcomes."""
        s = ref.RefState()
        for ev in self.log:
            k = ev[0]
            if k == "a":
                for n in ev[1]:
                    s.alloc(n)
            elif k == "m":
                if ev[2] is None:
                    raise Violation("no result for the measurement of %s" % ev[1])
                p = s.prob1(ev[1])
                if (p if ev[2] else 1 - p) < 1e-5:
                    raise Violation("measurement of %s returned %d, which has probability %.3g" % (
                        ev[1], ev[2], p if ev[2] else 1 - p))
                s.project(ev[1], ev[2])
            elif k == "d":
                s.dealloc(ev[1])
            else:
                run_prims(s, flatten(ev[1]))
        return s


def state_of_backend(backend, names_to_ids, mapping=None):
    """Reference-ordered vector of a RefBackend for {name: logical id}."""
    order = [names_to_ids[n] for n in names_to_ids]
    if mapping is not None:
        order = [mapping[i] for i in order]
    return backend.state.vector(order)


def simulator_vector(sim, qubits):
    """Full state of a Simulator in the order of the given live qubits, through its public interface."""
    import numpy as np
    mp, wf = sim.cheat()
    wf = np.asarray(wf)
    ids = sorted(mp, key=lambda k: mp[k])
    return ref.reorder(wf, ids, [q.id for q in qubits]), mp
