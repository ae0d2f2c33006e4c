"""P14: qubit identities, lifetimes and measurement records in every history."""
import contextlib
import copy
import gc
import io
import json
import os
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vf.core import Test, Violation

ASSUMPTIONS = ["histories of up to 140 steps with at most 6 live qubits and X, CNOT and Measure as the gates, so every result is known",
               "reference counting is the interpreter's; automatic garbage collection is off during a history and collections are steps of it",
               "session end by an uncaught exception is left out (the engine then releases nothing on purpose)"]

ENGINES = ["none", "opt", "opt", "default", "basic", "linear", "grid", "dirty", "replacer"]
BACKENDS = ["ref", "ref", "lazy", "lazy", "sim", "csim", "printer", "counter", "drawer"]
ENDS = ["flush", "del", "cycle", "late", "twice"]
MAXLIVE = 6


@st.composite
def cases(draw, ends=ENDS, length=(4, 30)):
    i = st.integers(0, 11)
    op = st.one_of(
        st.tuples(st.just("alloc"), st.integers(1, 3), st.sampled_from(["qureg", "qureg", "qubit", "dirty"])),
        st.tuples(st.just("alloc"), st.integers(1, 2), st.sampled_from(["qureg", "qubit", "dirty"])),
        st.tuples(st.just("alias"), i, st.sampled_from(["same", "slice", "tuple", "copy", "deepcopy", "closure", "dict"]), i),
        st.tuples(st.just("drop"), i), st.tuples(st.just("drop"), i),
        st.tuples(st.just("x"), i), st.tuples(st.just("x"), i), st.tuples(st.just("cx"), i, i),
        st.tuples(st.just("m"), i), st.tuples(st.just("m"), i),
        st.tuples(st.just("flush")), st.tuples(st.just("flush")), st.tuples(st.just("releaseall")),
        st.tuples(st.just("release"), i, st.sampled_from(["engine", "engine", "del", "pop", "twice"])),
        st.tuples(st.just("gc")), st.tuples(st.just("loop-ref"), i),
        st.tuples(st.just("local"), i, st.sampled_from(["return", "raise", "engine", "generator"])),
        st.tuples(st.just("block"), st.sampled_from(["control", "compute", "loop", "dagger", "loop-local", "dagger-local", "control-local"]), i, i),
        st.tuples(st.just("release"), i, st.sampled_from(["engine", "del"])),
        st.tuples(st.just("dead"), i, st.sampled_from(["x", "cx-target", "cx-control", "measure", "control", "all", "read"])),
        st.tuples(st.just("dead"), i, st.sampled_from(["control", "cx-control", "x"])))
    first = [["alloc", draw(st.integers(1, 3)), draw(st.sampled_from(["qureg", "qureg", "qubit", "dirty"]))], ["alloc", draw(st.integers(1, 2)), "qureg"]]
    return {"ops": first + [list(x) for x in draw(st.lists(op, min_size=length[0], max_size=length[1]))], "engines": draw(st.sampled_from(ENGINES)),
            "backend": draw(st.sampled_from(BACKENDS)), "k": draw(st.integers(1, 6)), "perm": draw(st.integers(0, 9)),
            "end": draw(st.sampled_from(ends)), "order": draw(st.lists(i, max_size=6))}


def spy_class():
    from projectq.cengines import BasicEngine
    from projectq.meta import DirtyQubitTag, LogicalQubitIDTag

    class Spy(BasicEngine):
        """Keeps plain data only, so that it keeps nothing alive."""

        def __init__(self, dirty=False):
            super().__init__()
            self.log = []
            self.dirty = dirty

        def is_meta_tag_handler(self, tag):
            return self.dirty and tag == DirtyQubitTag

        def receive(self, command_list):
            for c in command_list:
                kind = {"AllocateQubitGate": "A", "DeallocateQubitGate": "D", "MeasureGate": "M", "FlushGate": "F"}.get(type(c.gate).__name__, "g")
                ids = [q.id for r in c.all_qubits for q in r]
                logical = [t.logical_qubit_id for t in c.tags if isinstance(t, LogicalQubitIDTag)]
                self.log.append((kind, ids, logical[0] if logical else ids[0], any(isinstance(t, DirtyQubitTag) for t in c.tags)))
            self.send(command_list)
    return Spy


def lazy_backend():
    """Knows the bits, and reports results when the circuit ends, like a hardware service."""
    from projectq.cengines import BasicEngine
    from projectq.meta import LogicalQubitIDTag
    from projectq.types import WeakQubitRef

    class Lazy(BasicEngine):
        def __init__(self):
            super().__init__()
            self.bits, self.pending = {}, []

        def is_available(self, cmd):
            return True

        def receive(self, command_list):
            for c in command_list:
                n = type(c.gate).__name__
                if n == "FlushGate":
                    for i, b in self.pending:
                        self.main_engine.set_measurement_result(WeakQubitRef(self, i), b)
                    self.pending = []
                    continue
                qs = [q.id for r in c.qubits for q in r]
                if n == "AllocateQubitGate":
                    self.bits[qs[0]] = 0
                elif n == "DeallocateQubitGate":
                    del self.bits[qs[0]]
                elif n == "MeasureGate":
                    l = [t.logical_qubit_id for t in c.tags if isinstance(t, LogicalQubitIDTag)]
                    self.pending.append((l[0] if l else qs[0], self.bits[qs[0]]))
                elif all(self.bits[q.id] for q in c.control_qubits):
                    if n == "SwapGate":
                        self.bits[qs[0]], self.bits[qs[1]] = self.bits[qs[1]], self.bits[qs[0]]
                    elif n == "XGate":
                        self.bits[qs[0]] ^= 1
                    else:
                        raise Violation("unexpected gate %s" % c)
    return Lazy()


def session(case):
    from projectq import MainEngine
    from projectq import backends as b
    from projectq import cengines as c
    from vf import refbackend
    Spy = spy_class()
    name, k = case["engines"], case["k"]
    bk = case["backend"]
    if name in ("linear", "grid", "basic") and bk in ("csim", "drawer"):
        bk = "ref"                      # these do not know Swap, or draw more than is of use here
    first, last = Spy(dirty=name == "dirty"), Spy()
    if name == "none" or name == "dirty":
        mid = []
    elif name == "opt":
        mid = [c.LocalOptimizer(k)]
    elif name == "default":
        from projectq.setups import default
        mid = default.get_engine_list()
    elif name == "replacer":
        from projectq.setups import decompositions
        mid = [c.AutoReplacer(c.DecompositionRuleSet(modules=[decompositions])), c.TagRemover(), c.LocalOptimizer(k),
               c.AutoReplacer(c.DecompositionRuleSet(modules=[decompositions]))]
    elif name == "basic":
        m = c.BasicMapperEngine()
        m.current_mapping = {i: (i * 7 + case["perm"]) % 211 for i in range(211)}
        mid = [c.LocalOptimizer(k), m]
    elif name == "linear":
        m = c.LinearMapper(num_qubits=MAXLIVE + 2, cyclic=bool(k & 1), storage=[1, 3, 10, 1000][case["perm"] % 4])
        mid = [m, c.LocalOptimizer(k)]
    else:
        m = c.GridMapper(num_rows=2, num_columns=(MAXLIVE + 2) // 2, storage=[1, 3, 10, 1000][case["perm"] % 4])
        mid = [c.LocalOptimizer(k), m]
    default_measure = bool(k & 1)
    be = {"ref": refbackend.make(), "lazy": lazy_backend, "sim": lambda: b.Simulator(), "csim": b.ClassicalSimulator,
          "printer": lambda: b.CommandPrinter(accept_input=False, default_measure=default_measure), "counter": b.ResourceCounter,
          "drawer": lambda: b.CircuitDrawer(accept_input=False, default_measure=int(default_measure))}[bk]()
    eng = MainEngine(be, [first] + mid + [last], verbose=True)
    fixed = {"printer": int(default_measure), "drawer": int(default_measure), "counter": 0}.get(bk)
    return eng, first, last, fixed, bk == "lazy"


class Box:
    """A model container: tokens in order, holding them."""

    def __init__(self, items):
        self.items = list(items)


class Hist:
    def __init__(self, case):
        self.case = case
        self.eng, first, last, self.fixed, self.lazy = session(case)
        self.first, self.last = first.log, last.log       # the engines themselves would keep the session alive
        self.refs = {}              # name -> container (real)
        self.boxes = {}             # name -> Box (model)
        self.lost = []              # Boxes held by unreachable cycles
        self.dead = set()           # released tokens
        self.all = set()            # tokens handed out
        self.bit = {}
        self.vals = {}
        self.inblock = set()        # ids that lived within one step
        self.n = 0
        self.pos = 0
        self.used = set()

    # -- model

    def held(self):
        return {t for b in list(self.boxes.values()) + self.lost for t in b.items}

    def live(self):
        return {t for t in self.all if t not in self.dead}

    def names(self):
        return sorted(self.boxes)

    def spots(self, alive=True):
        return [(n, i) for n in self.names() for i, t in enumerate(self.boxes[n].items) if (t not in self.dead) == alive]

    def get(self, name):
        c = self.refs[name]
        return c() if callable(c) else c["x"] if isinstance(c, dict) else c

    def settle(self):
        """Qubits without any reference are released."""
        for t in self.live() - self.held():
            self.dead.add(t)

    def fresh(self):
        new = [x for x in self.first[self.pos:] if x[0] == "A"]
        self.pos = len(self.first)
        return new

    # -- steps

    def step(self, op):
        k = op[0]
        getattr(self, "do_" + k.replace("-", "_"))(*op[1:])
        self.settle()
        self.check(op)

    def do_alloc(self, n, how):
        n = min(n, MAXLIVE - len(self.live()))
        if n <= 0:
            return
        self.fresh()
        if how == "qureg":
            c = self.eng.allocate_qureg(n)
        else:
            n = 1
            c = self.eng.allocate_qubit(dirty=how == "dirty")
        new = self.fresh()
        if len(new) != n or len(c) != n:
            raise Violation("asked for %d qubits: %d allocations, a register of %d" % (n, len(new), len(c)))
        name = "r%d" % self.n
        self.n += 1
        for q, (_, ids, _, dirty) in zip(c, new):
            if q.id != ids[0]:
                raise Violation("the register holds qubit %d, allocated was %d" % (q.id, ids[0]))
            if q.id in self.all:
                raise Violation("qubit id %d is used again" % q.id)
            want = how == "dirty" and self.case["engines"] == "dirty"
            if dirty != want:
                raise Violation("allocation %s a dirty-qubit tag" % ("lacks" if want else "has"))
            self.all.add(q.id)
            self.bit[q.id] = 0
            self.vals[q.id] = []
            if want:
                self.used.add(q.id)
        self.boxes[name] = Box([q.id for q in c])
        self.refs[name] = c

    def pick(self, i):
        ns = self.names()
        return ns[i % len(ns)] if ns else None

    def do_alias(self, i, how, j):
        src = self.pick(i)
        if src is None:
            return
        c, b = self.get(src), self.boxes[src]
        new = "r%d" % self.n
        self.n += 1
        if how == "same":
            self.refs[new], self.boxes[new] = self.refs[src], b
            return
        if how == "slice":
            lo = j % (len(b.items) + 1)
            self.refs[new], self.boxes[new] = c[lo:], Box(b.items[lo:])
        elif how == "tuple":
            self.refs[new], self.boxes[new] = tuple(c), Box(b.items)
        elif how == "dict":
            self.refs[new], self.boxes[new] = {"x": list(c)}, Box(b.items)
        elif how == "closure":
            def hold(x):
                return lambda: x
            self.refs[new], self.boxes[new] = hold(list(c)), Box(b.items)
        else:
            k = copy.copy(c) if how == "copy" else copy.deepcopy(c)
            for x, y in zip(k, c):
                if x is not y:
                    raise Violation("%s makes a second reference-counted qubit out of qubit %d" % (how, y.id))
            self.refs[new], self.boxes[new] = k, Box(b.items)

    def do_drop(self, i):
        n = self.pick(i)
        if n is not None:
            del self.boxes[n]
            del self.refs[n]

    def do_x(self, i):
        from projectq.ops import X
        s = self.spots()
        if s:
            n, j = s[i % len(s)]
            X | self.get(n)[j]
            self.bit[self.boxes[n].items[j]] ^= 1

    def two(self, i, j):
        s = self.spots()
        if not s:
            return None
        a, b = s[i % len(s)], s[j % len(s)]
        ta, tb = self.boxes[a[0]].items[a[1]], self.boxes[b[0]].items[b[1]]
        return None if ta == tb else (a, b, ta, tb)

    def do_cx(self, i, j):
        from projectq.ops import CNOT
        t = self.two(i, j)
        if t:
            a, b, ta, tb = t
            CNOT | (self.get(a[0])[a[1]], self.get(b[0])[b[1]])
            self.bit[tb] ^= self.bit[ta]

    def do_m(self, i):
        from projectq.ops import Measure
        s = self.spots()
        if s:
            n, j = s[i % len(s)]
            Measure | self.get(n)[j]
            t = self.boxes[n].items[j]
            self.vals[t].append(self.bit[t] if self.fixed is None else self.fixed)

    def do_flush(self):
        self.eng.flush()
        self.arrived_all()

    def arrived_all(self):
        n = self.arrivals()
        for t in self.all:
            if n.get(t, 0) != len(self.vals[t]):
                raise Violation("qubit %d was measured %d times, %d measurements reached the backend by the flush" % (t, len(self.vals[t]), n.get(t, 0)))

    def do_releaseall(self):
        self.eng.flush(deallocate_qubits=True)
        self.dead |= self.all
        self.arrived_all()

    def do_release(self, i, how):
        s = self.spots()
        if not s:
            return
        n, j = s[i % len(s)]
        t = self.boxes[n].items[j]
        if how == "pop":
            if type(self.refs[n]).__name__ != "Qureg":
                return
            self.refs[n].pop(j)
            self.boxes[n].items.pop(j)
            return
        if how == "del":
            self.get(n)[j].__del__()
        else:
            self.eng.deallocate_qubit(self.get(n)[j])
        self.dead.add(t)
        if how == "twice":
            before = len(self.first)
            try:
                self.eng.deallocate_qubit(self.get(n)[j])
            except ValueError:
                pass
            else:
                raise Violation("qubit %d was released twice without an error" % t)
            if len(self.first) != before:
                raise Violation("the second release of qubit %d sent a command" % t)

    def do_gc(self):
        gc.collect()
        self.lost = []

    def do_loop_ref(self, i):
        """The register is now only held by an unreachable cycle."""
        n = self.pick(i)
        if n is None:
            return
        ring = [self.get(n)]
        ring.append(ring)
        self.lost.append(self.boxes.pop(n))
        del self.refs[n]

    def do_local(self, i, how):
        from projectq.ops import CNOT, X
        if len(self.live()) >= MAXLIVE:
            return
        s = self.spots()
        src = s[i % len(s)] if s else None
        eng = self.eng

        def routine():
            a = eng.allocate_qubit()
            for _ in range(2):
                if src:
                    CNOT | (self.get(src[0])[src[1]], a)
                else:
                    X | a
            if how == "raise":
                raise KeyError("user error")
            if how == "engine":
                eng.deallocate_qubit(a[0])

        def gen():
            a = eng.allocate_qubit()
            yield len(a)
            X | a
        if how == "generator":
            g = gen()
            next(g)
            g.close()
        else:
            try:
                routine()
            except KeyError:
                pass
        self.local()

    def local(self):
        self.inblock |= {x[1][0] for x in self.first if x[0] == "A"} - self.all

    def do_block(self, kind, i, j):
        from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
        from projectq.ops import CNOT, X
        t = self.two(i, j)
        if not t or kind.endswith("local") and len(self.live()) >= MAXLIVE:
            return
        a, b, ta, tb = t
        eng = self.eng

        def A():
            return self.get(a[0])[a[1]]

        def B():
            return self.get(b[0])[b[1]]

        def helper():
            h = eng.allocate_qubit()
            CNOT | (A(), h)
            CNOT | (h, B())
            CNOT | (A(), h)
        if kind == "control":
            with Control(eng, A()):
                X | B()
            self.bit[tb] ^= self.bit[ta]
        elif kind == "compute":
            with Compute(eng):
                X | A()
            CNOT | (A(), B())
            Uncompute(eng)
            self.bit[tb] ^= 1 - self.bit[ta]
        elif kind == "loop":
            with Loop(eng, 3):
                X | A()
            self.bit[ta] ^= 1
        elif kind == "dagger":
            with Dagger(eng):
                X | A()
                CNOT | (A(), B())
            self.bit[tb] ^= self.bit[ta]
            self.bit[ta] ^= 1
        elif kind == "loop-local":
            with Loop(eng, 3):
                helper()
            self.bit[tb] ^= self.bit[ta]
        elif kind == "dagger-local":
            with Dagger(eng):
                helper()
            self.bit[tb] ^= self.bit[ta]
        else:
            with Control(eng, A()):
                h = eng.allocate_qubit()
                X | h
                X | B()
                X | h
                del h
            self.bit[tb] ^= self.bit[ta]
        self.local()

    def do_dead(self, i, how):
        from projectq.meta import Control
        from projectq.ops import CNOT, All, Measure, X
        s, live = self.spots(False), self.spots()
        if not s:
            return
        n, j = s[i % len(s)]
        q = self.get(n)[j]
        if q.id in self.all:
            raise Violation("a released qubit still reports the identity %d" % q.id)
        if how != "read" and how not in ("x", "measure", "all") and not live:
            return
        o = self.get(live[i % len(live)][0])[live[i % len(live)][1]] if live else None
        before = len(self.last)
        try:
            if how == "x":
                X | q
            elif how == "all":
                All(X) | [q]
            elif how == "measure":
                Measure | q
            elif how == "cx-target":
                CNOT | (o, q)
            elif how == "cx-control":
                CNOT | (q, o)
            elif how == "control":
                with Control(self.eng, q):
                    X | o
            else:
                bool(q)
        except Exception:  # noqa: BLE001
            pass
        else:
            if how == "read":
                raise Violation("a released qubit reports a classical value")
        del q, o
        for kind, ids, _, _ in self.last[before:]:
            if kind != "F" and any(x < 0 for x in ids):
                raise Violation("an operation on a released qubit (%s) reaches the backend" % how)

    # -- checks

    def arrivals(self):
        n, waiting = {}, {}
        for kind, ids, logical, _ in self.last:
            if kind == "M":
                (waiting if self.lazy else n)[logical] = (waiting if self.lazy else n).get(logical, 0) + 1
            elif kind == "F":
                for t, k in waiting.items():
                    n[t] = n.get(t, 0) + k
                waiting = {}
        return n

    def check(self, op):
        stream(self.first, "entering the pipeline", True)
        stream(self.last, "reaching the backend", False)
        live = living(self.first)
        if live != self.live():
            raise Violation("after %s: qubits %s are live, should be %s" % (op, sorted(live), sorted(self.live())))
        n = self.arrivals()
        from projectq.cengines import NotYetMeasuredError
        for name, i in self.spots():
            t = self.boxes[name].items[i]
            q = self.get(name)[i]
            if q.id != t:
                raise Violation("after %s: qubit %d reports the identity %s" % (op, t, q.id))
            k = n.get(t, 0)
            try:
                got = int(q)
                if bool(q) != bool(got) or self.eng.get_measurement_result(q) != bool(got):
                    raise Violation("int, bool and get_measurement_result disagree for qubit %d" % t)
            except NotYetMeasuredError:
                if k:
                    raise Violation("after %s: qubit %d has no value although %d results arrived" % (op, t, k)) from None
                continue
            if not k:
                raise Violation("after %s: qubit %d reads %d although no result arrived" % (op, t, got))
            if k > len(self.vals[t]) or got != self.vals[t][k - 1]:
                raise Violation("after %s: qubit %d reads %d, its results are %s of which %d arrived" % (op, t, got, self.vals[t], k))
        for kind, ids, _, dirty in self.first:
            if kind == "D" and dirty != (ids[0] in self.used):
                raise Violation("the release of qubit %d %s a dirty-qubit tag" % (ids[0], "has" if dirty else "lacks"))

    # -- the end

    def finish(self):
        end, order = self.case["end"], self.case["order"]
        if end == "flush":
            self.eng.flush(deallocate_qubits=True)
        elif end == "twice":
            self.eng.flush(deallocate_qubits=True)
            self.eng.flush(deallocate_qubits=True)
        elif end == "cycle":
            ring = [self.eng, self.refs]
            ring.append(ring)
            self.refs = {}
            self.eng = None
            del ring
            gc.collect()
        elif end == "late":
            self.eng = None
            gc.collect()
            for k in order:
                n = sorted(self.refs)
                if n:
                    del self.refs[n[k % len(n)]]
            self.refs = {}
            gc.collect()
        elif end == "del":
            for k in order:
                n = sorted(self.refs)
                if n:
                    del self.refs[n[k % len(n)]]
            self.refs = {}
            self.eng = None
            gc.collect()
        self.final()

    def final(self):
        for log, what, strict in ((self.first, "entering the pipeline", True), (self.last, "reaching the backend", False)):
            stream(log, what, strict)
            left = living(log)
            if left:
                raise Violation("qubits %s are never released %s (end: %s)" % (sorted(left), what, self.case["end"]))
            if not any(x[0] == "F" for x in log):
                raise Violation("the circuit is never flushed")
        n = {}
        for kind, _, logical, _ in self.last:
            if kind == "M":
                n[logical] = n.get(logical, 0) + 1
        for t in self.all:
            if n.get(t, 0) != len(self.vals[t]):
                raise Violation("qubit %d was measured %d times, %d measurements reached the backend" % (t, len(self.vals[t]), n.get(t, 0)))


def living(log):
    live = set()
    for kind, ids, _, _ in log:
        if kind == "A":
            live.add(ids[0])
        elif kind == "D":
            live.discard(ids[0])
    return live


def stream(log, what, unique):
    live, ever = set(), set()
    for kind, ids, _, _ in log:
        if kind == "F":
            continue
        if kind == "A":
            if ids[0] in live or unique and ids[0] in ever:
                raise Violation("%s: qubit %d is allocated twice" % (what, ids[0]))
            live.add(ids[0])
            ever.add(ids[0])
            continue
        for i in ids:
            if i not in live:
                raise Violation("%s: %s on qubit %d, which is not live" % (what, {"D": "release", "M": "measurement", "g": "gate"}[kind], i))
        if kind == "D":
            live.remove(ids[0])


def run(case, ev):
    was = gc.isenabled()
    gc.disable()
    gc.freeze()                     # collections look at the objects of this history only
    h = Hist(case)
    ok = False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for op in case["ops"]:
                h.step(op)
            n = len(h.all)
            if case["end"] != "exit":
                h.finish()
                ok = True
    finally:
        if not ok and case["end"] != "exit" and h.eng is not None:
            h.eng.next_engine.receive = lambda cl: None
        gc.unfreeze()
        if was:
            gc.enable()
    for k in ("engines", "backend", "end"):
        ev.label("%s: %s" % (k, case[k]))
    ev.label("results read", any(h.vals[t] for t in h.all))
    ev.label("released by hand", any(x[0] == "release" for x in case["ops"]))
    ev.mark(n >= 2 and len(h.first) > 6)
    return h


# ------------------------------------------------------------------------------------------ the end of the program

CHILD = """
import sys; sys.path.insert(0, %r)
from vf import boot; boot.setup_paths()
import atexit, gc, json, traceback, warnings
warnings.simplefilter("ignore")
from props import p14
from vf.core import Ev, Violation
case = json.load(open(sys.argv[1]))
h = None
def report():
    try:
        if h is None:
            raise Violation("no history")
        h.final()
        print("OK")
    except Violation as e:
        print("BAD", e)
    sys.stdout.flush()
atexit.register(report)
import projectq
def main():
    global h
    h = p14.run(case, Ev())
    gc.enable()
    if case["order"] and case["order"][0] %% 3 == 1:
        h.eng = None
    elif case["order"] and case["order"][0] %% 3 == 2:
        sys.exit(0)
try:
    main()
except Violation as e:
    print("BAD", e)
"""


def run_exit(case, ev):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "case.json")
        with open(p, "w") as f:
            json.dump(case, f)
        r = subprocess.run([sys.executable, "-c", CHILD % here, p], capture_output=True, text=True, cwd=d, timeout=120)
    lines = [x for x in r.stdout.splitlines() if x.startswith(("OK", "BAD"))]
    bad = [x for x in lines if x.startswith("BAD")]
    if bad:
        raise Violation("program exit: " + bad[0][4:])
    if not lines:
        raise RuntimeError("the child reported nothing: " + r.stderr[-500:])
    ev.mark(any(x[0] == "alloc" for x in case["ops"]))


TESTS = [
    Test("histories", cases, run, quick=5000, rule="at least two qubits and more than six commands"),
    Test("long", lambda: cases(length=(60, 140)), run, quick=200, rule="at least two qubits and more than six commands; histories of 60 to 140 steps"),
    Test("exit", lambda: cases(["exit"]), run_exit, quick=48, chunk=6, rule="at least one qubit"),
]
