"""P27: stages forward command streams without loss or reordering; replacing stages replace only what they must."""
import builtins
import contextlib
import io
from unittest import mock

from hypothesis import strategies as st

from vf import stream
from vf.core import Test, Violation

ASSUMPTIONS = ["streams of up to 5 qubits and up to about 200 commands with tags, split into batches at random",
               "stacks of up to 6 stages, one relocating stage at most",
               "replacement rules: generated rule sets over user-defined two-qubit gates, rules of the inverse gate, parent classes, "
               "helper qubits and compute sections; the shipped rules are checked by P06 and P07"]

STAGES = ["printer", "counter", "drawer", "mpl", "remover", "remover+", "filter", "modtag", "modgate", "modid", "compare", "dummy", "mapper", "forward"]


@st.composite
def cases(draw, length=(2, 20)):
    c = draw(stream.streams(maxq=5, length=length))
    for x in c["ops"]:
        if x[0] == "g":
            x[4] = draw(st.sampled_from([[], [], [], ["T1"], ["T2"], ["C"], ["U"], ["L"], ["C", "T1"], ["T1", "U", "T1"], ["S"], ["C", "L", "T2"]]))
    ks = draw(st.lists(st.sampled_from(STAGES), min_size=1, max_size=6))
    stages, seen = [], set()
    for k in ks:
        if k in ("mapper", "printer", "drawer") and k in seen:
            continue
        seen.add(k)
        stages.append([k, draw(st.integers(0, 5))])
    last = draw(st.sampled_from(["recorder", "recorder", "recorder", "printer", "drawer", "counter"]))
    if last in seen:
        last = "recorder"
    return {"ops": c["ops"], "stages": stages, "last": last, "ask": draw(st.booleans()), "bits": draw(st.lists(st.integers(0, 1), min_size=1, max_size=5)),
            "batch": draw(st.lists(st.integers(1, 5), min_size=1, max_size=6)), "perm": list(draw(st.permutations(range(5)))),
            "mut": [draw(st.sampled_from(["drop", "dup", "gate", "tag", "swap", "split"])), draw(st.integers(0, 99))]}


SHARED = {}


def tags_of(names):
    from projectq.meta import ComputeTag, UncomputeTag
    from projectq.meta._loop import LoopTag
    if not SHARED:
        # every LoopTag differs from every other one; streams to be compared share theirs
        SHARED.update(L=LoopTag(3), S=type("SubCompute", (ComputeTag,), {})())
    return [{"C": ComputeTag, "U": UncomputeTag}[n]() if n in "CU" else SHARED.get(n) or stream.Tag(n) for n in names]


def command(eng, x):
    if x[0] == "g":
        cmd = stream.make_cmd(eng, x[:4] + [0])
        cmd.tags = tags_of(x[4])
        return cmd
    return stream.make_cmd(eng, x)


class Sig:
    """What a command is, taken at one point of the pipeline."""

    def __init__(self, cmd, text=True):
        self.gate = cmd.gate
        self.qubits = tuple(tuple(q.id for q in r) for r in cmd.qubits)
        self.ctrl = tuple((q.id, str(v)) for q, v in zip(cmd.control_qubits, cmd.control_state))
        self.tags = list(cmd.tags)
        self.text = str(cmd) if text else None
        self.flush = type(cmd.gate).__name__ == "FlushGate"

    def differs(self, o, ids=None):
        if self.gate is not o.gate and not (type(self.gate) is type(o.gate) and (self.gate == o.gate or str(self.gate) == str(o.gate))):
            return "gate"
        if self.qubits != o.qubits:
            return "qubits"
        if sorted(self.ctrl) != sorted(o.ctrl):  # the order of controls carries no meaning
            return "controls"
        if [repr_tag(t) for t in self.tags] != [repr_tag(t) for t in o.tags]:
            return "tags"
        return None

    def __repr__(self):
        return "%s|%s ctrl %s tags %s" % (self.gate, self.qubits, self.ctrl, [repr_tag(t) for t in self.tags])


def repr_tag(t):
    n = type(t).__name__
    return (n, t.v) if n == "Tag" else (n, t.logical_qubit_id) if n == "LogicalQubitIDTag" else n


def spy_class():
    from projectq.cengines import BasicEngine

    class Spy(BasicEngine):
        def __init__(self):
            super().__init__()
            self.got = []

        def receive(self, command_list):
            for c in command_list:
                self.got.append(Sig(c))
            if not self.is_last_engine:
                self.send(command_list)

        def is_available(self, cmd):
            if self.is_last_engine:
                return last_takes(cmd)
            return self.next_engine.is_available(cmd)
    return Spy


def last_takes(cmd):
    return len(cmd.control_qubits) != 1


def filter_takes(k):
    return lambda _, cmd: len(cmd.control_qubits) + sum(len(r) for r in cmd.qubits) != k


def build(kind, k, case):
    from projectq import backends as b
    from projectq import cengines as c
    from projectq.meta import ComputeTag, UncomputeTag
    from projectq.meta._loop import LoopTag
    from projectq.ops import H, XGate, Z
    if kind == "printer":
        return b.CommandPrinter(accept_input=case["ask"], default_measure=bool(k & 1))
    if kind == "counter":
        return b.ResourceCounter()
    if kind == "drawer":
        return b.CircuitDrawer(accept_input=case["ask"], default_measure=k & 1)
    if kind == "mpl":
        return b.CircuitDrawerMatplotlib(accept_input=case["ask"], default_measure=k & 1)
    if kind == "remover":
        return c.TagRemover()
    if kind == "remover+":
        return c.TagRemover([[stream.Tag], [LoopTag], [UncomputeTag, stream.Tag], [ComputeTag], [LoopTag, ComputeTag], [stream.Tag, LoopTag, UncomputeTag]][k])
    if kind == "filter":
        return c.InstructionFilter(filter_takes(k))
    if kind == "modtag":
        def add(cmd):
            cmd.tags = cmd.tags + [stream.Tag("M%d" % k)]
            return cmd
        return c.CommandModifier(add)
    if kind == "modgate":
        def swap(cmd):
            from copy import deepcopy
            if type(cmd.gate) is XGate:
                cmd = deepcopy(cmd)
                cmd.gate = Z if k & 1 else H
            return cmd
        return c.CommandModifier(swap)
    if kind in ("modid", "forward"):
        return c.CommandModifier(lambda cmd: cmd)
    if kind == "compare":
        return c.CompareEngine()
    if kind == "dummy":
        return c.DummyEngine(save_commands=True)
    m = c.BasicMapperEngine()
    m.current_mapping = dict(enumerate(case["perm"]))
    return m


def model(kind, k, case, sigs):
    """The stream a stage must emit."""
    from copy import copy

    from projectq.meta import ComputeTag, LogicalQubitIDTag, UncomputeTag
    from projectq.meta._loop import LoopTag
    from projectq.ops import H, XGate, Z
    out = []
    for s in sigs:
        s = copy(s)
        if kind == "remover":
            s.tags = [t for t in s.tags if not isinstance(t, (ComputeTag, UncomputeTag))]
        elif kind == "remover+":
            rm = [(stream.Tag,), (LoopTag,), (UncomputeTag, stream.Tag), (ComputeTag,), (LoopTag, ComputeTag), (stream.Tag, LoopTag, UncomputeTag)][k]
            s.tags = [t for t in s.tags if not isinstance(t, rm)]
        elif kind == "modtag":
            s.tags = s.tags + [stream.Tag("M%d" % k)]
        elif kind == "modgate" and type(s.gate) is XGate:
            s.gate = Z if k & 1 else H
        elif kind == "mapper" and not s.flush:
            p = case["perm"]
            if type(s.gate).__name__ == "MeasureGate":
                s.tags = s.tags + [LogicalQubitIDTag(s.qubits[0][0])]
            s.qubits = tuple(tuple(p[q] for q in r) for r in s.qubits)
            s.ctrl = tuple((p[q], v) for q, v in s.ctrl)
        out.append(s)
    return out


def compare(got, want, what):
    for i, (g, w) in enumerate(zip(got, want)):
        d = g.differs(w)
        if d:
            raise Violation("%s: command %d is %s, should be %s (%s differ)" % (what, i, g, w, d))
    if len(got) != len(want):
        raise Violation("%s: %d commands, should be %d" % (what, len(got), len(want)))


def batches(case, cmds):
    i = k = 0
    while i < len(cmds):
        n = case["batch"][k % len(case["batch"])]
        yield cmds[i:i + n]
        i, k = i + n, k + 1


def run(case, ev):
    from projectq import MainEngine
    from projectq.ops import MeasureGate
    from projectq.types import WeakQubitRef
    Spy = spy_class()
    stages = [build(k, n, case) for k, n in case["stages"]]
    spies = [Spy() for _ in range(len(stages) + 1)]
    engines = [spies[0]]
    for s, p in zip(stages, spies[1:]):
        engines += [s, p]
    if case["last"] == "recorder":
        last = engines.pop()
    else:
        last = build(case["last"], case["bits"][0], case)
    bits, asked = list(case["bits"]), []

    def answer(prompt=""):
        asked.append(prompt)
        return str(bits[(len(asked) - 1) % len(bits)])
    out = io.StringIO()
    with mock.patch.object(builtins, "input", answer), contextlib.redirect_stdout(out):
        eng = MainEngine(last, engines, verbose=True)
        try:
            cmds = [command(eng, x) for x in case["ops"] + [["f"]]]
            sent = [Sig(c) for c in cmds]
            takes = []
            for c in cmds[:-1]:
                takes.append((str(c), spies[0].is_available(c), available(case, c)))
            for b in batches(case, cmds):
                eng.receive(list(b))
        finally:
            eng.main_engine.active_qubits.clear()
            engines[0].receive = lambda cl: None
    for text, got, want in takes:
        if want is not None and got != want:
            raise Violation("%s is %savailable at the first stage of %s, should%s be" % (text, "" if got else "not ", case["stages"], "" if want else " not"))
    want = sent
    compare(spies[0].got, want, "entering")
    lines = out.getvalue().splitlines()
    for i, (k, n) in enumerate(case["stages"]):
        want = model(k, n, case, spies[i].got)
        compare(spies[i + 1].got, want, "after stage %d (%s) of %s" % (i, k, [x for x, _ in case["stages"]]))
        s = stages[i]
        if k == "dummy":
            if [c.gate for c in s.received_commands] != [x.gate for x in spies[i].got]:
                raise Violation("stage %d recorded %s" % (i, [str(c) for c in s.received_commands]))
        if k == "counter" and sum(s.gate_counts.values()) != sum(not x.flush for x in spies[i].got):
            raise Violation("stage %d counted %d commands" % (i, sum(s.gate_counts.values())))
        if k == "printer":
            printed(lines, [x.text for x in spies[i].got if not x.flush])
    if case["last"] == "printer":
        printed(lines, [x.text for x in spies[-1].got if not x.flush])
    if case["last"] != "recorder":
        # every measurement is credited to the qubit the program measured
        n, want = 0, {}
        for s in spies[-1].got:
            if isinstance(s.gate, MeasureGate):
                if case["last"] == "counter":
                    v = 0
                elif case["ask"]:
                    v = bits[n % len(bits)]
                    n += 1
                else:
                    v = case["bits"][0] & 1
                want.setdefault("order", []).append(v)
        ids = [x[1] for x in case["ops"] if x[0] == "m"]
        final = dict(zip(ids, want.get("order", [])))
        if len(ids) != len(want.get("order", [])):
            raise Violation("measurements lost")
        if n != len(asked):
            raise Violation("asked %d times for a result, %d measurements" % (len(asked), n))
        have = {q: eng._measurements[q] for q in eng._measurements}
        if have != {q: bool(v) for q, v in final.items()}:
            raise Violation("measurement results %s were registered, should be %s" % (have, final))
        for q, v in final.items():
            if int(eng.get_measurement_result(WeakQubitRef(eng, q))) != v:
                raise Violation("qubit %d reads something else than %d" % (q, v))
    ev.label("relocated", any(k == "mapper" for k, _ in case["stages"]))
    for k, _ in case["stages"]:
        ev.label(k)
    ev.label("last: " + case["last"])
    ev.mark(len(case["stages"]) > 1 and len(sent) > 4)


def printed(lines, want):
    have = [x for x in lines]
    text = "\n".join(want).splitlines()
    if have != text:
        raise Violation("printed %s, should be %s" % (have[:8], text[:8]))


def available(case, cmd):
    """The answer of the first stage that knows."""
    for k, n in case["stages"]:
        if k == "filter":
            return filter_takes(n)(None, cmd)
        if k in ("dummy", "compare"):
            return True
        if k == "mpl":
            return None
    if case["last"] == "recorder":
        return last_takes(cmd)
    return True


# ------------------------------------------------------------------------------------------ comparing stages

@st.composite
def cmp_cases(draw):
    c = draw(cases())
    c["batch2"] = draw(st.lists(st.integers(1, 5), min_size=1, max_size=6))
    c["reorder"] = draw(st.lists(st.integers(0, 99), max_size=10))
    return c


def ids_of(x):
    return {x[1]} if x[0] in ("alloc", "dealloc", "m") else set() if x[0] == "f" else {q for r in x[2] for q in r} | {q for q, _ in x[3]}


def feed(case, ops, batch):
    from projectq import MainEngine
    from projectq.cengines import CompareEngine
    ce = CompareEngine()
    eng = MainEngine(ce, [], verbose=True)
    for b in batches({"batch": batch}, [command(eng, x) for x in ops]):
        eng.receive(b)
    eng.active_qubits.clear()
    ce.keep = eng
    return ce


def run_cmp(case, ev):
    ops = [x for x in case["ops"] if not (x[0] == "g" and (x[1][0].startswith("inv:") or x[1][0] == "TE"))]    # these compare by identity
    a = feed(case, ops, case["batch"])
    # the same stream in other batches, and with independent neighbours exchanged
    other = list(ops)
    for k in case["reorder"]:
        i = k % max(1, len(other) - 1)
        if i + 1 < len(other) and not ids_of(other[i]) & ids_of(other[i + 1]):
            other[i], other[i + 1] = other[i + 1], other[i]
    other = [x for x in other if x[0] != "f" or case["reorder"]]
    b = feed(case, other, case["batch2"])
    if not (a == b and b == a) or a != b:
        raise Violation("streams of the same commands on every qubit do not compare equal")
    # one change
    how, k = case["mut"]
    gi = [i for i, x in enumerate(ops) if x[0] == "g"]
    if not gi:
        return
    i = gi[k % len(gi)]
    m = list(ops)
    x = m[i]
    if how == "drop":
        del m[i]
    elif how == "dup":
        m.insert(i, x)
    elif how == "tag":
        m[i] = x[:4] + [x[4] + ["T9"]]
    elif how == "gate":
        m[i] = ["g", ["Rx", 0.123], [[x[2][-1][0]]], x[3], x[4]]
    elif how == "split":
        m[i] = x[:3] + [[[q, 1 - v] for q, v in x[3]]] + x[4:]
        if not x[3]:
            return
    else:
        if i + 1 >= len(m) or m[i + 1][0] == "f" or not ids_of(m[i]) & ids_of(m[i + 1]) or m[i] == m[i + 1]:
            return
        if m[i + 1][0] == "g" and stream.make_cmd(None, m[i][:4] + [0]) == stream.make_cmd(None, m[i + 1][:4] + [0]):
            return
        m[i], m[i + 1] = m[i + 1], m[i]
    c = feed(case, m, case["batch"])
    if a == c or c == a:
        raise Violation("streams compare equal although they differ (%s at %d: %s)" % (how, i, ops[i]))
    ev.label(how)
    ev.mark()


# ------------------------------------------------------------------------------------------ replacement

NAMES = ["A", "B", "C", "D", "E", "F"]        # gates to be replaced, each by earlier ones and terminals
TERMS = ["t0", "t1", "u", "v"]                # t0, t1 are their own inverses, u and v of each other


@st.composite
def bodies(draw, k, noinv=False):
    """Items: [gate, [p, q]] on two of the command's qubits | [gate, "anc"] with a helper | [gate, [p, q], "C"] in a compute section."""
    out = []
    for _ in range(draw(st.integers(1, 4))):
        g = draw(st.sampled_from(TERMS + NAMES[:k] + NAMES[max(0, k - 1):k]))
        on = draw(st.sampled_from([[0, 1], [1, 0]]))
        kind = draw(st.sampled_from(["g", "g", "g", "anc", "comp"]))
        out.append([g, on, kind, draw(st.sampled_from(["t0", "t1", "u"]))])
    return out


@st.composite
def rep_cases(draw):
    rules, avail = {}, {}
    kinds = {}
    for k, n in enumerate(NAMES):
        kinds[n] = draw(st.sampled_from(["self", "plain", "pair", "sub"])) if k else "plain"
        nr = draw(st.integers(0 if kinds[n] == "sub" else 1, 2))
        rules[n] = [{"check": draw(st.sampled_from(["any", "any", "any", "ctl", "noctl"])), "body": draw(bodies(k)), "ctl": True} for _ in range(nr)]
        avail[n] = draw(st.sampled_from(["never", "never", "noctl", "always"]))
    sets = {"rules": rules, "avail": avail, "kinds": kinds, "terms": {t: draw(st.sampled_from(["always", "always", "always", "noctl"])) for t in TERMS}}
    n = draw(st.integers(2, 5))
    cmds = []
    for _ in range(draw(st.integers(1, 5))):
        p = list(draw(st.permutations(range(n))))
        g = draw(st.sampled_from(NAMES + [x + "'" for x in NAMES] + TERMS))
        cmds.append([g, p[:2], p[2:2 + draw(st.integers(0, 2))], draw(st.sampled_from([[], [], ["T1"], ["C"], ["T1", "T2"]]))])
    return {"sets": sets, "cmds": cmds, "n": n, "pick": draw(st.integers(0, 3)), "flush": draw(st.lists(st.integers(0, 5), max_size=2))}


def gate_classes(kinds):
    """name -> instance; name' is the inverse of name."""
    from projectq.ops import BasicGate, SelfInverseGate
    inst = {}

    def cls(name, base, inv=None):
        def s(self):
            return name
        d = {"__str__": s, "__eq__": lambda a, b: type(a).__name__ == type(b).__name__, "__hash__": lambda a: hash(str(a))}
        if inv:
            d["get_inverse"] = lambda self: inst[inv]
        return type(name.replace("'", "Inv"), (base,), d)
    for t in ("t0", "t1"):
        inst[t] = cls(t, SelfInverseGate)()
    inst["u"], inst["v"] = cls("u", BasicGate, "v")(), cls("v", BasicGate, "u")()
    prev = None
    for n in NAMES:
        k = kinds[n]
        if k == "self":
            c = cls(n, SelfInverseGate)
            inst[n] = inst[n + "'"] = c()
        elif k == "sub" and prev:
            # a subclass of the previous gate: the parent's rules are the fallback
            c = cls(n, type(inst[prev]), n + "'")
            inst[n] = c()
            inst[n + "'"] = cls(n + "'", BasicGate, n)()
        else:
            c = cls(n, BasicGate, n + "'")
            inst[n] = c()
            inst[n + "'"] = cls(n + "'", BasicGate, n)()
        prev = n
    return inst


def inv_name(g, kinds):
    if g in ("t0", "t1"):
        return g
    if g in ("u", "v"):
        return "v" if g == "u" else "u"
    b = g.rstrip("'")
    if kinds[b] == "self":
        return b
    return b if g.endswith("'") else b + "'"


class NoRule(Exception):
    pass


class Oracle:
    def __init__(self, case):
        self.s = case["sets"]
        self.pick = case["pick"]
        self.fresh = 1000
        self.out = []

    def avail(self, g, nc):
        b = g.rstrip("'")
        a = self.s["terms"][g] if g in TERMS else self.s["avail"][b]
        return a == "always" or a == "noctl" and nc == 0

    def candidates(self, g, nc):
        """Applicable rules of the gate, then of its inverse, then of the parents."""
        if g in TERMS:
            return []
        b = g.rstrip("'")

        def ok(n):
            return [r for r in self.s["rules"][n] if r["check"] == "any" or (r["check"] == "ctl") == (nc > 0)]
        chain = [b]
        while self.s["kinds"][chain[-1]] == "sub" and NAMES.index(chain[-1]) > 0:
            chain.append(NAMES[NAMES.index(chain[-1]) - 1])
        selfinv = self.s["kinds"][b] == "self"
        # level by level: own class, class of the inverse, parents
        if g == b:
            for n in chain:
                rs = [(r, False) for r in ok(n)]
                if rs:
                    return rs
                if selfinv:
                    rs = [(r, True) for r in ok(n)]
                    if rs:
                        return rs
            return []
        # the inverse of g is b, whose class chain is followed on the inverse side
        for n in chain:
            rs = [(r, True) for r in ok(n)]
            if rs:
                return rs
        return []

    def run(self, g, qs, ctl, tags):
        if self.avail(g, len(ctl)):
            self.out.append((g, tuple(qs), tuple(sorted(ctl)), list(tags)))
            return
        rs = self.candidates(g, len(ctl))
        if not rs:
            raise NoRule(g)
        r, inverted = rs[self.pick % len(rs)]
        items = self.items(r, qs, ctl)
        if inverted:
            items = [self.inverse(i) for i in reversed(items)]
        for kind, g2, q2, c2, t2 in items:
            if kind == "g":
                self.run(g2, q2, c2, list(tags) + t2)
            else:
                self.out.append((kind, tuple(q2), (), list(tags) + t2))

    def inverse(self, i):
        kind, g, q, c, t = i
        if kind == "g":
            return kind, inv_name(g, self.s["kinds"]), q, c, t
        return {"Allocate": "Deallocate", "Deallocate": "Allocate"}[kind], g, q, c, t

    def items(self, r, qs, ctl):
        out = []
        for g, on, kind, c in r["body"]:
            q = [qs[i] for i in on]
            if kind == "anc":
                self.fresh += 1
                a = self.fresh
                out += [("Allocate", None, [a], (), []), ("g", g, [q[0], a], ctl, []), ("Deallocate", None, [a], (), [])]
            elif kind == "comp":
                out += [("g", c, q, (), ["ComputeTag"]), ("g", g, q, ctl, []), ("g", inv_name(c, self.s["kinds"]), q, (), ["UncomputeTag"])]
            else:
                out.append(("g", g, q, ctl, []))
        return out


def decomposer(body, inst):
    from projectq.meta import Compute, Control, Uncompute

    def f(cmd):
        eng, qs = cmd.engine, cmd.qubits
        for g, on, kind, c in body:
            q = [qs[i] for i in on]
            if kind == "anc":
                a = eng.allocate_qubit()
                with Control(eng, cmd.control_qubits):
                    inst[g] | (q[0], a)
                eng.deallocate_qubit(a[0])
            elif kind == "comp":
                with Compute(eng):
                    inst[c] | tuple(q)
                with Control(eng, cmd.control_qubits):
                    inst[g] | tuple(q)
                Uncompute(eng)
            else:
                with Control(eng, cmd.control_qubits):
                    inst[g] | tuple(q)
    return f


def canon(seq):
    """Number helper qubits by first appearance."""
    seen, out = {}, []
    for g, qs, ctl, tags in seq:
        def n(q):
            return q if q < 100 else "h%d" % seen.setdefault(q, len(seen))
        out.append((g, tuple(n(q) for q in qs), tuple(sorted(ctl)), [t if isinstance(t, (str, tuple)) else repr_tag(t) for t in tags]))
    return out


def run_rep(case, ev):
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRule, DecompositionRuleSet, InstructionFilter
    from projectq.cengines._replacer import NoGateDecompositionError
    from projectq.ops import Command, FlushGate
    from projectq.types import WeakQubitRef
    s = case["sets"]
    inst = gate_classes(s["kinds"])
    orc = Oracle(case)
    rs = DecompositionRuleSet()
    for n in NAMES:
        for r in s["rules"][n]:
            def check(cmd, r=r):
                return r["check"] == "any" or (r["check"] == "ctl") == (len(cmd.control_qubits) > 0)
            rs.add_decomposition_rule(DecompositionRule(type(inst[n]), decomposer(r["body"], inst), check))
    by = {str(g): g for g in inst.values()}

    def takes(_, cmd):
        g = str(cmd.gate)
        return g not in by or orc.avail(g, len(cmd.control_qubits))
    picked = []

    def choose(cmd, rules):
        picked.append(len(rules))
        for r in rules:
            if not r.check(cmd):
                raise Violation("a rule that does not recognise %s is offered" % cmd)
        return rules[case["pick"] % len(rules)]
    Spy = spy_class()
    end = Spy()
    end.is_available = lambda cmd: True
    eng = MainEngine(end, [AutoReplacer(rs, choose), InstructionFilter(takes)], verbose=True)
    eng._qubit_idx = 1000
    tagmap = {"C": "ComputeTag"}
    try:
        failed, want_failed = None, None
        cmds = []
        for i, (g, qs, ctl, tags) in enumerate(case["cmds"]):
            if i in case["flush"]:
                cmds.append((Command(eng, FlushGate(), ([WeakQubitRef(eng, -1)],)), None))
            w = [WeakQubitRef(eng, q) for q in range(case["n"])]
            c = Command(eng, inst[g], tuple([w[q]] for q in qs), [w[q] for q in sorted(ctl)], tags=tags_of(tags))
            cmds.append((c, (str(inst[g]), qs, ctl, [("Tag", t) if t not in tagmap else tagmap[t] for t in tags])))
        cmds.append((Command(eng, FlushGate(), ([WeakQubitRef(eng, -1)],)), None))
        for c, m in cmds:
            if m is None:
                orc.out.append(("Flush", (-1,), (), []))
            else:
                try:
                    orc.run(*m)
                except NoRule as e:
                    want_failed = e
            try:
                eng.receive([c])
            except NoGateDecompositionError as e:
                failed = e
            if (failed is None) != (want_failed is None):
                raise Violation("%s: %s" % (case["cmds"], "no rule applies but no error was raised" if failed is None else "error %s although a rule applies" % failed))
            if failed:
                break
        got = []
        for x in end.got:
            name = {"FlushGate": "Flush", "AllocateQubitGate": "Allocate", "DeallocateQubitGate": "Deallocate"}.get(type(x.gate).__name__, str(x.gate))
            got.append((name, tuple(q for r in x.qubits for q in r), tuple(q for q, _ in x.ctrl), x.tags))
        want = orc.out
        if failed:
            # commands of the failing replacement may have been sent in part
            got = got[:len(want)]
        a, b = canon(got), canon(want)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                raise Violation("command %d is %s, should be %s" % (i, x, y))
        if len(a) != len(b):
            raise Violation("%d commands, should be %d: %s instead of %s" % (len(a), len(b), a[-3:], b[-3:]))
        ev.label("replaced", bool(picked))
        ev.label("no rule", failed is not None)
        ev.label("several rules to choose from", any(n > 1 for n in picked))
        ev.label("helper qubits", any(x[0] == "Allocate" for x in a))
        ev.mark(len(picked) > 1)
    finally:
        eng.active_qubits.clear()


TESTS = [
    Test("stacks", cases, run, quick=3000, rule="more than one stage and more than four commands"),
    Test("long", lambda: cases((50, 130)), run, quick=200, rule="more than one stage; streams of 50 to 130 steps"),
    Test("comparison", cmp_cases, run_cmp, quick=1200, rule="a changed stream was compared as well"),
    Test("replacement", rep_cases, run_rep, quick=3000, rule="at least two replacements"),
]
