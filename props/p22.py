"""P22: circuit drawings show exactly the program."""
import os
import re
import shutil
import tempfile
import warnings

from hypothesis import strategies as st

from vf import spec
from vf.core import Test, Violation
from vf.refbackend import make

ASSUMPTIONS = ["programs of up to 18 qubits and 90 commands; gate names without LaTeX specials and unbalanced braces",
               "controls lying between the targets of a boxed gate are part of the box (pinned by the repository's own tests)",
               "control values are drawn alike (recorded finding); generic multi-qubit gates on non-adjacent wires are refused by the matplotlib drawing"]

NAMED = ["MyGate", "f(1.23456,2)", "Oracle(abcdefghij,3)", "exp(0.1j * (1.0 X0 +\n2.0 Z0))", "U(", "g()", "A B"]


@st.composite
def programs(draw, most=6, length=(2, 28), adjacent=None, reuse=True):
    n = draw(st.integers(1, most))
    ids = draw(st.sampled_from([list(range(n)), list(range(n)), [2 * i for i in range(n)], [i + 2 for i in range(n)],
                                [i * i + 1 for i in range(n)]]))
    live, was, ops = [], set(), []
    order = list(draw(st.permutations(ids)))
    early = draw(st.integers(1, n))
    for i in order[:early]:
        ops.append(["alloc", i])
        live.append(i)
    todo = order[early:]
    for _ in range(draw(st.integers(*length))):
        k = draw(st.sampled_from(["g"] * 9 + ["m", "mm", "alloc", "dealloc", "f"]))
        if k == "alloc" and (todo or reuse and was):
            i = todo.pop() if todo else draw(st.sampled_from(sorted(was)))
            was.discard(i)
            live.append(i)
            ops.append(["alloc", i])
        elif k == "f":
            ops.append(["f"])
        elif not live:
            continue
        elif k == "dealloc" and len(live) > 1:
            i = draw(st.sampled_from(live))
            live.remove(i)
            was.add(i)
            ops.append(["dealloc", i])
        elif k == "m":
            ops.append(["m", [draw(st.sampled_from(live))], draw(st.integers(-1, 2))])
        elif k == "mm":
            perm = list(draw(st.permutations(live)))
            ops.append(["m", perm[:draw(st.integers(1, len(perm)))], -1])
        elif k == "g":
            perm = list(draw(st.permutations(live)))
            kind = draw(st.sampled_from(["X"] * 4 + ["Z", "Z", "Swap", "Swap", "SqrtSwap", "invSqrtSwap", "one", "one", "one", "multi", "multi"]))
            w = {"Swap": 2, "SqrtSwap": 2, "invSqrtSwap": 2}.get(kind, 1)
            if w > len(perm):
                kind, w = "one", 1
            if kind == "one":
                sp = draw(st.sampled_from([["H"], ["H"], ["Y"], ["S"], ["T"], ["SqrtX"], ["Sdag"], ["Rx", 0.5], ["Ry", 1.25], ["Rz", -3.0], ["R", 0.3],
                                           ["Ph", 0.1]] + [["Named", x] for x in NAMED] + [["inv:Named", x] for x in NAMED]))
            elif kind == "multi":
                w = draw(st.integers(1, len(perm)))
                sp = draw(st.sampled_from([["QFT"], ["QFTdag"], ["Entangle"], ["AddConstant", 3], ["AddConstantModN", 2, 2], ["Barrier"],
                                           ["inv:MultiplyByConstantModN", 1, 2],
                                           ["TE", 0.3, [[[[0, "X"]], 1.0, 0], [[[0, "Z"]], 0.5, 0]]]]
                                          + [["Named", x] for x in NAMED] + [["inv:Named", x] for x in NAMED]))
                if sp[0] == "TE":
                    w = 1
            else:
                sp = [kind]
            nc = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3])) if kind != "one" else draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
            if kind == "X":
                nc = draw(st.integers(0, 3))
            if sp[0] == "Barrier":
                nc = 0
            ops.append(["g", sp, perm[:w], perm[w:w + nc]])
            if draw(st.integers(0, 4)) == 0:
                ops.append(ops[-1])
    return {"ids": ids, "ops": ops}


def named(name):
    from projectq.ops import BasicGate

    class Named(BasicGate):
        def __init__(self, n):
            super().__init__()
            self.n = n

        def __str__(self):
            return self.n

        def __eq__(self, other):
            return isinstance(other, Named) and self.n == other.n

        def __hash__(self):
            return hash(self.n)
    return Named(name)


def build(sp):
    from projectq.ops import SqrtSwap, get_inverse
    if sp[0] == "Named":
        return named(sp[1])
    if sp[0] == "inv:Named":
        return get_inverse(named(sp[1]))
    if sp[0] == "invSqrtSwap":
        return get_inverse(SqrtSwap)
    if sp[0] == "inv:MultiplyByConstantModN":
        from projectq.libs.math import MultiplyByConstantModN
        return get_inverse(MultiplyByConstantModN(sp[1], sp[2]))
    return spec.build(sp)


def deliver(case, drawer, last):
    """Send the program through the drawer; the delivered (op, gate) pairs."""
    from projectq import MainEngine
    from projectq.meta import LogicalQubitIDTag
    from projectq.ops import Allocate, Command, Deallocate, FlushGate, Measure
    from projectq.types import WeakQubitRef
    be = None
    if last:
        eng = MainEngine(drawer, [], verbose=True)
    else:
        be = make()(loose_dealloc=True) if False else None
        from projectq.cengines import DummyEngine
        be = DummyEngine(save_commands=True)
        be.is_available = lambda cmd: True
        eng = MainEngine(be, [drawer], verbose=True)
    w = lambda i: WeakQubitRef(eng, i)  # noqa: E731
    done, batch = [], []
    try:
        for j, x in enumerate(case["ops"]):
            k = x[0]
            if k == "alloc":
                cmd = Command(eng, Allocate, ([w(x[1])],))
            elif k == "dealloc":
                cmd = Command(eng, Deallocate, ([w(x[1])],))
            elif k == "f":
                cmd = Command(eng, FlushGate(), ([WeakQubitRef(eng, -1)],))
            elif k == "m":
                tags = [LogicalQubitIDTag(700 + x[2])] if x[2] >= 0 and len(x[1]) == 1 else []
                cmd = Command(eng, Measure, ([w(i) for i in x[1]],), tags=tags)
            else:
                g = build(x[1])
                two = x[1][0] in ("Swap", "SqrtSwap", "invSqrtSwap")
                regs = tuple([w(i)] for i in x[2]) if two else ([w(i) for i in x[2]],)
                cmd = Command(eng, g, regs, controls=[w(c) for c in x[3]])
            batch.append(cmd)
            done.append((x, cmd.gate, cmd))
            if k == "f" or k == "m" or j % 3 == 2 or j == len(case["ops"]) - 1:
                drawer.receive(batch)
                batch = []
            if k == "m" and last:
                for i in x[1]:
                    lid = 700 + x[2] if x[2] >= 0 and len(x[1]) == 1 else i
                    try:
                        r = eng.get_measurement_result(w(lid))
                    except Exception:
                        raise Violation("no result for measured qubit %d" % lid) from None
                    if r != case["default"]:
                        raise Violation("the result of qubit %d is %s, default_measure is %s" % (lid, r, case["default"]))
        if be is not None:
            got = be.received_commands
            if len(got) != len(done) or any(a is not c for a, (_, _, c) in zip(got, done)):
                raise Violation("the drawer passed on %d commands of %d" % (len(got), len(done)))
    finally:
        drawer.main_engine.next_engine.receive = lambda cl: None
    return [(x, g) for x, g, _ in done if x[0] != "f"]


# ------------------------------------------------------------------ LaTeX
def balanced(s, i):
    """Index just after the brace group which starts at s[i]."""
    d = 0
    for j in range(i, len(s)):
        d += {"{": 1, "}": -1}.get(s[j], 0)
        if d == 0:
            return j + 1
    raise Violation("unbalanced braces in the document: %s" % s[i:i + 80])


NODE = re.compile(r"\\node\[([^\]]*)\] \(([^()]*)\) at \((-?[\d.]+(?:e-?\d+)?),-(\d+(?:\.\d+)?)\) ?(?=\{)")
NAME = re.compile(r"line[^()\[\]{}.,;\s]*gate[^()\[\]{}.,;\s]*")
GOOD = re.compile(r"line\d+(-\d+)?_gate\d+$")


class Drawing:
    def __init__(self, text):
        a, b = text.index("\\begin{tikzpicture}"), text.index("\\end{tikzpicture}")
        if not text.startswith("\\documentclass") or text.count("\\begin{document}") != 1 or not text.rstrip().endswith("\\end{document}"):
            raise Violation("the document lacks its frame")
        body = text[a:b]
        self.styles = set(re.findall(r"\\tikzstyle\{([^{}]*)\}=", body)) | set(re.findall(r"(\w+)/\.style", body))
        for odd in re.findall(r"\\tikzstyle\{\{[^}]*\}*", body):
            raise Violation("malformed style definition %s" % odd)
        self.check_styles(body)
        start = body.index("\\tikzstyle{edgestyle}=")
        start = body.index("\n", start) + 1
        self.parse(body[start:])

    def check_styles(self, body):
        used = []
        for line in body.split("\n"):
            m = re.match(r".*\\tikzstyle\{(\w+)\}=\[(.*)\]$", line)
            if m and "blur shadow" not in m.group(2):
                used += m.group(2).split(",")
        for t in used:
            t = t.strip()
            if t and "=" not in t and "{" not in t and t not in self.styles and t not in ("draw", "circle", "very thin", "thick", "thin"):
                raise Violation("a style refers to the undefined style %r" % t)

    def use(self, opts):
        depth, t = 0, ""
        for ch in opts + ",":
            if ch == "," and depth == 0:
                if t and "=" not in t and t not in self.styles:
                    raise Violation("undefined style %r" % t)
                if "{" in t.replace("{-", "").replace("{}", "") and "canvas" not in t:
                    raise Violation("unresolved text in options %r" % t)
                t = ""
            else:
                depth += {"(": 1, ")": -1, "{": 1, "}": -1}.get(ch, 0)
                t += ch

    def parse(self, s):
        self.nodes, self.wires, self.cross, self.boxes, self.deallocs = {}, {}, [], [], set()
        self.alloc, pend = {}, []
        i = 0
        while True:
            while i < len(s) and s[i].isspace():
                i += 1
            if i >= len(s):
                break
            if s.startswith("\\node", i):
                m = NODE.match(s, i)
                if not m:
                    raise Violation("malformed node: %s" % s[i:i + 120])
                e = balanced(s, m.end())
                content = s[m.end() + 1:e - 1]
                if s[e:e + 1] != ";":
                    raise Violation("a node does not end with a semicolon: %s" % s[i:e + 5])
                style, name, x, y = m.groups()
                self.use(style)
                if not GOOD.match(name):
                    raise Violation("malformed node name %r" % name)
                if name in self.nodes:
                    raise Violation("node %s is defined twice" % name)
                self.nodes[name] = dict(style=style.split(",")[0], x=float(x), y=float(y), text=content, order=len(self.nodes))
                if style.startswith("none"):
                    if content:
                        self.alloc[name] = content
                    else:
                        pend.append(name)
                i = e + 1
                continue
            if not s.startswith("\\draw", i):
                raise Violation("unexpected text: %s" % s[i:i + 80])
            j, d = i, 0
            while d or s[j] != ";":
                d += {"{": 1, "}": -1}.get(s[j], 0)
                j += 1
            stm = s[i:j]
            i = j + 1
            head = stm.split(" node[", 1)[0]
            names = NAME.findall(head)
            for nm in names:
                if nm not in self.nodes:
                    raise Violation("%s refers to the undefined node %s" % (head, nm))
            m = re.match(r"\\draw\[([^\]]*)\]", stm)
            if m:
                self.use(m.group(1))
            if "{self" in head or "{op" in head or "{gate" in head:
                raise Violation("unresolved text: %s" % head)
            if stm.startswith("\\draw[operator"):
                c = stm.split(" node[pos=.5] ", 1)[1]
                if len(names) != 2 or balanced(c, 0) != len(c):
                    raise Violation("malformed box %s" % stm)
                self.boxes.append((names[0], names[1], c[1:-1], pend))
                pend = []
            elif " edge [edgestyle] " in stm:
                if len(set(names)) != 1 or names[0] not in pend:
                    raise Violation("malformed end of a line: %s" % stm)
                pend.remove(names[0])
                self.deallocs.add(names[0])
            elif "edge[edgestyle]" in stm:
                if len(names) != 2:
                    raise Violation("an edge connects %s" % names)
                a, b = names
                if self.nodes[a]["y"] == self.nodes[b]["y"]:
                    key = tuple(sorted((a, b), key=lambda z: self.nodes[z]["order"]))
                    self.wires.setdefault(key, []).append("shift" in stm)
                else:
                    self.cross.append((a, b))
            elif len(set(names)) != 1:
                raise Violation("unexpected drawing between %s" % names)
        if pend:
            raise Violation("stray nodes %s" % pend)
        self.group()

    def group(self):
        """Connected symbols: kind, name, targets, controls, interval, nodes per line."""
        parent = {n: n for n in self.nodes}

        def find(a):
            while parent[a] != a:
                a = parent[a]
            return a
        box_of = {}
        for k, (a, b, name, members) in enumerate(self.boxes):
            for m in members:
                parent[find(m)] = find(a)
                box_of[m] = k
        for a, b in self.cross:
            parent[find(a)] = find(b)
        groups = {}
        for n in self.nodes:
            groups.setdefault(find(n), []).append(n)
        self.elements = []
        for members in groups.values():
            el = dict(nodes={}, targets=set(), controls=set(), name="")
            kinds = set()
            for m in members:
                nd = self.nodes[m]
                style = nd["style"]
                line = nd["y"]
                if style == "phase":
                    el["controls"].add(int(line))
                elif style == "xstyle" and nd["text"]:
                    kinds.add("SqrtSwap^" if "dagger" in nd["text"] else "SqrtSwap")
                    el["mid"] = line
                    continue
                elif style == "xstyle":
                    kinds.add("X")
                    el["targets"].add(int(line))
                elif style == "swapstyle":
                    kinds.add("swap")
                    el["targets"].add(int(line))
                elif style == "measure":
                    kinds.add("Measure")
                    el["targets"].add(int(line))
                elif m in self.alloc:
                    kinds.add("Allocate")
                    el["name"] = nd["text"]
                    el["targets"].add(int(line))
                elif m in self.deallocs:
                    kinds.add("Deallocate")
                    el["targets"].add(int(line))
                elif m in box_of:
                    kinds.add(("box", box_of[m]))
                    el["targets"].add(int(line))
                else:
                    raise Violation("node %s belongs to nothing" % m)
                el["nodes"].setdefault(int(line), []).append(m)
            if "swap" in kinds:
                kinds.discard("swap")
                kinds = kinds or {"Swap"}
                if len(el["targets"]) != 2:
                    raise Violation("a swap of lines %s" % sorted(el["targets"]))
                if "mid" in el and el["mid"] * 2 != sum(el["targets"]):
                    raise Violation("the circle of a square-root swap lies off its middle")
            if not kinds:
                kinds = {"CZ"}
            if len(kinds) != 1:
                raise Violation("connected symbols: %s" % kinds)
            el["kind"] = kinds.pop()
            xs = [self.nodes[m]["x"] for m in members]
            if isinstance(el["kind"], tuple):
                a, b, el["name"], ms = self.boxes[el["kind"][1]]
                el["kind"] = "box"
                ys = [int(self.nodes[a]["y"]), int(self.nodes[b]["y"])]
                if ys[0] > ys[1] or el["targets"] != set(range(ys[0], ys[1] + 1)) or self.nodes[a]["x"] >= self.nodes[b]["x"]:
                    raise Violation("the box %s spans lines %s but has nodes on %s" % (el["name"], ys, sorted(el["targets"])))
                lo, hi = self.nodes[a]["x"], self.nodes[b]["x"]
                if any(not lo <= x <= hi for x in xs):
                    raise Violation("a part of the box %s lies outside it" % el["name"])
            elif max(xs) - min(xs) > 1e-9:
                raise Violation("one %s at the positions %s" % (el["kind"], xs))
            el["x"] = (min(xs), max(xs))
            el["order"] = min(self.nodes[m]["order"] for m in members)
            lines = el["targets"] | el["controls"]
            el["span"] = (min(lines), max(lines))
            self.elements.append(el)
        # a control between the ends of a swap lies on the line which joins them
        for e in [e for e in self.elements if e["kind"] in ("Swap", "SqrtSwap", "SqrtSwap^")]:
            for o in [o for o in self.elements if o["kind"] == "CZ" and len(o["controls"]) == 1]:
                if o["x"] == e["x"] and e["span"][0] < o["span"][0] < e["span"][1]:
                    e["controls"] |= o["controls"]
                    e["nodes"].update(o["nodes"])
                    e["order"] = min(e["order"], o["order"])
                    self.elements.remove(o)
        self.elements.sort(key=lambda e: (e["x"], e["order"]))


def expected(x, gate, line_of, draw_id):
    k = x[0]
    if k in ("alloc", "dealloc"):
        text = "$\\Ket{0}%s$" % ("^{\\textcolor{red}{%d}}" % x[1] if draw_id else "")
        return ("Allocate" if k == "alloc" else "Deallocate", text if k == "alloc" else "", {line_of[x[1]]}, set())
    if k == "m":
        return [("Measure", "", {line_of[i]}, set()) for i in x[1]]
    t, c = {line_of[i] for i in x[2]}, {line_of[i] for i in x[3]}
    name = x[1][0]
    if name == "X":
        return ("X", "", t, c)
    if name == "Z" and c:
        return ("CZ", "", set(), t | c)
    if name in ("Swap", "SqrtSwap", "invSqrtSwap"):
        return ({"invSqrtSwap": "SqrtSwap^"}.get(name, name), "", t, c)
    try:
        text = gate.tex_str()
    except AttributeError:
        text = str(gate)
    box = set(range(min(t), max(t) + 1))
    return ("box", text, box, c - box)


@st.composite
def latex_cases(draw, wide=False):
    c = draw(programs(most=18, length=(25, 90)) if wide else programs())
    c.update(last=draw(st.booleans()), default=draw(st.integers(0, 1)), ordered=draw(st.booleans()), parallel=draw(st.integers(0, 3)) > 0,
             draw_id=draw(st.booleans()), at_zero=draw(st.integers(0, 3)) == 0, shadow=draw(st.booleans()), cshadow=draw(st.booleans()),
             double=draw(st.booleans()), init=draw(st.booleans()), locate=None, twice=draw(st.booleans()))
    if draw(st.booleans()):
        lo, hi = min(c["ids"]), max(c["ids"])
        if draw(st.integers(0, 3)) == 0:
            hi = max(lo, hi - 1)
        rng = list(range(lo, hi + 1))
        lines = draw(st.permutations(range(len(rng) + draw(st.integers(0, 2)))))
        c["locate"] = [[i, l] for i, l in zip(rng, lines)]
    return c


def run_latex(case, ev):
    from projectq.backends import CircuitDrawer
    import projectq.backends._circuits as pkg
    warnings.simplefilter("ignore")
    d = CircuitDrawer(default_measure=case["default"])
    if case["locate"]:
        d.set_qubit_locations({i: l for i, l in case["locate"]})
    done = deliver(case, d, case["last"])
    old, tmp = os.getcwd(), tempfile.mkdtemp(prefix="vf-draw-")
    try:
        os.chdir(tmp)
        s = pkg._to_latex.get_default_settings()
        s["gate_shadow"] = case["shadow"]
        s["control"]["shadow"] = case["cshadow"]
        s["lines"]["double_classical"] = case["double"]
        s["lines"]["init_quantum"] = case["init"]
        s["gates"]["AllocateQubitGate"]["draw_id"] = case["draw_id"]
        s["gates"]["AllocateQubitGate"]["allocate_at_zero"] = case["at_zero"]
        pkg._to_latex.write_settings(s)
        text = d.get_latex(ordered=case["ordered"], draw_gates_in_parallel=case["parallel"])
        if case["twice"] and d.get_latex(ordered=case["ordered"], draw_gates_in_parallel=case["parallel"]) != text:
            raise Violation("the second drawing of the same circuit differs from the first")
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)
    check_latex(case, done, Drawing(text), ev)


def check_latex(case, done, pic, ev):
    els = pic.elements
    ids = case["ids"]
    # lines: as placed by the user, otherwise by id; never two qubits on one line
    line_of = {i: l for i, l in case["locate"] or []}
    placed = [x[1] for x, _ in done if x[0] == "alloc"]
    for i in placed:
        if i not in line_of:
            l = i
            if l in line_of.values():
                # any free line will do: find it by its identifier
                if not case["draw_id"]:
                    return
                hits = {min(e["targets"]) for e in els if e["kind"] == "Allocate" and "{red}{%d}" % i in e["name"]}
                if len(hits) != 1 or hits & set(line_of.values()):
                    raise Violation("qubit %d is drawn on the lines %s, others use %s" % (i, sorted(hits), line_of))
                l = hits.pop()
            line_of[i] = l
    want = []
    for n, (x, g) in enumerate(done):
        e = expected(x, g, line_of, case["draw_id"])
        for s in e if isinstance(e, list) else [e]:
            own = {line_of[i] for i in ([x[1]] if x[0] in ("alloc", "dealloc") else x[1] if x[0] == "m" else x[2] + x[3])}
            if x[0] == "m":
                own = set(s[2])
            want.append(dict(sig=(s[0], s[1], frozenset(s[2]), frozenset(s[3])), own=own, n=n))
    remaining = list(want)
    pics = list(els)
    if case["at_zero"]:
        # the first allocation of a line is moved to the front
        pics.sort(key=lambda e: (e["kind"] != "Allocate" or e["x"][0] > 0.11, e["x"], e["order"]))
    for e in pics:
        sig = (e["kind"], e["name"], frozenset(e["targets"]), frozenset(e["controls"]))
        blocked = set()
        for k, w in enumerate(remaining):
            if w["sig"] == sig:
                if w["own"] & blocked:
                    raise Violation("%s on lines %s is drawn before earlier gates of its qubits" % (sig[:2], sorted(w["own"])))
                e["n"], e["own"] = w["n"], w["own"]
                del remaining[k]
                break
            blocked |= w["own"]
        else:
            raise Violation("drawn but not in the program: %s %s on targets %s, controls %s" % (sig[0], sig[1], sorted(sig[2]), sorted(sig[3])))
    if remaining:
        raise Violation("not drawn: %s" % [(w["sig"][0], w["sig"][1], sorted(w["own"])) for w in remaining])
    # no two symbols share a place
    lines = sorted({l for e in els for l in e["targets"] | e["controls"]})
    for l in lines:
        over = [e for e in els if e["span"][0] <= l <= e["span"][1] and not (case["at_zero"] and e["kind"] == "Allocate")]
        over.sort(key=lambda e: e["x"])
        for a, b in zip(over, over[1:]):
            if not a["x"][1] < b["x"][0] - 1e-9:
                raise Violation("on line %d, %s%s at %s overlaps %s%s at %s" % (l, a["kind"], a["name"], a["x"], b["kind"], b["name"], b["x"]))
    if case["ordered"]:
        seq = [e["n"] for e in sorted(els, key=lambda e: e["order"])]
        if seq != sorted(seq):
            raise Violation("ordered drawing emits the commands in the order %s" % seq)
    if not case["parallel"] and not case["at_zero"]:
        xs = sorted((e for e in els), key=lambda e: e["x"])
        for a, b in zip(xs, xs[1:]):
            if a["n"] != b["n"] and not a["x"][1] < b["x"][0] - 1e-9:
                raise Violation("%s%s at %s and %s%s at %s are drawn in parallel" % (a["kind"], a["name"], a["x"], b["kind"], b["name"], b["x"]))
    # wires
    wired = dict(pic.wires)
    for l in lines:
        on = [e for e in pics if l in e["nodes"]]
        if not case["at_zero"]:
            on.sort(key=lambda e: e["x"])
        quantum = None
        for p, e in zip([None] + on, on):
            if e["kind"] == "Allocate":
                quantum = case["init"]
                continue
            prev = p
            if prev is not None and l in e["own"]:
                last = max(prev["nodes"][l], key=lambda m: pic.nodes[m]["order"])
                first = min(e["nodes"][l], key=lambda m: pic.nodes[m]["order"])
                w = wired.pop((last, first), None)
                if w is None:
                    raise Violation("line %d: nothing connects %s to %s" % (l, last, first))
                double = all(w)
                if len(w) != (2 if double else 1) or double and not case["double"]:
                    raise Violation("line %d: %s wires between %s and %s" % (l, len(w), last, first))
                if case["double"] and quantum is not None and quantum == double:
                    raise Violation("line %d: the wire into %s is drawn %s" % (l, first, "double" if double else "single"))
            if e["kind"] == "Measure":
                quantum = False
            elif l in e["own"] and not (quantum and e["kind"] in ("X", "box", "CZ")) and not (e["kind"] == "X" and not e["controls"]):
                quantum = None
            elif e["kind"] == "box" and l not in e["own"] and l in e["targets"]:
                quantum = None if quantum is not True else True
    ev.label("ordered", case["ordered"])
    ev.label("placed by the user", bool(case["locate"]))
    ev.label("qubit allocated again", len(placed) > len(set(placed)))
    ev.label("one after the other", not case["parallel"])
    ev.label("gaps between ids", case["ids"] != list(range(len(ids))))
    ev.mark(sum(1 for x, _ in done if x[0] == "g" and len(x[2]) + len(x[3]) > 1) >= 2)


# ------------------------------------------------------------------ matplotlib
def fmt(name):
    """The drawn name: numbers rounded, long arguments shortened."""
    m = re.fullmatch(r"(.+)\((.*)\)(.*)", name, re.S)
    if not m:
        return name
    out = []
    for p in [p for p in m.group(2).split(",") if p]:
        try:
            out.append("%.2f" % float(p))
        except ValueError:
            out.append(p if len(p) < 8 else p[:5] + "...")
    return "%s(%s)%s" % (m.group(1), ",".join(out), m.group(3))


@st.composite
def mpl_cases(draw, wide=False):
    c = draw(programs(most=14, length=(20, 50)) if wide else programs(most=5, length=(2, 14)))
    c.update(last=draw(st.booleans()), default=draw(st.integers(0, 1)), order=None, labels=draw(st.booleans()),
             twice=draw(st.booleans()), params=draw(st.sampled_from([{}, {"wire_height": 2.0}, {"column_spacing": 0.9, "fontsize": 9.0}])))
    alive = sorted({x[1] for x in c["ops"] if x[0] == "alloc"})
    wires = {i: len(alive) - 1 - k for k, i in enumerate(alive)}
    if draw(st.booleans()):
        c["order"] = [[i, k] for i, k in zip(alive, draw(st.permutations(range(len(alive)))))]
        wires = dict(c["order"])
    # boxed gates on several qubits have to be adjacent
    ops = []
    for x in c["ops"]:
        if x[0] == "g" and len(x[2]) > 1 and x[1][0] != "Swap":
            ws = sorted(wires[i] for i in x[2])
            if ws != list(range(ws[0], ws[-1] + 1)):
                if draw(st.integers(0, 30)):
                    continue
                c["refused"] = True
        ops.append(x)
    c["ops"] = ops
    return c


def run_mpl(case, ev):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from projectq.backends import CircuitDrawerMatplotlib
    warnings.simplefilter("ignore")
    d = CircuitDrawerMatplotlib(default_measure=case["default"])
    done = deliver(case, d, case["last"])
    alive = []
    for x, _ in done:
        if x[0] == "alloc" and x[1] not in alive:
            alive.append(x[1])
    kw = dict(case["params"])
    if case["order"]:
        kw["drawing_order"] = {i: k for i, k in case["order"]}
    if case["labels"]:
        kw["qubit_labels"] = {i: "q%d" % i for i in alive}
    draw, fig = FigureCanvasAgg.draw, None
    FigureCanvasAgg.draw = lambda self, *a, **k: None      # sizes are computed without rasterising
    try:
        if case.get("refused"):
            try:
                d.draw(**kw)
            except RuntimeError:
                ev.label("refused")
                return
            raise Violation("a gate on wires which are not adjacent is drawn")
        if case["twice"]:
            d.draw(**kw)
            plt.close("all")
        fig, axes = d.draw(**kw)
        check_mpl(case, done, alive, fig, axes, ev)
    finally:
        FigureCanvasAgg.draw = draw
        plt.close("all")


def check_mpl(case, done, alive, fig, axes, ev):
    import numpy as np
    from matplotlib.patches import Circle, Rectangle
    order = dict(case["order"]) if case["order"] else {i: len(alive) - 1 - k for k, i in enumerate(sorted(alive))}
    coll = {}
    for c in axes.collections:
        coll.setdefault(c.get_label(), []).append(c)
    wires = [s for s in coll.pop("qubit_wires")[0].get_segments()]
    ys = sorted(float(s[0][1]) for s in wires)
    if len(ys) != len(alive) or any(s[0][1] != s[1][1] for s in wires) or len(set(np.round(ys, 9))) != len(ys):
        raise Violation("%d wires for %d qubits" % (len(ys), len(alive)))
    x_end = max(float(s[1][0]) for s in wires)

    def wire(y):
        k = int(np.argmin([abs(y - w) for w in ys]))
        if abs(y - ys[k]) > 1e-6:
            raise Violation("a symbol is drawn off the wires, at height %s" % y)
        return k

    def centre(path):
        v = path.vertices
        return (float(v[:, 0].min() + v[:, 0].max()) / 2, float(v[:, 1].min() + v[:, 1].max()) / 2)
    els = []        # x, kind, name, target wires
    for c in coll.pop("NOT", []):
        x, y = centre(c.get_paths()[0])
        els.append([x, "X", "", [wire(y)]])
    for c in coll.pop("Measure", []):
        x, y = centre(c.get_paths()[0])
        els.append([x, "Measure", "", [wire(y)]])
    for c in coll.pop("SWAP", []):
        seg = c.get_segments()
        v = seg[-1]
        els.append([float(v[0][0]), "Swap", "", sorted([wire(v[0][1]), wire(v[1][1])])])
    for c in coll.pop("CZ", []):
        (x, y), (_, y2) = [centre(p) for p in c.get_paths()[:2]]
        els.append([x, "CZ", "", sorted([wire(y), wire(y2)])])
    if coll:
        raise Violation("unknown collections %s" % list(coll))
    circles, boxes = [], []
    for p in axes.patches:
        if isinstance(p, Circle):
            circles.append((float(p.center[0]), wire(p.center[1])))
        elif isinstance(p, Rectangle):
            boxes.append([float(p.get_x()), float(p.get_y()), float(p.get_width()), float(p.get_height())])
    labels = {}
    for t in axes.texts:
        x, y = t.get_position()
        inside = [b for b in boxes if b[0] - 1e-9 <= x <= b[0] + b[2] + 1e-9 and b[1] - 1e-9 <= y <= b[1] + b[3] + 1e-9]
        if not inside:
            k = wire(y)
            if k in labels:
                raise Violation("wire %d has two labels" % k)
            labels[k] = t.get_text()
            continue
        inside.sort(key=lambda b: abs(b[0] + b[2] / 2 - x) + abs(b[1] + b[3] / 2 - y))
        b = inside[0]
        boxes.remove(b)
        if abs(b[0] + b[2] / 2 - x) > 1e-6 or abs(b[1] + b[3] / 2 - y) > 1e-6:
            raise Violation("the text %r is not centred in its box" % t.get_text())
        els.append([float(x), "box", t.get_text(), [k for k, w in enumerate(ys) if b[1] <= w <= b[1] + b[3]]])
    if boxes:
        raise Violation("boxes without text: %s" % boxes)
    want_labels = {order[i]: ("q%d" % i if case["labels"] else r"$|0\rangle$") for i in alive}
    if labels != want_labels:
        raise Violation("the wires are labelled %s, should be %s" % (labels, want_labels))
    lines = [(float(ln.get_xdata()[0]), wire(min(ln.get_ydata())), wire(max(ln.get_ydata()))) for ln in axes.lines]
    # attach controls: circles on a vertical line
    for e in els:
        e += [set(), (min(e[3]), max(e[3]))]
    for x, lo, hi in lines:
        mine = [e for e in els if abs(e[0] - x) < 1e-9 and lo <= e[5][0] and e[5][1] <= hi and not e[4]]
        ctl = [c for c in circles if abs(c[0] - x) < 1e-9 and lo <= c[1] <= hi]
        if len(mine) != 1:
            raise Violation("the vertical line at %.3f over wires %d-%d connects %d gates" % (x, lo, hi, len(mine)))
        e = mine[0]
        e[4] = {c[1] for c in ctl}
        for c in ctl:
            circles.remove(c)
        e[5] = (min([e[5][0]] + list(e[4])), max([e[5][1]] + list(e[4])))
        if e[5] != (lo, hi) or not e[4]:
            raise Violation("the vertical line at %.3f spans wires %d-%d, its gate %s" % (x, lo, hi, e[5]))
    if circles:
        raise Violation("control circles at %s belong to no gate" % circles)
    want = []
    for x, g in done:
        if x[0] == "m":
            want += [["Measure", "", [order[i]], set(), {order[i]}] for i in x[1]]
        elif x[0] == "g":
            t, c = sorted(order[i] for i in x[2]), {order[i] for i in x[3]}
            own = set(t) | c
            if x[1][0] == "X":
                want.append(["X", "", t, c, own])
            elif x[1][0] == "Z" and len(c) == 1:
                want.append(["CZ", "", sorted(own), c, own])
            elif x[1][0] == "Swap":
                want.append(["Swap", "", t, c, own])
            else:
                want.append(["box", fmt(str(g)), t, c, own])
    els.sort(key=lambda e: e[0])
    for e in els:
        if not e[0] < x_end:
            raise Violation("a gate lies right of the wires")
        blocked = set()
        for k, w in enumerate(want):
            if w[:3] == e[1:4] and w[3] == e[4]:
                if w[4] & blocked:
                    raise Violation("%s %s on wires %s is drawn before earlier gates of its qubits" % (e[1], e[2], sorted(w[4])))
                del want[k]
                break
            blocked |= w[4]
        else:
            raise Violation("drawn but not in the program: %s %r on wires %s, controls %s; left: %s" % (e[1], e[2], e[3], sorted(e[4]), want))
    if want:
        raise Violation("not drawn: %s" % want)
    for k in range(len(ys)):
        xs = sorted((e[0] for e in els if e[5][0] <= k <= e[5][1]))
        if any(b - a < 1e-9 for a, b in zip(xs, xs[1:])):
            raise Violation("two gates share a place on wire %d: %s" % (k, [e for e in els if e[5][0] <= k <= e[5][1]]))
    ev.label("order given", bool(case["order"]))
    ev.mark(len(els) >= 3)


# ------------------------------------------------------------------ control values
def run_negative(case, ev):
    """Gates which differ only in a control value must not be drawn alike."""
    from projectq import MainEngine
    from projectq.backends import CircuitDrawer
    from projectq.meta import Control
    from projectq.ops import X
    text = []
    old, tmp = os.getcwd(), tempfile.mkdtemp(prefix="vf-draw-")
    try:
        os.chdir(tmp)
        for value in ("1", case["value"]):
            d = CircuitDrawer()
            eng = MainEngine(d, [], verbose=True)
            q = eng.allocate_qureg(2)
            with Control(eng, q[0], ctrl_state=value):
                X | q[1]
            text.append(d.get_latex())
            eng.next_engine.receive = d.receive = lambda cl: None
            del q
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)
    ev.mark(True)
    if text[0] == text[1]:
        raise Violation("a control on |0> is drawn like a control on |1>")


TESTS = [
    Test("latex", latex_cases, run_latex, 5000,
         rule="programs (controlled gates, swaps, boxes, releases, re-allocation) with drawing options; document parsed back and matched to the "
              "program; non-trivial = at least two multi-qubit gates"),
    Test("matplotlib", mpl_cases, run_mpl, 1400,
         rule="programs with wire orders; the figure's artists matched to the program; non-trivial = at least three gates"),
    Test("large", lambda: latex_cases(True), run_latex, 250,
         rule="LaTeX documents of programs with up to 18 wires and 90 operations; non-trivial as for latex"),
    Test("large-figure", lambda: mpl_cases(True), run_mpl, 60,
         rule="figures of programs with up to 14 wires and 50 operations; non-trivial as for matplotlib"),
    Test("values", lambda: st.just({"value": "0"}), run_negative, 1, 1,
         rule="control values in the drawing"),
]
