"""P35: printed programs can be read back."""
import contextlib
import io
import itertools
import math
import random
import re

import numpy as np
from hypothesis import strategies as st

from vf import prog, ref, spec, stream
from vf.core import Test, Violation

ASSUMPTIONS = ["control values are not part of the text (a control on 0 reads like a control on 1), nor is the amplitude list of StatePreparation",
               "programs of up to 5 qubits; numbers are printed to full precision"]

REG = r"Qureg\[([^\]\[]*)\]"
LINE = re.compile(r"(.*?) \| (%s|\( %s(?:, %s)+ \))\n" % (REG, REG, REG), re.S)


# ------------------------------------------------------------------ reading
def read_reg(text):
    out = []
    for part in text.split(", ") if text else []:
        m = re.fullmatch(r"(-?\d+)(?:-(\d+))?", part)
        if not m:
            raise Violation("cannot read register Qureg[%s]" % text)
        a = int(m.group(1))
        b = a if m.group(2) is None else int(m.group(2))
        if m.group(2) is not None and b <= a:
            raise Violation("empty range in Qureg[%s]" % text)
        out += list(range(a, b + 1))
    return out


def read_op(text):
    """Terms of a printed QubitOperator."""
    if text == "0":
        return []
    out = []
    for line in text.split(" +\n"):
        w = line.split(" ")
        try:
            c = complex(w[0])
        except ValueError:
            raise Violation("cannot read the coefficient in %r" % line) from None
        ops = []
        for x in w[1:]:
            if x == "I" and len(w) == 2:
                continue
            m = re.fullmatch(r"([XYZ])(\d+)", x)
            if not m:
                raise Violation("cannot read %r in %r" % (x, line))
            ops.append([int(m.group(2)), m.group(1)])
        out.append([ops, c.real, c.imag])
    return out


def read_gate(text):
    """[name, args...] as in vf.spec."""
    if text.endswith("^\\dagger"):
        s = read_gate(text[:-len("^\\dagger")])
        return [s[0][4:]] + s[1:] if s[0].startswith("inv:") else ["inv:" + s[0]] + s[1:]
    plain = {"_InverseAddQuantum": ["inv:AddQuantum"], "Barrier": ["Barrier"], "Measure": ["Measure"], "Allocate": ["Allocate"],
             "AllocateDirty": ["AllocateDirty"],
             "Deallocate": ["Deallocate"], "QFT": ["QFT"], "Entangle": ["Entangle"], "AddQuantum": ["AddQuantum"],
             "SubtractQuantum": ["SubtractQuantum"], "StatePreparation": ["StatePrep"]}
    if text in plain:
        return plain[text]
    if text in ref.NQ and text not in ref.PARAM:
        return [text]
    m = re.fullmatch(r"exp\((.*?) \* \((.*)\)\)", text, re.S)
    if m:
        t = complex(m.group(1))
        if t.real:
            raise Violation("time %s is not of the form -i t" % m.group(1))
        return ["TE", -t.imag, read_op(m.group(2))]
    m = re.fullmatch(r"(\w+)\((.*)\)", text, re.S)
    if m:
        name, arg = m.group(1), m.group(2)
        try:
            if name in ref.PARAM:
                return [name, float(arg)]
            if name == "MatrixGate":
                return ["Array", eval(arg, {"__builtins__": {}, "nan": math.nan, "inf": math.inf})]
            if name in ("UniformlyControlledRy", "UniformlyControlledRz"):
                return ["UCR" + name[-1], [float(x) for x in arg.strip("[]").split(",")]]
            if name in ("AddConstant", "AddConstantModN", "MultiplyByConstantModN", "FlipBits"):
                return [name] + [int(x) for x in arg.split(",")]
        except (ValueError, SyntaxError, NameError, TypeError):
            raise Violation("cannot read the arguments of %r" % text) from None
    if text and (text[0] in "+-.(" or text[0].isdigit()):
        return ["QOp", read_op(text)]
    raise Violation("cannot read gate %r" % text)


def read(text):
    """[(controls, gate text, registers)] of a printout."""
    out, at = [], 0
    while at < len(text):
        m = LINE.match(text, at)
        if not m:
            raise Violation("cannot read the line %r" % text[at:at + 120].split("\n")[0])
        regs = [read_reg(x) for x in re.findall(REG, m.group(2))]
        out.append((m.group(1), regs))
        at = m.end()
    return out


def split(text, regs):
    """Controls, gate, target registers."""
    g = text.lstrip("C")
    nc = len(text) - len(g)
    if not nc:
        return [], g, regs
    if len(regs[0]) != nc or len(regs) < 2:
        raise Violation("%d controls are announced, the registers read %s" % (nc, regs))
    return regs[0], g, regs[1:]


# ------------------------------------------------------------------ comparing
def meaning(sp, sizes):
    if sp[0] == "Array":
        return "mat", np.array(sp[1], dtype=complex)
    if sp[0] == "inv:Array":
        return "mat", np.linalg.inv(np.array(sp[1], dtype=complex))
    return spec.meaning(sp, sizes)


def same_gate(want, got, sizes, tol=1e-9):
    """Whether a read gate means what was meant on registers of these sizes."""
    if want[0] == got[0] and want[1:] == got[1:]:
        return True
    if got[0] in ("StatePrep", "inv:StatePrep") or want[0] in ("StatePrep", "inv:StatePrep"):
        return got[0] == want[0]
    try:
        a, b = meaning(want, sizes), meaning(got, sizes)
    except (KeyError, ValueError, IndexError):
        return False
    if a[0] != b[0]:
        return False
    if a[0] == "mat":
        return a[1].shape == b[1].shape and np.max(np.abs(a[1] - b[1])) < tol
    if a[0] == "fn":
        for xs in itertools.product(*[range(1 << s) for s in sizes]):
            u, v = a[1](*xs), b[1](*xs)
            if [x % (1 << s) for x, s in zip(u, sizes)] != [x % (1 << s) for x, s in zip(v, sizes)]:
                return False
        return True
    return want[0] == got[0]


def check(want, text, symbols=False):
    """want: [(spec, registers, controls)] in order."""
    got = read(text)
    if len(got) != len(want):
        raise Violation("%d commands were printed of %d:\n%s" % (len(got), len(want), text))
    for (sp, regs, ctrls), (g, rr) in zip(want, got):
        cs, g, rr = split(g, rr)
        line = "%r on %s controlled by %s" % (g, rr, cs)
        if sorted(cs) != sorted(ctrls):
            raise Violation("%s on %s is controlled by %s, printed: %s" % (sp, regs, ctrls, line))
        swap = len(regs) == 2 and sp[0] in ref.NQ
        if (sorted(map(tuple, rr)) != sorted(map(tuple, regs))) if swap else rr != regs:
            raise Violation("%s acts on %s, printed: %s" % (sp, regs, line))
        if symbols and sp[0] in ref.PARAM and sp[0] not in ("Ph", "R"):
            m = re.fullmatch(r"(\w+)\((-?[\d.]+(?:e-?\d+)?)π\)", g)
            if not m or m.group(1) != sp[0]:
                raise Violation("%s is written %r with symbols" % (sp, g))
            d = (float(m.group(2)) * math.pi - sp[1]) % (4 * math.pi)
            if min(d, 4 * math.pi - d) > 0.0005 * math.pi + 1e-9:
                raise Violation("%s is written %r with symbols" % (sp, g))
            continue
        if not same_gate(sp, read_gate(g), [len(r) for r in regs]):
            raise Violation("%s on %s is printed %s" % (sp, regs, line))


# ------------------------------------------------------------------ streams
@st.composite
def streams(draw):
    c = draw(stream.streams(maxq=5, length=(2, 24)))
    c["step"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["off"] = draw(st.sampled_from([0, 0, 1, 8, 97]))
    c["last"] = draw(st.booleans())
    c["batch"] = draw(st.integers(1, 4))
    c["verbose"] = draw(st.booleans())
    extra = []
    for x in c["ops"]:
        if draw(st.integers(0, 9)) == 0:
            extra.append(draw(st.sampled_from([["FlipBits", 3], ["FlipBits", 0], ["FlipBits", -2], ["MultiplyByConstantModN", 3, 4], ["Barrier"],
                                               ["inv:MultiplyByConstantModN", 3, 8], ["SubConstant", 3], ["SubConstantModN", 1, 3],
                                               ["AddConstantModN", 2, 5],
                                               ["StatePrep", 5, 1, "full"], ["inv:StatePrep", 5, 1, "full"]])))
    c["extra"] = extra
    return c


def prepared(case):
    """The operations with their final qubit numbers."""
    f = lambda i: case["off"] + case["step"] * i  # noqa: E731
    ids = sorted({x[1] for x in case["ops"] if x[0] == "alloc"})
    out = []
    for x in case["ops"]:
        if x[0] in ("alloc", "dealloc", "m"):
            out.append([x[0], f(x[1])])
        elif x[0] == "g":
            out.append(["g", x[1], [[f(i) for i in r] for r in x[2]], [[f(i), v] for i, v in x[3]], x[4]])
        else:
            out.append(x)
    for j, sp in enumerate(case["extra"]):
        k = 1 if "StatePrep" in sp[0] else len(ids)
        if sp[0].endswith("ModN") and (1 << k) < sp[-1]:
            continue
        q = [f(i) for i in (ids[j % len(ids):] + ids[:j % len(ids)])[:k]]
        out.append(["g", sp, [q], [], 0])
    return out


NAME = {"alloc": "Allocate", "dealloc": "Deallocate", "m": "Measure"}


def wanted(ops):
    out = []
    for x in ops:
        if x[0] == "f":
            continue
        if x[0] != "g":
            out.append(([NAME[x[0]]], [[x[1]]], []))
        else:
            sp = x[1]
            if sp[0] in ref.PARAM:
                sp = [sp[0], sp[1]]
            out.append((sp, x[2], [c for c, _ in x[3]]))
    return out


def run_stream(case, ev):
    from projectq import MainEngine
    from projectq.backends import CommandPrinter
    from projectq.cengines import DummyEngine
    ops = prepared(case)
    be = DummyEngine(save_commands=True)
    be.is_available = lambda cmd: True
    pr = CommandPrinter(accept_input=False)
    eng = MainEngine(pr, [], verbose=True) if case["last"] else MainEngine(be, [pr], verbose=True)
    out = io.StringIO()
    cmds = [stream.make_cmd(eng, x) for x in ops]
    want = wanted(ops)
    try:
        with contextlib.redirect_stdout(out):
            for i in range(0, len(cmds), case["batch"]):
                pr.receive(cmds[i:i + case["batch"]])
    finally:
        eng.next_engine.receive = lambda cl: None
    if not case["last"]:
        got = be.received_commands
        if len(got) != len(cmds) or any(a is not b for a, b in zip(got, cmds)):
            raise Violation("the printer passed on %d commands of %d" % (len(got), len(cmds)))
    check(want, out.getvalue())
    shown = [c for c, x in zip(cmds, ops) if x[0] != "f"]
    check(want, "".join(str(c) + "\n" for c in shown))
    check(want, "".join(c.to_string(symbols=True) + "\n" for c in shown), symbols=True)
    # the text does not depend on who holds the command
    from copy import deepcopy
    for c in shown:
        if str(deepcopy(c)) != str(c):
            raise Violation("a copy of %s reads %s" % (c, deepcopy(c)))
    ev.mark(any(x[0] == "g" and (x[3] or len(x[1]) > 1) for x in ops))
    ev.label("controls", any(x[0] == "g" and x[3] for x in ops))
    ev.label("last engine", case["last"])




# ------------------------------------------------------------------ operators, registers, matrices
@st.composite
def texts(draw):
    kind = draw(st.sampled_from(["op", "op", "reg", "reg", "mat", "te", "ucr", "big"]))
    num = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-20, -1e-7, 12345678.9, 1e22]), st.floats(-10, 10))
    if kind in ("op", "te"):
        n = draw(st.sampled_from([1, 2, 3, 5, 12]))
        terms, seen = [], set()
        for _ in range(draw(st.integers(0 if kind == "op" else 1, 5))):
            idx = sorted(draw(st.sets(st.integers(0, n - 1), max_size=4)))
            t = [[i, draw(spec.paulis)] for i in idx]
            if str(t) in seen:
                continue
            seen.add(str(t))
            terms.append([t, draw(num), draw(st.one_of(st.just(0), num)) if kind == "op" else 0])
        return {"kind": kind, "terms": terms, "time": draw(st.one_of(st.sampled_from([0.0, 1, -2, 1e-9, 0.1]), st.floats(-5, 5)))}
    if kind == "reg":
        ids = draw(st.one_of(st.lists(st.integers(0, 30), max_size=12, unique=True), st.integers(1, 12).map(lambda n: list(range(3, 3 + n))),
                             st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 9, 10, 11]), max_size=9, unique=True).map(sorted),
                             st.lists(st.integers(0, 12), max_size=8)))
        return {"kind": kind, "ids": ids, "back": draw(st.booleans())}
    if kind == "ucr":
        return {"kind": kind, "name": draw(st.sampled_from(["UCRy", "UCRz"])), "size": draw(st.integers(0, 11)), "seed": draw(st.integers(0, 10 ** 6))}
    if kind == "big":
        return {"kind": kind, "seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(1, 40)), "terms": draw(st.integers(1, 300))}
    return {"kind": kind, "rows": [[[draw(num), draw(st.one_of(st.just(0), num))] for _ in range(2)] for _ in range(2)]}


def run_text(case, ev):
    from projectq.ops import MatrixGate, QubitOperator, TimeEvolution
    from projectq.types import Qureg, WeakQubitRef
    if case["kind"] in ("op", "te"):
        op = QubitOperator()
        for t, re_, im in case["terms"]:
            op.terms[tuple((i, p) for i, p in t)] = complex(re_, im) if im else re_
        mine = {tuple((i, p) for i, p in t): complex(re_, im) for t, re_, im in case["terms"]}
        if case["kind"] == "te":
            g = TimeEvolution(case["time"], op)
            got = read_gate(str(g))
            if got[0] != "TE" or got[1] != case["time"]:
                raise Violation("time %r is printed as %r" % (case["time"], str(g)))
            terms = got[2]
        else:
            if repr(op) != str(op):
                raise Violation("repr %r, str %r" % (repr(op), str(op)))
            terms = read_op(str(op))
        back = {}
        for t, re_, im in terms:
            key = tuple((i, p) for i, p in t)
            if key in back:
                raise Violation("%s appears twice in %r" % (key, str(op)))
            back[key] = complex(re_, im)
        if back != mine:
            raise Violation("%s is printed as %r" % (mine, str(op)))
        ev.mark(len(mine) > 1)
    elif case["kind"] == "ucr":
        r = random.Random(case["seed"])
        angles = [round(r.uniform(-14, 14), r.randint(1, 12)) for _ in range(1 << case["size"])]
        got = read_gate(str(spec.build([case["name"], angles])))
        if got[0] != case["name"] or len(got[1]) != len(angles) or any(
                min((a - b) % (4 * math.pi), (b - a) % (4 * math.pi)) > 1e-11 for a, b in zip(got[1], angles)):
            raise Violation("%s with %d angles is printed as %s, %d angles" % (case["name"], len(angles), got[0], len(got[1])))
        ev.mark(len(angles) > 2)
    elif case["kind"] == "big":
        r = random.Random(case["seed"])
        mine = {}
        for _ in range(case["terms"]):
            t = tuple((i, r.choice("XYZ")) for i in sorted(r.sample(range(case["n"]), r.randint(0, min(case["n"], 9)))))
            mine[t] = r.uniform(-2, 2)
        op = QubitOperator()
        op.terms = dict(mine)
        got = read_op(str(op))
        if [(tuple((i, p) for i, p in t), complex(a, b)) for t, a, b in got] != [(t, complex(c)) for t, c in mine.items()]:
            raise Violation("an operator of %d terms is printed as %d terms, or others" % (len(mine), len(got)))
        ev.mark(len(mine) > 10)
    elif case["kind"] == "reg":
        ids = case["ids"][::-1] if case["back"] else case["ids"]
        s = str(Qureg([WeakQubitRef(None, i) for i in ids]))
        m = re.fullmatch(REG, s)
        if not m or read_reg(m.group(1)) != ids:
            raise Violation("qubits %s are printed as %s" % (ids, s))
        ev.mark(len(ids) > 2)
    else:
        rows = [[complex(a, b) for a, b in r] for r in case["rows"]]
        got = read_gate(str(MatrixGate(rows)))
        if got[0] != "Array" or [[complex(x) for x in r] for r in got[1]] != rows:
            raise Violation("matrix %s is printed as %s" % (rows, MatrixGate(rows)))
        ev.mark()
    ev.label(case["kind"])


TESTS = [Test("streams", streams, run_stream, 1500, rule="some gate has controls or parameters"),
         Test("texts", texts, run_text, 2000, rule="more than one term or qubit")]
