"""Programs through a qubit mapper: legality of every emitted gate, the announced mapping, and the meaning."""
from hypothesis import strategies as st

from . import prog, ref
from .core import Violation
from .refbackend import make


KINDS = ["cx"] * 5 + ["cx0", "cz", "swap", "cry", "rxx", "h", "t", "ry", "m", "md", "md", "a", "a", "f", "b"]


@st.composite
def dense(draw, sites, length=(5, 40), start=None, most=7, kinds=KINDS):
    """Programs dominated by two-qubit gates between arbitrary live qubits, with turnover of qubits."""
    most = min(sites, most)
    k = draw(st.integers(min(2, most), most)) if start is None else start
    live = ["q%d" % i for i in range(k)]
    nxt = k
    body = [["a", list(live)]] if draw(st.booleans()) else [["a", [q]] for q in live]
    body += [["g", "Ry", [0.5 + 0.3 * i], [q], [], 0] for i, q in enumerate(live)]
    n = draw(st.integers(*length))
    for kind, a, b in draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 41), st.integers(0, 40)),
                                    min_size=n, max_size=n)):
        if kind == "a":
            if len(live) < most:
                body.append(["a", ["q%d" % nxt]])
                live.append("q%d" % nxt)
                nxt += 1
                body.append(["g", "Ry", [0.9 + a % 3], [live[-1]], [], 0])
            continue
        if kind == "f":
            body.append(["f"])
            continue
        if not live:
            continue
        q = live[a % len(live)]
        others = [x for x in live if x != q]
        if kind in ("cx", "cx0", "cz", "swap", "cry", "rxx", "b"):
            if not others:
                continue
            p = others[b % len(others)]
            if kind == "cx":
                body.append(["g", "X", [], [q], [[p, 1]], 0])
            elif kind == "cx0":
                body.append(["g", "X", [], [q], [[p, 0]], 0])
            elif kind == "cz":
                body.append(["g", "Z", [], [q], [[p, 1]], 0])
            elif kind == "swap":
                body.append(["g", "Swap", [], [q, p], [], 0])
            elif kind == "cry":
                body.append(["g", "Ry", [0.4 + a % 5], [q], [[p, 1]], 0])
            elif kind == "rxx":
                body.append(["g", "Rxx", [0.4 + b % 5], [q, p], [], 0])
        elif kind == "m":
            body.append(["m", [q]])
        elif kind == "md":
            if len(live) > 1:
                body.append(["md", q])
                live.remove(q)
        elif kind == "ry":
            body.append(["g", "Ry", [0.3 + b % 7], [q], [], 0])
        else:
            body.append(["g", kind.upper(), [], [q], [], 0])
    return {"body": body, "bits": draw(st.lists(st.integers(0, 1), max_size=10))}


def run(case, engines, mapper, sites, connected, ev, wide=False):
    """Drive case's program through engines (containing `mapper`); connected(a, b) says whether sites are linked."""
    from projectq import MainEngine
    from projectq.ops import ClassicalInstructionGate
    be = make()(outcomes=case["bits"], loose_dealloc=False)
    eng = MainEngine(be, engines, verbose=True)
    seen = {"two": 0, "swap": 0}

    def hook(cmd):
        if isinstance(cmd.gate, ClassicalInstructionGate) and type(cmd.gate).__name__ == "FlushGate":
            if mapper is not None:
                announced(mapper, sites)
            return
        ids = [q.id for r in cmd.qubits for q in r] + [q.id for q in cmd.control_qubits]
        out = [i for i in ids if i not in sites]
        if out:
            raise Violation("%s acts on %s, which is no site" % (cmd, out))
        if len(set(ids)) != len(ids):
            raise Violation("%s uses a site twice" % cmd)
        if isinstance(cmd.gate, ClassicalInstructionGate):
            return
        if len(ids) == 2:
            seen["two"] += 1
            seen["swap"] += str(cmd.gate) == "Swap"
            a, b = ids[::-1] if cmd.control_qubits else ids
            if not connected(a, b):
                raise Violation("%s acts on sites %d and %d, which are not connected" % (cmd, a, b))
        elif len(ids) > 2 and not wide:
            raise Violation("%s has more than two qubits" % cmd)
    be.hook = hook
    r = prog.Runner(eng, case)
    try:
        r.run()
        want = r.reference()
        mp = announced(mapper, sites) if mapper is not None else {i: i for i in r.ids.values()}
        ids = []
        for n in want.ids:
            if r.ids[n] not in mp:
                raise Violation("live qubit %d is not in the announced mapping %s" % (r.ids[n], mp))
            ids.append(mp[r.ids[n]])
        got = be.state
        if sorted(got.ids) != sorted(ids):
            raise Violation("sites in use at the backend %s, announced %s" % (got.ids, ids))
        d = ref.phase_distance(got.vector(ids), want.psi)
        if d > 1e-6:
            raise Violation("the mapped program's final state is off by %.3g (mapping %s)" % (d, mp))
        for name in list(r.env):
            pass
        check_results(r, be)
    finally:
        be.one = lambda cmd: None
        r.env = {}
    ev.label("swapped", seen["swap"] > 0)
    ev.label("measured", any(e[0] == "m" for e in r.log))
    ev.label("reallocated", any(e[0] == "d" for e in r.log))
    return seen


def check_results(r, be):
    """Each measurement is credited to the qubit measured, in order, with the bit obtained at the backend."""
    per = {}
    for lid, _, bit in be.measured:
        per.setdefault(lid, []).append(bit)
    want = {}
    for e in r.log:
        if e[0] == "m":
            want.setdefault(r.ids[e[1]], []).append(e[2])
    for lid, seq in want.items():
        if per.get(lid) != seq:
            raise Violation("qubit %d saw outcomes %s, the backend measured %s for it" % (lid, seq, per.get(lid)))


def announced(mapper, sites):
    mp = mapper.current_mapping
    if mp is None:
        return {}
    vals = list(mp.values())
    if len(set(vals)) != len(vals):
        raise Violation("the announced mapping %s is not one-to-one" % mp)
    out = [v for v in vals if v not in sites]
    if out:
        raise Violation("the announced mapping %s leaves the device" % mp)
    return mp
