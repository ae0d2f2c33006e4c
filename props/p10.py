"""P10: the five-qubit mapper, manual and bounded mappers, and the direction fixer."""
import itertools

from hypothesis import strategies as st

from vf import mapping, prog
from vf.core import Skip, Test, Violation

ASSUMPTIONS = ["states compared up to a global phase, 1e-6",
               "the five-qubit mapper sees the whole program before the first flush, without reallocation (documented)",
               "a manual mapping is given by a one-to-one function; two-qubit gates before the direction fixer are CNOT and Swap"]

MAPS = [
    None,
    [[2, 1], [4, 2], [2, 0], [3, 2], [3, 4], [1, 0]],
    [[0, 1], [1, 0], [1, 2], [1, 3], [1, 4], [2, 1], [3, 1], [4, 1]],
    [[0, 1], [1, 2], [2, 3], [3, 4]],
    [[0, 1], [0, 2], [0, 3], [0, 4]],
    [[1, 0], [2, 1], [2, 3], [4, 3], [4, 0]],
]
GENERAL = [(0, 1), (1, 0), (1, 2), (1, 3), (1, 4), (2, 1), (2, 3), (2, 4), (3, 1), (3, 4), (4, 3)]


@st.composite
def links(draw, n, base=None):
    """A directed version of undirected links: each has one direction or both."""
    if base is None:
        base = [(a, b) for a in range(n) for b in range(a) if draw(st.integers(0, 2)) == 0]
    out = []
    for a, b in base:
        d = draw(st.integers(0, 4))
        if d in (0, 1, 4):
            out.append([a, b])
        if d in (2, 3, 4):
            out.append([b, a])
    return out


# ------------------------------------------------------------------ five qubits
@st.composite
def ibm_cases(draw):
    n = draw(st.integers(1, 5))
    p = draw(mapping.dense(n, (1, 14), n, kinds=["cx"] * 5 + ["h", "t", "ry", "m", "cx"]))
    conn = draw(st.sampled_from(MAPS)) if draw(st.booleans()) else draw(links(5))
    if draw(st.booleans()):
        # interactions that certainly fit: relabel the links
        perm = draw(st.permutations(range(5)))
        all_ = conn if conn is not None else [list(x) for x in GENERAL]
        ok = {frozenset((perm[a], perm[b])) for a, b in all_}
        p["body"] = [x for x in p["body"] if not (x[0] == "g" and x[4]) or
                     frozenset((int(x[3][0][1:]), int(x[4][0][0][1:]))) in ok]
    p["conn"] = conn
    p["flip"] = draw(st.booleans())
    # qubits may be measured, but the circuit is only complete at the end
    last = [x for x in p["body"] if x[0] == "m"]
    p["body"] = [x for x in p["body"] if x[0] != "m"]
    seen = set()
    for x in last:
        if x[1][0] not in seen:
            seen.add(x[1][0])
            p["body"].append(x)
    p["extra"] = draw(st.sampled_from([0] * 9 + [1]))
    if not p["extra"] and draw(st.booleans()):
        release(p["body"], draw(st.integers(1, 31)))
    return p


def release(body, which):
    """Measure and release some qubits (never all) right after their last use."""
    names = [q for x in body if x[0] == "a" for q in x[1]]
    for i, q in enumerate(names[:5]):
        left = sum(x[0] == "md" for x in body)
        if which >> i & 1 and left < len(names) - 1:
            body[:] = [x for x in body if x != ["m", [q]]]
            used = [j for j, x in enumerate(body) if x[0] == "a" and q in x[1] or
                    x[0] == "g" and (q in x[3] or any(q == c[0] for c in x[4]))]
            body.insert(used[-1] + 1, ["md", q])


def cnots(case):
    return [(x[4][0][0], x[3][0]) for x in case["body"] if x[0] == "g" and x[4]]


def run_ibm(case, ev):
    from projectq.cengines import IBM5QubitMapper, SwapAndCNOTFlipper
    conn = None if case["conn"] is None else {tuple(x) for x in case["conn"]}
    links_ = conn if conn is not None else set(GENERAL)
    names = sorted({q for x in case["body"] if x[0] == "a" for q in x[1]})
    need = set(cnots(case))
    fits = any(all((m[names.index(c)], m[names.index(t)]) in links_ or (m[names.index(t)], m[names.index(c)]) in links_
                   for c, t in need) for m in itertools.permutations(range(5), len(names)))
    m = IBM5QubitMapper() if conn is None else IBM5QubitMapper(conn)
    engines = [m] + ([SwapAndCNOTFlipper(links_)] if case["flip"] else [])

    def linked(a, b):
        return (a, b) in links_ or (not case["flip"] and (b, a) in links_)
    many = False
    if case["extra"]:
        k = 6 - len(names)
        body = case["body"] + [["a", ["x%d" % i for i in range(k)]]]
        case = dict(case, body=body)
        many = True
    try:
        seen = mapping.run(case, engines, m, set(range(5)), linked, ev)
    except RuntimeError as e:
        ev.label("refused")
        if many or not fits:
            ev.mark(not fits)
            return
        raise Violation("refused although a placement exists: %s" % e) from None
    if many:
        raise Violation("six qubits were accepted")
    if not fits:
        raise Violation("accepted although no placement exists")
    ev.label("direction fixed", case["flip"])
    ev.label("released early", any(x[0] == "md" for x in case["body"][:-1]))
    ev.mark(seen["two"] >= 2)


# ------------------------------------------------------------------ manual mapping
@st.composite
def manual_cases(draw):
    n = draw(st.integers(1, 5))
    if draw(st.booleans()):
        p = draw(mapping.dense(n, (3, 20)))
    else:
        p = draw(prog.programs(prog.Opts(max_q=n, stmts=(1, 12), ctl_max=2, rich=["mat", "te", "ucr", "qft", "add"])))
    # logical ids are handed out in order, helpers included: place generously
    p["places"] = list(draw(st.permutations(range(40))))
    p["form"] = draw(st.sampled_from(["list", "dict", "affine", "identity"]))
    return p


def run_manual(case, ev):
    from projectq.cengines import ManualMapper
    places = case["places"]
    table = dict(enumerate(places))
    form = case["form"]
    m = {"list": lambda: ManualMapper(lambda i: places[i]), "dict": lambda: ManualMapper(lambda i: table[i]),
         "affine": lambda: ManualMapper(lambda i: 2 * i + 1), "identity": lambda: ManualMapper()}[form]()
    want = {"list": table.get, "dict": table.get, "affine": lambda i: 2 * i + 1, "identity": lambda i: i}[form]
    sites = set(range(100))
    allocs = sum(len(x[1]) for x in case["body"] if x[0] == "a") + str(case["body"]).count("'anc'") * 4 \
        + str(case["body"]).count("'cua'") * 4
    if form in ("list", "dict") and allocs > 38:
        raise Skip("more qubits than places")
    seen = mapping.run(case, [m], m, sites, lambda a, b: True, ev, wide=True)
    for lid, site in m.current_mapping.items():
        if lid >= 0 and site != want(lid):
            raise Violation("qubit %d is announced at %s, the given mapping says %s" % (lid, site, want(lid)))
    ev.mark(seen["two"] >= 1)


# ------------------------------------------------------------------ bounded mapping
@st.composite
def bounded_cases(draw):
    n = draw(st.integers(1, 6))
    p = draw(mapping.dense(n, (3, 25), kinds=mapping.KINDS + ["f", "f", "a", "a"]))
    p["max"] = n + draw(st.sampled_from([0, 0, 1, 3, 8]))
    return p


def run_bounded(case, ev):
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    m = BoundedQubitMapper(case["max"])
    try:
        seen = mapping.run(case, [m], m, set(range(case["max"])), lambda a, b: True, ev)
    except RuntimeError as e:
        # sites are only recycled at a flush (no reset within a circuit)
        used, live, over = 0, 0, False
        for x in case["body"]:
            if x[0] == "a":
                used += len(x[1])
                live += len(x[1])
            elif x[0] == "md":
                live -= 1
            elif x[0] == "f":
                used = live
            over |= used > case["max"]
        if not over:
            raise Violation("refused although sites are free: %s" % e) from None
        ev.label("refused")
        return
    ev.mark(seen["two"] >= 2)


# ------------------------------------------------------------------ direction fix behind a mapper
@st.composite
def flip_cases(draw):
    how = draw(st.sampled_from(["linear", "ring", "grid"]))
    if how == "grid":
        rows, cols = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (1, 4)]))
        n = rows * cols
        base = [(r * cols + c, r * cols + c + 1) for r in range(rows) for c in range(cols - 1)]
        base += [(r * cols + c, (r + 1) * cols + c) for r in range(rows - 1) for c in range(cols)]
    else:
        rows = cols = 0
        n = draw(st.integers(2, 6))
        base = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if how == "ring" and n > 2 else [])
    p = draw(mapping.dense(n, (4, 24), most=6, kinds=["cx"] * 6 + ["cx0", "swap", "h", "t", "ry", "m", "md", "a", "f"]))
    p.update(how=how, rows=rows, cols=cols, n=n, conn=draw(links(n, base)), storage=draw(st.sampled_from([1, 4, 1000])))
    return p


def run_flip(case, ev):
    from projectq.cengines import GridMapper, LinearMapper, SwapAndCNOTFlipper
    conn = {tuple(x) for x in case["conn"]}
    if case["how"] == "grid":
        m = GridMapper(case["rows"], case["cols"], storage=case["storage"])
    else:
        m = LinearMapper(case["n"], case["how"] == "ring", case["storage"])
    seen = mapping.run(case, [m, SwapAndCNOTFlipper(conn)], m, set(range(case["n"])), lambda a, b: (a, b) in conn, ev)
    if seen["swap"]:
        raise Violation("a Swap gate passed the direction fixer")
    ev.mark(seen["two"] >= 2)


# ------------------------------------------------------------------ direction fix alone
@st.composite
def alone_cases(draw):
    n = draw(st.integers(2, 5))
    p = draw(mapping.dense(n, (2, 16), n, kinds=["cx"] * 5 + ["cx0", "swap", "h", "t", "m", "f"]))
    conn = draw(links(n))
    if draw(st.integers(0, 2)):
        ok = {frozenset(x) for x in conn}
        p["body"] = [x for x in p["body"] if x[0] != "g" or len(x[3]) + len(x[4]) < 2 or
                     frozenset(int(q[1:]) for q in x[3] + [c for c, _ in x[4]]) in ok]
    p.update(n=n, conn=conn)
    return p


def run_alone(case, ev):
    from projectq.cengines import SwapAndCNOTFlipper
    conn = {tuple(x) for x in case["conn"]}
    ok = {frozenset(x) for x in conn}
    bad = [x for x in case["body"] if x[0] == "g" and len(x[3]) + len(x[4]) == 2
           and frozenset(int(q[1:]) for q in x[3] + [c for c, _ in x[4]]) not in ok]
    try:
        seen = mapping.run(case, [SwapAndCNOTFlipper(conn)], None, set(range(case["n"])),
                           lambda a, b: (a, b) in conn, ev)
    except RuntimeError as e:
        if not bad:
            raise Violation("refused although every gate lies on a connection: %s" % e) from None
        ev.label("refused")
        ev.mark()
        return
    if bad:
        raise Violation("%s lies on no connection and was accepted" % bad[0])
    if seen["swap"]:
        raise Violation("a Swap gate passed the direction fixer")
    ev.mark(seen["two"] >= 1)


TESTS = [
    Test("five-qubits", ibm_cases, run_ibm, 3000,
         rule="CNOT circuits on named and random directed five-qubit layouts, with and without the direction fixer: "
              "accepted exactly if some placement exists; non-trivial = two CNOTs mapped, or no placement exists"),
    Test("manual", manual_cases, run_manual, 2000,
         rule="programs with any gates under manual mappings given as list, dictionary or formula; non-trivial = a "
              "two-qubit gate"),
    Test("bounded", bounded_cases, run_bounded, 3000,
         rule="programs with turnover and flushes anywhere through the bounded mapper; non-trivial = 2+ two-qubit gates"),
    Test("directions", flip_cases, run_flip, 3000,
         rule="programs mapped to chains, rings and grids with randomly directed links, then direction-fixed; "
              "non-trivial = 2+ two-qubit gates"),
    Test("directions-alone", alone_cases, run_alone, 2400,
         rule="CNOT/Swap programs on random directed layouts through the direction fixer alone, refused exactly if a "
              "gate lies on no connection; non-trivial = a two-qubit gate or a refusal"),
]
