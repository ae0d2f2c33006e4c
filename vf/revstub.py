"""A stand-in for the RevKit Python module (not installed here), as far as projectq.libs.revkit uses it.

Conventions of RevKit: a hexadecimal table of d digits is a function of log2(4 d) variables, a binary one of b digits a
function of log2(b) variables; variable k is bit k of the row number; line k of a circuit is qs[k]; each load or synthesis
command replaces the current object of its store.
"""
import types


class RevError(Exception):
    pass


def make(rng, style):
    m = types.ModuleType("revkit")
    m.log = []
    m.cur = {"perm": None, "tt": None, "circ": None}

    def perm(permutation):
        m.log.append(("perm", permutation))
        p = [int(x) for x in permutation.split(" ")]
        if sorted(p) != list(range(len(p))) or len(p) & (len(p) - 1):
            raise RevError("not a permutation: %r" % permutation)
        m.cur["perm"] = p

    def tt(table):
        m.log.append(("tt", table))
        if table.startswith("0x"):
            bits, val = 4 * (len(table) - 2), int(table[2:], 16)
        else:
            bits, val = len(table), int(table, 2)
        if bits & (bits - 1) or not bits:
            raise RevError("table %r is not one of 2^n rows" % table)
        m.cur["tt"] = (bits.bit_length() - 1, val)

    # a gate: (name, [(control line, value)], target line)
    def tbs():
        m.log.append(("tbs",))
        m.cur["circ"] = _tbs(m.cur["perm"])

    def dbs():
        m.log.append(("dbs",))
        m.cur["circ"] = _swaps(m.cur["perm"], rng)

    def esopbs():
        m.log.append(("esopbs",))
        n, f = m.cur["tt"]
        m.cur["circ"] = (n + 1, [("X", cube, n) for cube in _esop(n, f, rng)])

    def esopps():
        m.log.append(("esopps",))
        n, f = m.cur["tt"]
        out = []
        for cube in _esop(n, f, rng, const=bool(f & 1)):
            out += _phase(cube, rng)
        m.cur["circ"] = (n, out)

    def ps(mct=False, silent=False):
        if not mct:
            raise RevError("no statistics without a store")
        return {"qubits": m.cur["circ"][0], "gates": len(m.cur["circ"][1])}

    def to_projectq(mct=False):
        m.log.append(("to_projectq",))
        if not mct:
            raise RevError("no store given")
        return _code(m.cur["circ"], rng, style)
    for f in (perm, tt, tbs, dbs, esopbs, esopps, ps, to_projectq):
        setattr(m, f.__name__, f)
    return m


def lines(p):
    return (len(p) - 1).bit_length()


def _tbs(p):
    """Transformation-based synthesis, output side."""
    n, p, gates = lines(p), list(p), []

    def app(cmask, t):
        gates.append(("X", [(k, 1) for k in range(n) if cmask >> k & 1], t))
        for i, y in enumerate(p):
            if y & cmask == cmask:
                p[i] = y ^ 1 << t
    for x in range(len(p)):
        y = p[x]
        for t in range(n):  # set the missing bits
            if x >> t & 1 and not y >> t & 1:
                app(y, t)
                y = p[x]
        for t in range(n):
            if y >> t & 1 and not x >> t & 1:
                app(y & ~(1 << t), t)
                y = p[x]
    assert p == list(range(len(p)))
    return n, gates[::-1]


def _swaps(p, rng):
    """One exchange of two basis states after another, each along a random path of single bit flips."""
    n, p, gates = lines(p), list(p), []

    def flip(a, t):  # exchange a and a ^ (1 << t)
        return ("X", [(k, a >> k & 1) for k in range(n) if k != t], t)
    for x in range(len(p)):
        y = p[x]
        if x == y:
            continue
        bits = [k for k in range(n) if (x ^ y) >> k & 1]
        rng.shuffle(bits)
        path, a = [], x
        for t in bits[:-1]:
            path.append(flip(a, t))
            a ^= 1 << t
        seq = path + [flip(a, bits[-1])] + path[::-1]
        gates += seq
        i = p.index(x)
        p[x], p[i] = p[i], p[x]
    return n, gates[::-1]


def _esop(n, f, rng, const=True):
    """Cubes whose exclusive or is f: minterms, or a fixed-polarity expansion."""
    rows = [f >> i & 1 for i in range(1 << n)]
    if rng.random() < 0.5:
        return [[(k, i >> k & 1) for k in range(n)] for i in range(1 << n) if rows[i]]
    pol = rng.choice([i for i in range(1 << n) if const or not rows[i]])
    r = [rows[i ^ pol] for i in range(1 << n)]  # literal k is x_k ^ pol_k
    for k in range(n):
        for i in range(1 << n):
            if i >> k & 1:
                r[i] ^= r[i ^ 1 << k]
    return [[(k, 1 - (pol >> k & 1)) for k in range(n) if i >> k & 1] for i in range(1 << n) if r[i]]


def _phase(cube, rng):
    """Sign of a cube; a constant is only a global phase and left out."""
    if not cube:
        return []
    cube = list(cube)
    rng.shuffle(cube)
    (t, v), rest = cube[-1], cube[:-1]
    out = [("Z", rest, t)]
    return out if v else [("X", [], t)] + out + [("X", [], t)]


def _code(circ, rng, style):
    n, gates = circ
    out = []
    for name, ctl, t in gates:
        ctl = list(ctl)
        rng.shuffle(ctl)
        neg = [k for k, v in ctl if not v]
        for k in neg:
            out.append("X | qs[%d]" % k)
        if not ctl:
            out.append("%s | qs[%d]" % (name, t))
        elif style == "all":
            out.append("C(All(%s), %d) | ([%s], [qs[%d]])" % (name, len(ctl), ", ".join("qs[%d]" % k for k, _ in ctl), t))
        elif style == "nested":
            g = name
            for _ in ctl:
                g = "C(%s)" % g
            out.append("%s | (%s, qs[%d])" % (g, ", ".join("qs[%d]" % k for k, _ in ctl), t))
        else:
            out.append("C(%s, %d) | ([%s], qs[%d])" % (name, len(ctl), ", ".join("qs[%d]" % k for k, _ in ctl), t))
        for k in neg:
            out.append("X | qs[%d]" % k)
    return "\n".join(out) + "\n"
