"""P15: qubit-operator algebra is the algebra of Pauli sums."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import ref
from vf.core import Skip, Test, Violation

ASSUMPTIONS = ["dense matrices on up to 4 qubits (bit masks for longer terms), compared to 1e-9 relative to the size of the coefficients",
               "terms name each qubit at most once (a library test itself builds 'X0 Y0', so repetitions are not rejected)"]
N = 4
NUM = st.one_of(st.sampled_from([0, 1, -1, 2, 0.5, -0.25, 1e-13, 1e-9, 1e6]), st.floats(-4, 4).map(lambda x: round(x, 5)))
COEFF = st.one_of(NUM, st.tuples(NUM, NUM).map(list))


def num(c):
    return complex(*c) if isinstance(c, list) else c


@st.composite
def term(draw):
    idx = draw(st.permutations(range(N)))[:draw(st.integers(0, N))]
    return [[i, draw(st.sampled_from("XYZ"))] for i in idx]


@st.composite
def make(draw):
    """A term in one of the accepted forms."""
    return [draw(st.sampled_from(["tuple", "tuple", "text", "text2", "none"])), draw(term()), draw(COEFF)]


@st.composite
def cases(draw):
    ops = [["new", draw(make())] for _ in range(draw(st.integers(1, 3)))]
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(["new", "+", "+", "-", "*", "*", "s*", "*s", "/s", "neg", "+=", "-=", "*=", "*=s", "/=s",
                                  "compress", "isclose", "copy"]))
        i, j = draw(st.integers(0, 9)), draw(st.integers(0, 9))
        if k == "new":
            ops.append([k, draw(make())])
        elif k in ("s*", "*s", "/s", "*=s", "/=s"):
            ops.append([k, i, draw(COEFF)])
        elif k == "compress":
            ops.append([k, i, draw(st.sampled_from([1e-12, 1e-9, 0.3, 0.0, 2.0]))])
        elif k == "isclose":
            ops.append([k, i, j, draw(st.sampled_from([1e-12, 1e-6, 0.1])), draw(st.sampled_from([0.0, 1e-12, 1e-6, 0.1])),
                        draw(st.sampled_from([0, 0, 1e-14, 1e-7, 1e-3, 0.05]))])
        else:
            ops.append([k, i, j])
    return {"ops": ops}


def matrix(op):
    """Denotation, plus the form every operator keeps."""
    for t, c in op.terms.items():
        if not isinstance(t, tuple) or [i for i, _ in t] != sorted({i for i, _ in t}) or any(p not in ("X", "Y", "Z") for _, p in t):
            raise Violation("malformed term %r" % (t,))
        if not isinstance(c, (int, float, complex)):
            raise Violation("coefficient %r of term %r is no number" % (c, t))
    return ref.pauli_sum([(t, complex(c)) for t, c in op.terms.items()], N)


def create(form, t, c):
    from projectq.ops import QubitOperator
    if form == "none":
        return QubitOperator(), np.zeros((1 << N, 1 << N), dtype=complex)
    m = ref.pauli_sum([(tuple((i, p) for i, p in t), num(c))], N)
    if form == "tuple":
        return QubitOperator(tuple((i, p) for i, p in t), num(c)), m
    sep = " " if form == "text" else "  "
    text = sep.join("%s%d" % (p, i) for i, p in t)
    return QubitOperator(text if form == "text" else " " + text + "\t", num(c)), m


def run(case, ev):
    pool, mats = [], []
    products = 0

    def snap():
        return [dict(p.terms) for p in pool]
    for x in case["ops"]:
        k = x[0]
        n = len(pool)
        before = snap()
        target = None
        scale = 1 + max([float(np.max(np.abs(m))) for m in mats] or [0])
        if k == "new":
            a, m = create(*x[1])
            pool.append(a)
            mats.append(m)
        elif k in "+-*" or k == "neg" or k == "copy":
            i, j = x[1] % n, x[2] % n
            a, b, ma, mb = pool[i], pool[j], mats[i], mats[j]
            out, m = {"+": lambda: (a + b, ma + mb), "-": lambda: (a - b, ma - mb), "*": lambda: (a * b, ma @ mb),
                      "neg": lambda: (-a, -ma), "copy": lambda: (copy.deepcopy(a), ma)}[k]()
            products += k == "*" and np.any(m)
            pool.append(out)
            mats.append(m)
            if any(out is p for p in pool[:-1]) or any(out.terms is p.terms for p in pool[:-1]):
                raise Violation("%s returned one of its operands" % x)
        elif k in ("s*", "*s", "/s"):
            i, c = x[1] % n, num(x[2])
            if k == "/s" and abs(c) < 1e-6:
                continue
            out = {"s*": lambda: c * pool[i], "*s": lambda: pool[i] * c, "/s": lambda: pool[i] / c}[k]()
            m = mats[i] / c if k == "/s" else mats[i] * c
            pool.append(out)
            mats.append(m)
        elif k in ("+=", "-=", "*="):
            i, j = x[1] % n, x[2] % n
            a, b, ma, mb = pool[i], pool[j], mats[i], mats[j]
            keep = a
            if k == "+=":
                a += b
            elif k == "-=":
                a -= b
            else:
                a *= b
                products += 1
            if a is not keep:
                raise Violation("%s did not update in place" % x)
            mats[i] = ma + mb if k == "+=" else ma - mb if k == "-=" else ma @ mb
            target = i
            ev.label("self-update", i == j)
        elif k in ("*=s", "/=s"):
            i, c = x[1] % n, num(x[2])
            if k == "/=s" and abs(c) < 1e-6:
                continue
            a = pool[i]
            if k == "*=s":
                a *= c
            else:
                a /= c
            mats[i] = mats[i] * c if k == "*=s" else mats[i] / c
            target = i
        elif k == "compress":
            i = x[1] % n
            terms = dict(pool[i].terms)
            tol = x[2]
            pool[i].compress(tol) if tol != 1e-12 else pool[i].compress()
            got = pool[i].terms
            for t, c in terms.items():
                c = complex(c)
                want = complex(c.real, 0.0 if abs(c.imag) <= tol else c.imag)
                if abs(abs(want) - tol) < 1e-9 * tol:
                    continue
                if (abs(want) > tol) != (t in got) or (t in got and got[t] != want):
                    raise Violation("compress(%g): coefficient %s of %s became %s" % (tol, c, t, got.get(t)))
                if t in got and abs(c.imag) <= tol and isinstance(got[t], complex):
                    raise Violation("compress(%g) left an imaginary part on %s of %s" % (tol, got[t], t))
            if set(got) - set(terms):
                raise Violation("compress invented terms")
            mats[i] = matrix(pool[i])
            target = i
        elif k == "isclose":
            i, j = x[1] % n, x[2] % n
            a, b = pool[i], pool[j]
            rel, tol = x[3], x[4]
            if x[5]:
                b = copy.deepcopy(a)
                b *= 1 + x[5]
            want = True
            for t in set(a.terms) | set(b.terms):
                p, q = complex(a.terms.get(t, 0)), complex(b.terms.get(t, 0))
                bound = max(rel * max(abs(p), abs(q)), tol) if t in a.terms and t in b.terms else tol
                if bound and abs(abs(p - q) - bound) < 1e-6 * bound:
                    want = None
                    break
                if not abs(p - q) <= bound:
                    want = False
            if want is not None:
                if bool(a.isclose(b, rel_tol=rel, abs_tol=tol)) != want or bool(b.isclose(a, rel_tol=rel, abs_tol=tol)) != want:
                    raise Violation("isclose(%s, %s, %g, %g) should be %s" % (a, b, rel, tol, want))
                if rel == 1e-12 and tol == 1e-12 and bool(a.isclose(b)) != want:
                    raise Violation("isclose with default tolerances differs")
                ev.label("close" if want else "not close")
        big = 1 + max([float(np.max(np.abs(m))) for m in mats] or [0])
        if big > 1e12:
            raise Skip("coefficients too large")
        for i, (p, m) in enumerate(zip(pool, mats)):
            if i < len(before) and i != target and p.terms != before[i]:
                raise Violation("%s changed operator %d from %s to %s" % (x, i, before[i], p.terms))
            d = float(np.max(np.abs(matrix(p) - m)))
            if not d < 1e-9 * max(big, scale ** 2):
                raise Violation("%s: operator %d is off by %.3g\n%s" % (x, i, d, p))
            mats[i] = matrix(p) if i == target else m
    ev.mark(products >= 1)


# ------------------------------------------------------------------ parsing
BAD_TEXT = ["X", "x0", "A0", "X-1", "X1.5", "X0 Y", "0X", "X0,Y1", "X0Y1", "I0", "X0 Z-2", "XY0", "X0 q1", "+", "Z 0"]
BAD_TUPLE = [[[0, "A"]], [[-1, "X"]], [[0.5, "X"]], ["X0"], [[0, "X", 1]], [[0, "XY"]], [[0, ""]], [[0, "YZ"]], [[0, "XYZ"]],
             [[0, "x"]], [["0", "X"]], [[0, 1]], [[None, "X"]], [[0, None]], [[0, "I"]], [0, "X"]]
BAD_OTHER = [5, 1.5, "list", "dict", "set", "bytes"]


@st.composite
def parse_cases(draw):
    how = draw(st.sampled_from(["good", "text", "tuple", "other", "coefficient", "scalar"]))
    good = draw(term())
    at = draw(st.integers(0, len(good)))
    return {"how": how, "term": good, "at": at, "c": draw(COEFF),
            "bad": draw({"good": st.just(0), "text": st.sampled_from(BAD_TEXT), "tuple": st.sampled_from(BAD_TUPLE),
                         "other": st.sampled_from(BAD_OTHER), "coefficient": st.sampled_from(["a", None, "1"]),
                         "scalar": st.sampled_from(["+", "-", "*", "/", "r*", "+=", "-=", "*=", "/="])}[how])}


def run_parse(case, ev):
    from projectq.ops import QubitOperator
    t, c, bad, how = case["term"], num(case["c"]), case["bad"], case["how"]
    tup = tuple((i, p) for i, p in t)
    if how == "good":
        m = ref.pauli_sum([(tup, c)], N)
        words = ["%s%d" % (p, i) for i, p in t]
        for form in (tup, tuple(reversed(tup)), " ".join(words), "\n".join(reversed(words))):
            got = matrix(QubitOperator(form, c))
            if np.max(np.abs(got - m)) > 1e-9 * (1 + abs(c)):
                raise Violation("QubitOperator(%r, %r) denotes something else" % (form, c))
            again = QubitOperator(form)
            if set(again.terms.values()) != {1.0}:
                raise Violation("default coefficient is %s" % again)
        ev.mark(len(t) >= 2)
        return
    start = QubitOperator(tup, c)
    before = dict(start.terms)
    if how == "text":
        words = ["%s%d" % (p, i + 9) for i, p in t]
        words.insert(case["at"], bad)
        arg = " ".join(words)
        call = lambda: QubitOperator(arg, c)                      # noqa: E731
    elif how == "tuple":
        items = [(i + 9, p) for i, p in t]
        items[case["at"]:case["at"]] = [tuple(b) if isinstance(b, list) else b for b in bad]
        arg = tuple(items)
        call = lambda: QubitOperator(arg, c)                      # noqa: E731
    elif how == "other":
        arg = {"list": [(0, "X")], "dict": {0: "X"}, "set": {(0, "X")}, "bytes": b"X0"}.get(bad, bad)
        call = lambda: QubitOperator(arg, c)                      # noqa: E731
    elif how == "coefficient":
        arg = bad
        call = lambda: QubitOperator(tup, bad)                    # noqa: E731
    else:
        arg = bad

        def call():
            a = start
            if bad == "+":
                return a + 1
            if bad == "-":
                return a - "x"
            if bad == "*":
                return a * "x"
            if bad == "/":
                return a / a
            if bad == "r*":
                return "x" * a
            if bad == "+=":
                a += 2.0
            elif bad == "-=":
                a -= 2.0
            elif bad == "*=":
                a *= "x"
            elif bad == "/=":
                a /= a
            return a
    try:
        got = call()
    except Exception:
        ev.mark()
    else:
        raise Violation("accepted: %s %r gives %r" % (how, arg, got.terms if isinstance(got, QubitOperator) else got))
    if start.terms != before:
        raise Violation("rejected %s %r changed the operator" % (how, arg))


# ------------------------------------------------------------------ sums of long terms
@st.composite
def large_cases(draw):
    return {"seed": draw(st.integers(0, 10 ** 9)), "most": draw(st.sampled_from([12, 40, 1500])), "terms": draw(st.integers(1, 14)),
            "factors": draw(st.integers(1, 40)), "steps": draw(st.integers(1, 12)), "few": draw(st.booleans())}


def times(a, b):
    """Product of sums {(x mask, z mask): c}; the term (x, z) stands for i^|x&z| X^x Z^z."""
    out = {}
    for (x1, z1), c1 in a.items():
        for (x2, z2), c2 in b.items():
            x, z = x1 ^ x2, z1 ^ z2
            # X^x1 Z^z1 X^x2 Z^z2 = (-1)^|z1 & x2| X^x Z^z
            k = (x1 & z1).bit_count() + (x2 & z2).bit_count() - (x & z).bit_count() + 2 * (z1 & x2).bit_count()
            out[x, z] = out.get((x, z), 0) + c1 * c2 * (1, 1j, -1, -1j)[k % 4]
    return out


def masks(t):
    x = sum(1 << i for i, p in t if p in "XY")
    return x, sum(1 << i for i, p in t if p in "ZY")


def run_large(case, ev):
    import random
    from projectq.ops import QubitOperator
    r = random.Random(case["seed"])
    base = [[(i, r.choice("XYZ")) for i in sorted(r.sample(range(case["most"]), min(case["most"], r.randint(1, case["factors"]))))]
            for _ in range(4)]

    def factor():
        t = r.choice(base) if case["few"] else [(i, r.choice("XYZ")) for i in r.sample(
            range(case["most"]), min(case["most"], r.randint(0, case["factors"])))]
        t = [x for x in t if r.random() < 0.8]
        r.shuffle(t)
        return t

    def some():
        op, want = QubitOperator(), {}
        for _ in range(r.randint(1, case["terms"])):
            t, c = factor(), complex(r.choice([1, -1, 0.5, 2]), r.choice([0, 0, 1, -0.25]))
            arg = tuple(t) if r.random() < 0.5 else " ".join("%s%d" % (p, i) for i, p in t)
            if r.random() < 0.5:
                op += QubitOperator(arg, c)
            else:
                op = QubitOperator(arg, c) + op
            k = masks(t)
            want[k] = want.get(k, 0) + c
        return op, want
    a, wa = some()
    for _ in range(case["steps"]):
        b, wb = some()
        k = r.choice("+-**sn")
        if k == "*" and len(wa) * len(wb) > 400:
            k = "-"
        if k in "+-":
            if r.random() < 0.5:
                a = a + b if k == "+" else a - b
            elif k == "+":
                a += b
            else:
                a -= b
            for t, c in wb.items():
                wa[t] = wa.get(t, 0) + (c if k == "+" else -c)
        elif k == "*":
            side = r.randrange(3)
            if side == 0:
                a *= b
            else:
                a = a * b if side == 1 else b * a
            wa = times(wb, wa) if side == 2 else times(wa, wb)
        elif k == "s":
            c = r.choice([2, -0.5, 1j])
            a = r.choice([lambda: a * c, lambda: c * a, lambda: a / (1 / c)])()
            wa = {t: c * x for t, x in wa.items()}
        else:
            a, wa = -a, {t: -x for t, x in wa.items()}
        got = {}
        for t, c in a.terms.items():
            if list(t) != sorted(set(t)) or len({i for i, _ in t}) != len(t):
                raise Violation("malformed term %r" % (t,))
            got[masks(t)] = c
        if len(got) != len(a.terms):
            raise Violation("one term is stored twice")
        tol = 1e-10 * (1 + max(map(abs, wa.values()), default=0))
        for t in set(got) | set(wa):
            if not abs(got.get(t, 0) - wa.get(t, 0)) <= tol:
                raise Violation("after %s the term X%s Z%s has the coefficient %s, should be %s" % (
                    k, bin(t[0]), bin(t[1]), got.get(t), wa.get(t)))
    ev.mark(len(wa) > 3)


RULE = ("random sequences of in-place and out-of-place operations on a pool of operators, every operator compared with its "
        "dense matrix after each step; non-trivial = at least one operator product")
TESTS = [
    Test("algebra", cases, run, 7000, rule=RULE),
    Test("parsing", parse_cases, run_parse, 3000, rule="valid and invalid terms, coefficients and operands; "
         "non-trivial = at least two factors or a rejection"),
    Test("large", large_cases, run_large, 1200,
         rule="sums of up to 400 terms with up to 40 factors on up to 1500 qubits, added, subtracted, multiplied and scaled, vs an "
              "algebra of bit masks; non-trivial = more than three terms at the end"),
]
