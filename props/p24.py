"""P24: results of a service reach the right qubits."""
import itertools
import random
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from props import p23
from vf import cloud, prog, ref
from vf.core import Test, Violation, in_projectq

ASSUMPTIONS = ["services are stand-ins for the HTTP session, boto3 and the Azure target",
               "probabilities of unmeasured qubits are checked for the services that measure every qubit (AQT with a mapper, Braket)",
               "Quantinuum: character i of a returned string belongs to classical bit i",
               "frequencies: 6.5 standard deviations"]

GATE = {"ibm": ["H"], "aqt": ["Rx", 0.3], "ionq": ["H"], "aws": ["H"], "azure-ionq": ["H"], "azure-quantinuum": ["H"]}


@st.composite
def histogram(draw, n, ints):
    """[[bits, count]]: entries in any order, zero counts included."""
    k = draw(st.integers(1, min(6, 1 << n)))
    keys = draw(st.lists(st.integers(0, (1 << n) - 1), min_size=k, max_size=k, unique=True))
    out = [[x, draw(st.sampled_from([1, 1, 2, 3, 5, 17, 40, 0]))] for x in keys]
    if not any(c for _, c in out):
        out[0][1] = 1
    return out


@st.composite
def jobs(draw, svc, live, n, mapped):
    """One job: measured qubits in order, histogram over the declared qubits, queries."""
    perm = list(draw(st.permutations(live)))
    m = perm[:draw(st.sampled_from([len(live), len(live), draw(st.integers(1, len(live)))]))]
    h = draw(histogram(n, True))
    pool = live if svc.startswith("aws") or svc == "aqt" and mapped else m
    qs = []
    for _ in range(draw(st.integers(1, 3))):
        p = list(draw(st.permutations(pool)))
        qs.append(p[:draw(st.integers(1, len(p)))])
    g = draw(st.sampled_from(live))
    return {"g": g, "m": m, "h": h, "q": qs, "u": draw(st.sampled_from([None, None, 0.0, 1 - 2.0 ** -53, 0.5])),
            "rel": draw(st.sampled_from([0, 0, 0, 1, 2]))}


@st.composite
def cases(draw, most=5):
    svc = draw(st.sampled_from(p23.ALL))
    width = draw(st.integers(1 if most == 5 else 8, most))
    if most > 5 and svc in LIMIT:
        width = draw(st.integers(LIMIT[svc] - 3, LIMIT[svc]))
    gap = 0 if svc.startswith("aws") else draw(st.sampled_from([0, 0, 1, 2]))
    places = list(draw(st.permutations(range(width + gap))))[:width]
    mapped = not svc.startswith(("aws", "aqt")) or draw(st.booleans())
    if not mapped:
        places = list(range(width))
    live = list(range(width))
    out = [draw(jobs(svc, live, max(places) + 1, mapped)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    return {"svc": svc, "width": width, "places": places, "mapped": mapped, "runs": draw(st.sampled_from([1, 7, 100, 200])),
            "jobs": out, "mode": draw(st.sampled_from(["send", "send", "retrieve"])), "runs2": draw(st.sampled_from([1, 50, 100])),
            "m2": list(draw(st.permutations(out[0]["m"]))),
            "seed": draw(st.integers(0, 9999))}


def apportion(h, total):
    """{key: weight} scaled to integers adding up to total."""
    w = sum(h.values())
    c = {k: int(x * total / w) for k, x in h.items()}
    for k in sorted(h, key=lambda k: h[k] * total / w - c[k], reverse=True)[:total - sum(c.values())]:
        c[k] += 1
    return c


def hist_of(h, n, total):
    return {tuple(x >> i & 1 for i in range(n)): c for x, c in apportion(dict(map(tuple, h)), total).items()}


def marginal(h, places):
    tot = sum(h.values())
    out = {}
    for bits, c in h.items():
        k = "".join(str(bits[p]) for p in places)
        out[k] = out.get(k, 0) + c / tot
    return out


def check_probs(be, got, want, what):
    for k in set(got) | set(want):
        if abs(got.get(k, 0) - want.get(k, 0)) > 1e-9:
            raise Violation("%s: get_probabilities gives %s, the histogram says %s" % (what, dict(got), want))


def session(case, svc, runs, retrieve=None):
    from projectq import MainEngine
    name, _, dev = case["svc"].partition(":")
    kw = {"device": dev} if dev else {}
    be = svc.backend(runs, retrieve=retrieve, **kw)
    mapper = [cloud.perm_mapper(case["places"])] if case["mapped"] else []
    eng = MainEngine(be, mapper, verbose=True)
    return be, eng


def stop(be, eng):
    eng.next_engine.receive = lambda cl: None
    be.receive = lambda cl: None
    eng.active_qubits.clear()


def program(case, job, eng, qs, order=None):
    from projectq.ops import Measure
    name = case["svc"].partition(":")[0]
    p23.build_gate(GATE[name]) | qs[job["g"]]
    for i in order or job["m"]:
        Measure | qs[i]


def run(case, ev):
    name = case["svc"].partition(":")[0]
    svc = cloud.SERVICES[name]()
    places, what = case["places"], case["svc"]
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    retrieve = case["mode"] == "retrieve"
    with svc.installed():
        if retrieve:
            # the job was submitted by an earlier session that did not wait for it
            be, eng = session(case, svc, case["runs2"])
            qs = [eng.allocate_qubit() for _ in places]
            svc.fail = "never"
            program(case, case["jobs"][0], eng, qs)
            try:
                eng.flush()
                raise Violation("%s: no error although the job never ends" % what)
            except Violation:
                raise
            except Exception:  # noqa: BLE001,S110
                pass
            svc.fail = None
            stop(be, eng)
        be, eng = session(case, svc, case["runs"], ARN if retrieve and name == "aws" else "job1" if retrieve else None)
        try:
            qs = [eng.allocate_qubit() for _ in places]
            live = list(range(len(places)))
            last = 0 if retrieve else len(case["jobs"]) - 1
            for n, job in enumerate(case["jobs"][:1] if retrieve else case["jobs"]):
                hist = {}

                def answer(j, job=job, hist=hist):
                    hist.update(hist_of(job["h"], j.nq, j.shots))
                    return hist
                svc.hist = answer
                try:
                    be.get_probabilities([qs[0][0]])
                    if n == 0:
                        raise Violation("%s: get_probabilities answers before any job was run" % what)
                except RuntimeError:
                    pass
                # a session that retrieves a job may name the measured qubits in another order
                program(case, job, eng, qs, case.get("m2") if retrieve else None)
                gone = set()
                if n == last and job["rel"] and len(live) > 1:
                    # qubits released between their measurement and the flush must not disturb the others
                    gone = set(job["m"][:job["rel"]])
                    for i in gone:
                        qs[i] = None
                    ev.label("measured qubits released before the flush", bool(gone))
                u = job["u"]
                p = mock.patch.object(random, "random", lambda: u) if u is not None else mock.patch.object(random, "random", random.random)
                with p:
                    try:
                        eng.flush()
                    except Violation:
                        raise
                    except Exception as e:  # noqa: BLE001
                        if in_projectq(e):
                            raise Violation("%s fails on the results %s: %r" % (what, job["h"], e)) from e
                        raise
                if svc.submitted != (1 if retrieve else n + 1):
                    raise Violation("%s submitted %d jobs" % (what, svc.submitted))
                if not hist:
                    raise Violation("%s did not fetch the results of job %d" % (what, n + 1))
                got = {i: int(qs[i]) for i in job["m"] if i not in gone}
                if not any(c > 0 and all(bits[places[i]] == v for i, v in got.items()) for bits, c in hist.items()):
                    raise Violation("%s: qubits %s received %s, no outcome of the histogram %s on locations %s has those bits" % (
                        what, job["m"], got, hist, places))
                for order in job["q"]:
                    order = [i for i in order if i not in gone]
                    if not order:
                        continue
                    want = marginal(hist, [places[i] for i in order])
                    res = be.get_probabilities([qs[i][0] for i in order])
                    check_probs(be, res, want, "%s, qubits %s on locations %s" % (what, order, places))
                    if hasattr(be, "get_probability"):
                        every = range(1 << len(order))
                        for k in every if len(every) <= 32 else [int(x, 2) for x in list(want)[:8]] + random.sample(every, 8):
                            s = format(k, "0%db" % len(order))
                            p = be.get_probability(s, [qs[i][0] for i in order])
                            if abs(p - want.get(s, 0)) > 1e-9:
                                raise Violation("%s: get_probability(%s) is %r, the histogram says %r" % (what, s, p, want.get(s, 0)))
                        try:
                            be.get_probability("0" * (len(order) + 1), [qs[i][0] for i in order])
                            raise Violation("%s: get_probability accepts a state longer than the register" % what)
                        except ValueError:
                            pass
            ev.label(what)
            ev.label("retrieved", retrieve)
            ev.label("several jobs", len(case["jobs"]) > 1 and not retrieve)
            ev.label("moved", places != sorted(places))
            ev.mark(sum(1 for _, c in case["jobs"][0]["h"] if c) > 1 and case["width"] > 1)
        finally:
            stop(be, eng)


LIMIT = {"aqt": 9}  # the most qubits of a job with two unused locations
ARN = "arn:aws:braket:us-east-1:1:quantum-task/job1"


# ------------------------------------------------------------------------------------------ frequencies

@st.composite
def draw_cases(draw):
    svc = draw(st.sampled_from(p23.ALL))
    width = draw(st.integers(1, 3))
    return {"svc": svc, "width": width, "h": draw(histogram(width, True)), "seed": draw(st.integers(0, 9999)), "places": list(draw(st.permutations(range(width))))}


def run_draw(case, ev):
    name = case["svc"].partition(":")[0]
    svc = cloud.SERVICES[name]()
    c = dict(case, mapped=True)
    n = 250
    svc.hist = lambda job: hist_of(case["h"], job.nq, 100)
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    seen = {}
    with svc.installed():
        be, eng = session(c, svc, 100)
        try:
            qs = [eng.allocate_qubit() for _ in range(case["width"])]
            job = {"g": 0, "m": list(range(case["width"]))}
            for _ in range(n):
                program(c, job, eng, qs)
                eng.flush()
                k = "".join(str(int(q)) for q in qs)
                seen[k] = seen.get(k, 0) + 1
        finally:
            stop(be, eng)
    want = marginal(hist_of(case["h"], case["width"], 100), case["places"])
    for k in set(seen) | set(want):
        p = want.get(k, 0)
        if abs(seen.get(k, 0) - n * p) > 6.5 * (n * p * (1 - p)) ** 0.5 + 1e-9 + (0.5 if 0 < p < 1 else 0):
            raise Violation("%s delivered the outcome %s %d times in %d jobs, its probability is %.4f (%s)" % (
                case["svc"], k, seen.get(k, 0), n, p, want))
    ev.label(case["svc"])
    ev.mark(len([v for v in want.values() if v]) > 1)


# ------------------------------------------------------------------------------------------ whole programs

PATHS = ["ibm", "ibm5", "aqt", "ionq", "SV1", "Aspen-8", "IonQ Device"]


@st.composite
def whole_cases(draw):
    path = draw(st.sampled_from(PATHS))
    n = draw(st.integers(1, 4))
    o = prog.Opts(max_q=n, min_q=1, stmts=(1, 8), ctl_max=1 if path in ("ibm5", "aqt") else 2, neg=path != "ibm5", measure=False, delete=False,
                  flush=False, feedback=False, anc=path == "ionq", blocks=("ctl", "dag", "cu"), depth=1,
                  gates=["H", "X", "Y", "Z", "S", "T", "Rx", "Ry", "Rz", "Ph", "R", "Swap", "SqrtX", "X", "H"], width=2 if path in ("ibm5", "aqt") else 3)
    p = draw(prog.programs(o))
    live = [n for x in p["body"] if x[0] == "a" for n in x[1]]
    m = list(draw(st.permutations(live)))
    m = m[:draw(st.sampled_from([len(m), len(m), draw(st.integers(1, len(m)))]))]
    order = list(draw(st.permutations(m)))
    return {"path": path, "body": p["body"], "bits": [], "m": m, "order": order, "seed": draw(st.integers(0, 9999))}


def exact(job, shots=None):
    n = job.nq
    st_ = job.state()
    v = np.abs(st_.vector(list(range(n)))) ** 2
    h = {}
    for x in range(1 << n):
        if v[x] > 1e-12:
            # first qubit is the least significant bit in RefState.vector
            h[tuple(x >> i & 1 for i in range(n))] = float(v[x])
    if shots is None:
        return {k: x * job.shots for k, x in h.items()}
    return {k: x for k, x in apportion(h, shots).items() if x}


def path_of(path):
    """service, backend keyword arguments, engine list"""
    if path in ("ibm", "ibm5"):
        import projectq.setups.ibm as s
        dev = "ibmq_qasm_simulator" if path == "ibm" else "ibmq_essex"
        return cloud.IBM(), dict(device=dev, use_hardware=path == "ibm5"), lambda: s.get_engine_list(token="tok", device=dev)
    if path == "aqt":
        import projectq.setups.aqt as s
        return cloud.AQT(), dict(device="aqt_simulator"), lambda: s.get_engine_list(token="tok", device="aqt_simulator")
    if path == "ionq":
        import projectq.setups.ionq as s
        return cloud.IonQ(), {}, lambda: s.get_engine_list(token="tok", device="ionq_simulator")
    import projectq.setups.awsbraket as s
    return cloud.Braket(), dict(device=path), lambda: s.get_engine_list(credentials={"AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_KEY": "b"}, device=path)


def run_whole(case, ev):
    from projectq import MainEngine
    svc, kw, engines = path_of(case["path"])
    shots = 200 if case["path"] in ("aqt", "SV1") else None
    svc.hist = lambda job: exact(job, shots)
    random.seed(case["seed"])
    p = {"body": case["body"] + [["m", case["m"]]], "bits": []}
    with svc.installed():
        be = svc.backend(shots or 100, **kw)
        eng = MainEngine(be, engines(), verbose=True)
        r = prog.Runner(eng, p)
        try:
            try:
                r.run()
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                if not svc.jobs and "no result" in str(e).lower():
                    ev.label("no job")
                    return
                if type(e).__name__ == "NotYetMeasuredError" and not svc.jobs:
                    ev.label("measure-only program not submitted")
                    return
                if case["path"] == "ibm5" and ("without using Swaps" in str(e) or "Too many qubits" in str(e)):
                    ev.label("refused by the swap-free mapper")
                    return
                if in_projectq(e):
                    raise Violation("%s: the program does not run: %r" % (case["path"], e)) from e
                raise
            if not svc.jobs:
                ev.label("no job")
                return
            if len(svc.jobs) != 1:
                raise Violation("%s: %d jobs for one flush" % (case["path"], len(svc.jobs)))
            log = r.log
            r.log = [x for x in log if x[0] != "m"]
            s = r.reference()
            r.log = log
            r.reference()
            v = np.abs(s.vector(case["order"] + [n for n in r.env if n not in case["order"]])) ** 2
            k = len(case["order"])
            want = {}
            for x, pr in enumerate(v):
                key = "".join(str(x >> i & 1) for i in range(k))
                want[key] = want.get(key, 0) + pr
            got = be.get_probabilities([r.env[n] for n in case["order"]])
            tol = 1e-6 if shots is None else (1 << svc.jobs[0].nq) / shots
            for key in set(want) | set(got):
                if abs(want.get(key, 0) - got.get(key, 0)) > tol:
                    raise Violation("%s: qubits %s are %s with probability %.5f, the program says %.5f" % (
                        case["path"], case["order"], key, got.get(key, 0), want.get(key, 0)))
            ev.label(case["path"])
            ev.mark(len([1 for x in want.values() if x > 1e-6]) > 1)
        finally:
            stop(be, eng)
            r.env = None


TESTS = [
    Test("results", cases, run, 5000,
         rule="histograms over every placement, measured subset, order and query, up to three jobs and retrieved jobs, for eight services; "
              "non-trivial = two outcomes on two qubits"),
    Test("large", lambda: cases(14), run, 500,
         rule="the same for jobs of 6 to 14 qubits; non-trivial = the histogram has several outcomes"),
    Test("frequencies", draw_cases, run_draw, 120, chunk=5,
         rule="250 jobs with the same histogram; non-trivial = two outcomes"),
    Test("programs", whole_cases, run_whole, 1000,
         rule="random programs through the documented setup of each service, the stand-in executing the job exactly; non-trivial = random outcome"),
]
