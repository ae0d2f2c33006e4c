"""P23: the job sent to a quantum service is the program."""
import numpy as np
from hypothesis import strategies as st

from vf import cloud, gates, ref, spec
from vf.core import Test, Violation, in_projectq

ASSUMPTIONS = ["services are stand-ins for the HTTP session, boto3 and the Azure target; they read the job as the services document it",
               "a physical qubit is not given to a second qubit within one job (the services have no reset)",
               "IBM: gates after the measurement of the same qubit are a recorded finding; the text of H in get_qasm is a recorded finding"]

KINDS = {"1": ["H", "X", "Y", "Z", "S", "T", "Sdag", "Tdag", "SqrtX"], "r": ["Rx", "Ry", "Rz", "R", "Ph"], "rr": ["Rxx", "Ryy", "Rzz"],
         "2": ["Swap", "SqrtSwap"]}

DOC = {  # what the documentation of each backend promises to accept: (gate names, number of controls)
    "ibm": [({"X"}, 1), ({"H", "Rx", "Ry", "Rz"}, 0)],
    "aqt": [({"Rx", "Ry", "Rxx"}, 0)],
    "ionq": [({"X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "Rxx", "Ryy", "Rzz", "Swap"}, 0)]
    + [({"X"}, k) for k in range(1, 8)],
    "aws:SV1": [({"X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "R", "Swap"}, 0), ({"X", "Y", "Z", "R", "Swap"}, 1), ({"X"}, 2)],
    "aws:Aspen-8": [({"X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "Rx", "Ry", "Rz", "R", "Swap"}, 0), ({"X", "Z", "R", "Swap"}, 1), ({"X"}, 2)],
    "aws:IonQ Device": [({"X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "SqrtX", "Rx", "Ry", "Rz", "Swap"}, 0), ({"X"}, 1)],
    "azure-quantinuum": [({"X", "Y", "Z", "H", "S", "T", "Sdag", "Tdag", "Rx", "Ry", "Rz", "Rxx", "Ryy", "Rzz"}, 0), ({"X", "Z"}, 1), ({"X", "Z"}, 2)],
}
DOC["azure-ionq"] = DOC["ionq"]
ALL = ["ibm", "aqt", "ionq", "aws:SV1", "aws:Aspen-8", "aws:IonQ Device", "azure-ionq", "azure-quantinuum"]


@st.composite
def angle(draw):
    return draw(st.one_of(st.sampled_from([0.5, 1.0, -1.0, 3.141592653589793, 1.5707963267948966, 0.1, 7.0, 12.0, 1e-3, 1e-5]),
                          st.floats(-13, 13, allow_nan=False, width=32)))


@st.composite
def good_gate(draw, svc, live):
    """[spec, targets, controls]: usually something the service documents."""
    perm = list(draw(st.permutations(live)))
    if draw(st.integers(0, 7)) < 6:
        opts = [(sorted(names), k) for names, k in DOC[svc] if k < len(perm)]
        names, k = draw(st.sampled_from(opts))
        name = draw(st.sampled_from(names))
    else:
        name, k = draw(st.sampled_from(sum(KINDS.values(), []) + ["invSqrtX", "Mat"])), draw(st.integers(0, 2))
    w = 2 if name in KINDS["rr"] + KINDS["2"] else 1
    if w > len(perm):
        name, w = "Rx", 1
    k = min(k, len(perm) - w)
    if name in KINDS["r"] + KINDS["rr"]:
        sp = [name, draw(angle())]
    elif name == "Mat":
        sp = ["Mat", "full", draw(st.integers(0, 5)), w]
    else:
        sp = [name]
    vals = [0 if draw(st.integers(0, 9)) == 0 else 1 for _ in range(k)]
    return [sp, perm[:w], perm[w:w + k], vals]


def cases(services=None, fails=True, wide=False):
    @st.composite
    def make(draw):
        svc = draw(st.sampled_from(services or ALL))
        width = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5]))
        if svc in ("ionq", "azure-ionq") and draw(st.integers(0, 6)) == 0:
            width = 8
        if wide:
            width = draw(st.integers(8, 9 if svc == "aqt" else 12))
        space = list(range(width + draw(st.sampled_from([0, 0, 0, 1, 2]))))
        places = list(draw(st.permutations(space)))
        mapped = not svc.startswith(("aws", "aqt")) or draw(st.booleans())
        if svc.startswith("aws") and mapped:
            # Braket counts the qubits of a job: they are the first ones
            places = list(draw(st.permutations(range(width))))
        n, ops, live, measured, rel = 0, [], [], set(), False
        pre = draw(st.integers(1, width))
        if svc.startswith("aws"):
            pre = width
        for _ in range(pre):
            ops.append(["alloc"])
            live.append(n)
            n += 1
        for _ in range(draw(st.integers(10, 45) if wide else st.integers(1, 14))):
            k = draw(st.sampled_from(["g"] * 9 + ["m", "mm", "alloc", "dealloc", "flush", "b"] + (["fail"] if fails else [])))
            if svc.startswith("aws"):
                # Braket counts the qubits of a job: no job after a release
                if k in ("flush", "fail") and rel or k == "dealloc" and any(x[0] in ("flush", "fail") for x in ops):
                    k = "g"
            if k == "alloc" and n < width:
                ops.append(["alloc"])
                live.append(n)
                n += 1
            elif k == "dealloc" and len(live) > 1:
                rel = True
                i = draw(st.sampled_from(live))
                live.remove(i)
                ops.append(["dealloc", i])
            elif k == "flush":
                ops.append(["flush"])
                measured = set()
            elif k == "fail":
                ops.append(["fail", draw(st.sampled_from(["offline", "small", "failed", "never", "http"]))])
                measured = set()
            elif k == "g":
                fresh = [i for i in live if i not in measured]
                if draw(st.integers(0, 19)) == 0 and svc != "ibm":
                    fresh = live
                if fresh:
                    g = draw(good_gate(svc, fresh))
                    ops.append(["g"] + g)
            elif k in ("m", "mm"):
                perm = list(draw(st.permutations(live)))
                perm = perm[:1] if k == "m" else perm[:draw(st.integers(1, len(perm)))]
                ops.append(["m", perm])
                measured |= set(perm)
            elif k == "b":
                perm = list(draw(st.permutations(live)))
                ops.append(["b", perm[:draw(st.integers(1, len(perm)))]])
        if draw(st.integers(0, 3)):
            ops.append(["m", [i for i in draw(st.permutations(live))]])
        ops.append(["flush"])
        return {"svc": svc, "places": places if mapped else None, "runs": draw(st.sampled_from([1, 10, 100, 200])), "ops": ops}
    return make


def tap():
    from projectq.cengines import BasicEngine

    class Tap(BasicEngine):
        def __init__(self):
            super().__init__()
            self.seen = []

        def receive(self, command_list):
            from copy import deepcopy
            self.seen += [deepcopy(c) for c in command_list]
            self.send(command_list)
    return Tap()


def build_gate(sp):
    from projectq.ops import SqrtX, get_inverse
    if sp[0] == "invSqrtX":
        return get_inverse(SqrtX)
    return spec.build(sp)


class Run:
    def __init__(self, case, svc=None):
        from projectq import MainEngine
        name, _, dev = case["svc"].partition(":")
        self.svc = svc or cloud.SERVICES[name]()
        kw = {"device": dev} if dev else {}
        self.be = self.svc.backend(case["runs"], **kw)
        self.tap = tap()
        self.mapper = cloud.perm_mapper(case["places"]) if case["places"] is not None else None
        self.eng = MainEngine(self.be, ([self.mapper] if self.mapper else []) + [self.tap], verbose=True)
        self.q = []

    def live(self, i):
        return self.q[i][0]

    def close(self):
        self.eng.next_engine.receive = lambda cl: None
        self.be.receive = lambda cl: None
        self.eng.active_qubits.clear()
        self.q = None


def start(ids):
    s = ref.RefState()
    rnd = np.random.RandomState(5)
    for q in ids:
        s.alloc(q)
        s.apply(cloud.u3(*rnd.uniform(0.3, 2.8, 3)), [q])
    return s


def compare(job, cmds, case, what):
    """The job against the commands of its segment; returns the physical qubits measured."""
    from projectq.ops import Allocate, Barrier, Deallocate, Measure
    runs = case["runs"]
    meas, barriers, n_ops, unit, late = [], [], 0, [], False
    for c in cmds:
        if c.gate == Measure:
            meas.append(c.qubits[0][0].id)
        elif isinstance(c.gate, type(Barrier)):
            barriers.append(tuple(q.id for r in c.qubits for q in r))
        elif c.gate not in (Allocate, Deallocate):
            n_ops += 1
            unit.append(c)
            late |= any(q.id in meas for r in c.all_qubits for q in r)
    used = {q.id for c in unit for r in c.all_qubits for q in r}
    if job.shots != runs:
        raise Violation("%s asks for %r repetitions, not %d" % (what, job.shots, runs))
    ids = sorted(used | {q for _, t, c in job.ops for q in t + c})
    a, b = start(ids), start(ids)
    for c in unit:
        gates.apply_command(a, c)
    for mat, t, c in job.ops:
        b.apply(mat, t, c)
    d = ref.phase_distance(a.vector(ids), b.vector(ids))
    if d > 1e-6:
        raise Violation("%s differs from the %d commands received by %.3g:\n%s\njob: %s" % (
            what, n_ops, d, "\n".join(map(str, cmds)), [(np.round(m, 3).tolist(), t, c) for m, t, c in job.ops]))
    if job.measures is not None:
        if {q for q, _ in job.measures} != set(meas):
            raise Violation("%s measures the qubits %s, the program %s" % (what, sorted({q for q, _ in job.measures}), sorted(set(meas))))
        if len({b for _, b in job.measures}) < len({q for q, _ in job.measures}):
            raise Violation("%s measures two qubits into one bit" % what)
    if job.barriers and [x[1] for x in job.barriers] != barriers:
        raise Violation("%s has the barriers %s, the program %s" % (what, job.barriers, barriers))
    if meas and max(meas) >= job.nq:
        raise Violation("%s declares %d qubits, qubit %d was measured" % (what, job.nq, max(meas)))
    return meas, late


def check_text(be, job, runs):
    """IBM: get_qasm() describes the circuit sent."""
    text = cloud.Job()
    text.nq = text.nc = job.nq
    text.measures = []
    # recorded finding: H is written u2(0,pi/2)
    cloud.parse_qasm(be.get_qasm().replace("u2(0,pi/2)", "u2(0,pi)"), text)
    text.check()
    ids = list(range(job.nq))
    a, b = start(ids), start(ids)
    for s, j in ((a, job), (b, text)):
        for mat, t, c in j.ops:
            s.apply(mat, t, c)
    if len(ids) < 8 and ref.phase_distance(a.vector(ids), b.vector(ids)) > 1e-6:
        raise Violation("get_qasm() describes another circuit than the one sent: %s" % be.get_qasm())
    if text.measures != job.measures or text.barriers != job.barriers:
        raise Violation("get_qasm() and the job sent disagree on measurements or barriers: %s" % be.get_qasm())


def run(case, ev):
    from projectq.backends._exceptions import InvalidCommandError, MidCircuitMeasurementError
    from projectq.ops import Barrier, Command, Measure
    from projectq.types import WeakQubitRef
    name = case["svc"].partition(":")[0]
    svc = cloud.SERVICES[name]()
    gatesn = jobs = 0
    with svc.installed():
        r = Run(case, svc)
        try:
            mark, dead = 0, False
            for x in case["ops"]:
                k = x[0]
                if k == "alloc":
                    r.q.append(r.eng.allocate_qubit())
                elif k == "dealloc":
                    r.q[x[1]] = None
                elif k == "m":
                    for i in x[1]:
                        Measure | r.q[i]
                elif k == "b":
                    if not name == "azure-ionq":
                        Barrier | [r.live(i) for i in x[1]]
                elif k == "g":
                    sp, ts, cs, vals = x[1:]
                    gate = build_gate(sp)
                    w = lambda i: WeakQubitRef(r.eng, r.live(i).id)  # noqa: E731
                    regs = tuple([w(i)] for i in ts)
                    if sp[0] == "Mat" and len(ts) > 1:
                        regs = ([w(i) for i in ts],)
                    cmd = Command(r.eng, gate, regs, controls=[w(i) for i in cs], control_state="".join(map(str, vals)))
                    ok = r.eng.is_available(cmd)
                    doc = any(sp[0] in names and len(cs) == c for names, c in DOC[case["svc"]])
                    if 0 in vals and ok:
                        raise Violation("%s reports %s with negative controls %s as available" % (case["svc"], cmd, vals))
                    if doc and 0 not in vals and not ok:
                        raise Violation("%s reports %s as unavailable although it documents it" % (case["svc"], cmd))
                    if ok:
                        try:
                            r.eng.receive([cmd])
                        except MidCircuitMeasurementError as e:
                            phys = {q.id for rr in r.tap.seen[-1].all_qubits for q in rr}
                            if not any(c.gate == Measure and c.qubits[0][0].id in phys for c in r.tap.seen[mark:-1]):
                                raise Violation("%s refuses %s although its qubits %s have not been measured" % (case["svc"], cmd, phys)) from e
                            ev.label("mid-circuit measurement refused")
                            return
                        except InvalidCommandError:
                            ev.label("accepted gate refused later")
                            return
                        gatesn += 1
                elif k in ("flush", "fail"):
                    sent = len(svc.jobs)
                    seg = [c for c in r.tap.seen[mark:] if c.gate.__class__.__name__ != "FlushGate"]
                    svc.fail = x[1] if k == "fail" else None
                    err = None
                    try:
                        r.eng.flush()
                    except Violation:
                        raise
                    except Exception as e:  # noqa: BLE001
                        err = e
                        if k == "flush":
                            if in_projectq(e):
                                raise Violation("%s fails to submit an accepted program: %r\n%s" % (
                                    case["svc"], e, "\n".join(map(str, seg)))) from e
                            raise
                    svc.fail = None
                    mark = len(r.tap.seen)
                    new = svc.jobs[sent:]
                    unit = [c for c in seg if c.gate.__class__.__name__ not in (
                        "AllocateQubitGate", "DeallocateQubitGate", "MeasureGate", "BarrierGate", "FlushGate")]
                    if len(new) > 1:
                        raise Violation("one flush submitted %d jobs" % len(new))
                    if not new and unit and err is None:
                        raise Violation("%s submitted nothing for %d gates%s" % (case["svc"], len(unit), " (%s)" % k))
                    if new and not [c for c in seg if c.gate.__class__.__name__ not in ("AllocateQubitGate", "DeallocateQubitGate")]:
                        raise Violation("%s submitted a job although nothing was to be done" % case["svc"])
                    for job in new:
                        jobs += 1
                        _, late = compare(job, seg, case, "%s: the job of flush %d" % (case["svc"], jobs))
                        if late:
                            raise Violation("%s submitted gates on measured qubits with all measurements at the end:\n%s" % (
                                case["svc"], "\n".join(map(str, seg))))
                        if job.device not in (svc.device, {"ionq_simulator": "simulator"}.get(svc.device)):
                            raise Violation("the job went to %r instead of %r" % (job.device, svc.device))
                        if name == "ibm":
                            check_text(r.be, job, case["runs"])
                    if k == "fail" and err is None and unit:
                        raise Violation("%s reports no error when the service fails (%s)" % (case["svc"], x[1]))
                    if k == "fail":
                        ev.label("failed flush")
            ev.label(case["svc"])
            ev.label("several jobs", jobs > 1)
            ev.mark(gatesn > 1 and jobs > 0)
        finally:
            r.close()


# ------------------------------------------------------------------------------------------ two recorded findings

def single_cases():
    return st.sampled_from([{"what": "qasm-h"}, {"what": "ibm-midcircuit"}])


def run_single(case, ev):
    from projectq.ops import H, Measure, X, C
    from projectq.backends._exceptions import MidCircuitMeasurementError
    svc = cloud.IBM()
    ev.mark()
    with svc.installed():
        r = Run({"svc": "ibm", "places": [0, 1], "runs": 10}, svc)
        try:
            q = r.eng.allocate_qubit()
            a = r.eng.allocate_qubit()
            r.q = [q, a]
            if case["what"] == "qasm-h":
                H | q
                r.eng.flush()
                text = cloud.Job()
                text.nq = text.nc = 2
                text.measures = []
                cloud.parse_qasm(r.be.get_qasm(), text)
                if ref.phase_distance(text.ops[0][0].reshape(-1), cloud.HAD.reshape(-1)) > 1e-6:
                    raise Violation("get_qasm() writes H as %r, which is another gate" % r.be.get_qasm())
            else:
                H | a
                Measure | q
                try:
                    C(X) | (a, q)
                    r.eng.flush()
                except MidCircuitMeasurementError:
                    return
                raise Violation("IBMBackend accepts a gate on a measured qubit and measures it only after that gate")
        finally:
            r.close()


TESTS = [
    Test("translate", cases(), run, 6000,
         rule="programs of accepted and other gates with allocation, release, measurement, barriers and several flushes (some "
              "failing) for eight services and any placement; non-trivial = two gates in submitted jobs"),
    Test("large", cases(wide=True), run, 500,
         rule="the same with 8 to 12 qubits and up to 45 operations; non-trivial = two gates in submitted jobs"),
    Test("single", single_cases, run_single, 2, fixed=lambda: [{"what": "qasm-h"}, {"what": "ibm-midcircuit"}],
         rule="two fixed programs behind recorded findings"),
]
