"""P32: the ready-made device setups place every program the device has room for, job after job."""
import itertools

from hypothesis import strategies as st

from vf import compile as comp
from vf import mapping, prog, ref
from vf.core import Test, Violation
from vf.refbackend import make

ASSUMPTIONS = ["device lists come from stand-ins for the services; states compared up to a global phase, 1e-6, up to 7 qubits",
               "the five-qubit devices take one complete program (documented); locations of the ion-trap devices and the "
               "online simulators become free again at a flush"]

# the published connections of the fifteen-qubit device
MELBOURNE = [[1, 0], [1, 2], [2, 3], [4, 3], [4, 10], [5, 4], [5, 6], [5, 9], [6, 8], [7, 8], [9, 8], [9, 10], [11, 3],
             [11, 10], [11, 12], [12, 2], [13, 1], [13, 12], [14, 0], [14, 13]]
FIVE = {
    "bowtie": [[1, 0], [2, 0], [2, 1], [3, 2], [3, 4], [4, 2]],
    "tee": [[0, 1], [1, 0], [1, 2], [2, 1], [1, 3], [3, 1], [3, 4], [4, 3]],
    "chain": [[0, 1], [1, 2], [2, 3], [3, 4]],
}
IBM = (("X", 1),)


class Device:
    """Engine list, sites, legality."""

    def __init__(self, d):
        import projectq.setups.aqt as aqt
        import projectq.setups.ibm as ibm
        import projectq.setups.ionq as ionq
        kind, nq = d["kind"], d["nq"]
        self.links = None
        with comp.mocked():
            if kind == "aqt":
                aqt.show_devices = lambda *a, **k: {"aqt_simulator": {"nq": nq}}
                self.make = lambda: aqt.get_engine_list(device="aqt_simulator")
                gates = ("Rx", "Ry"), ("Rxx",)
            elif kind == "ionq":
                old = ionq.IonQ

                class Service(old):
                    def show_devices(self):
                        return {"sim": {"nq": nq}}
                ionq.IonQ = Service
                self.make = lambda: ionq.get_engine_list(device="sim")
                gates = comp._CLIFF + ("SqrtX",), ("Swap", "Rxx", "Ryy", "Rzz")
            else:
                name = {"ibmsim": "ibmq_qasm_simulator", "melbourne": "ibmq_16_melbourne"}.get(kind, "ibmq_burlington")
                conn = d.get("conn") or []
                ibm.show_devices = lambda *a, **k: {name: {"nq": nq, "coupling_map": [list(c) for c in conn]}}
                self.make = lambda: ibm.get_engine_list(device=name)
                gates = ("Rx", "Ry", "Rz", "H"), IBM
                if kind in ("melbourne", "five"):
                    self.links = {tuple(c) for c in conn}
            self.engines = self.make()
            self.again = self.make()
        self.sites = set(range(nq))
        self.gate_ok = comp.allowed(gates[0], gates[1], ())

    def until_mapper(self):
        from projectq.cengines import BasicMapperEngine
        k = [isinstance(e, BasicMapperEngine) for e in self.again].index(True)
        return self.again[:k]

    def legal(self, cmd):
        from projectq.ops import ClassicalInstructionGate, FlushGate
        if isinstance(cmd.gate, FlushGate):
            return None
        ids = [q.id for r in cmd.qubits for q in r] + [q.id for q in cmd.control_qubits]
        if not set(ids) <= self.sites:
            return "%s is not on the device" % cmd
        if len(set(ids)) != len(ids):
            return "%s uses a location twice" % cmd
        if isinstance(cmd.gate, ClassicalInstructionGate):
            return None
        if not self.gate_ok(cmd):
            return "%s is not a gate of the device" % cmd
        if len(ids) == 2 and self.links is not None:
            a, b = ids[::-1] if cmd.control_qubits else ids
            if (a, b) not in self.links:
                return "%s acts on locations %d and %d, which are not connected that way" % (cmd, a, b)
        return None


@st.composite
def directed(draw, both):
    """Every connection as published, reversed, or both ways."""
    out = []
    for a, b in both:
        k = draw(st.sampled_from("pprb"))
        out += {"p": [[a, b]], "r": [[b, a]], "b": [[a, b], [b, a]]}[k]
    return out


@st.composite
def devices(draw, kinds, least, most):
    kind = draw(st.sampled_from(kinds))
    d = {"kind": kind}
    if kind == "melbourne":
        d["nq"] = 15
        d["conn"] = MELBOURNE if draw(st.booleans()) else draw(directed(MELBOURNE))
    elif kind == "five":
        d["nq"] = 5
        name = draw(st.sampled_from(sorted(FIVE)))
        d["conn"] = FIVE[name] if draw(st.booleans()) else draw(directed([c for i, c in enumerate(FIVE[name]) if c[::-1] not in FIVE[name][:i]]))
    else:
        d["nq"] = draw(st.integers(least, most))
        if kind == "ibmsim" and d["nq"] == 5:
            d["nq"] = 6             # every device with five qubits is taken for a five-qubit chip
    return d


# ------------------------------------------------------------------ meaning
GATES = prog.G1 + prog.G1P + prog.G2
RICH = dict(gates=GATES, max_q=4, stmts=(1, 5), ctl_max=2, rich=["mat1", "ucr", "qft", "ent", "qop", "inv"], depth=1, spread=True,
            min_q=2)
ONCE = dict(gates=GATES, max_q=4, stmts=(1, 4), ctl_max=2, depth=1, spread=True, min_q=2, alloc=False, anc=False,
            measure=False, flush=False, delete=False, feedback=False)


@st.composite
def job_cases(draw):
    d = draw(devices(["aqt", "ionq", "ibmsim", "melbourne", "melbourne", "five"], 3, 14))
    jobs = []
    if d["kind"] == "five":
        if draw(st.booleans()):
            p = draw(prog.programs(prog.Opts(**ONCE)))
        else:
            n = draw(st.integers(2, 5))
            p = draw(mapping.dense(n, (1, 5), n, kinds=["cx", "cx", "swap", "cz", "h", "t", "ry"]))
        jobs.append(p)
    else:
        for _ in range(draw(st.integers(1, 3))):
            if draw(st.integers(0, 2)) == 0:
                jobs.append(draw(prog.programs(prog.Opts(**RICH))))
            else:
                jobs.append(draw(mapping.dense(min(7, d["nq"]), (4, 18),
                                               kinds=[k for k in mapping.KINDS if k != "rxx"])))
    return {"device": d, "jobs": jobs, "keep": draw(st.sampled_from([0, 0, 1]))}


def drive(case, dev, engines, mapped, ev, watch=None):
    """All jobs on one main engine; yields nothing, raises Violation."""
    from projectq import MainEngine
    from projectq.ops import Measure
    be = make()(outcomes=[], loose_dealloc=False)
    eng = MainEngine(be, engines, verbose=True)
    mapper = eng.mapper if mapped else None
    stat = {"two": 0, "alloc": 0, "most": 0, "seg": 0, "live": 0, "pairs": set()}

    def hook(cmd):
        from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate
        if isinstance(cmd.gate, AllocateQubitGate):
            stat["alloc"] += 1
            stat["seg"] += 1
            stat["live"] += 1
            stat["most"] = max(stat["most"], stat["seg"])
        elif isinstance(cmd.gate, DeallocateQubitGate):
            stat["live"] -= 1
        elif isinstance(cmd.gate, FlushGate):
            stat["seg"] = stat["live"]
        if cmd.control_qubits:
            stat["pairs"].add((cmd.control_qubits[0].id, cmd.qubits[0][0].id))
        if mapped:
            why = dev.legal(cmd)
            if why:
                raise Violation(why)
            stat["two"] += sum(len(r) for r in cmd.qubits) + len(cmd.control_qubits) == 2
    be.hook = hook
    kept = []
    r = None
    try:
        for p in case["jobs"]:
            be.outcomes = list(p["bits"])
            be.measured = []
            r = prog.Runner(eng, p)
            r.run()
            want = r.reference()
            if mapped:
                mp = mapping.announced(mapper, dev.sites) if mapper.current_mapping is not None else {}
                ids = []
                for n in want.ids:
                    if r.ids[n] not in mp:
                        raise Violation("live qubit %d is not in the announced mapping %s" % (r.ids[n], mp))
                    ids.append(mp[r.ids[n]])
                if not set(ids) <= set(be.state.ids) or len(be.state.ids) != len(ids):
                    raise Violation("locations in use %s, announced %s" % (be.state.ids, ids))
                d = ref.phase_distance(be.state.vector(ids), want.psi)
                if d > 1e-6:
                    raise Violation("the final state of a program is off by %.3g (mapping %s)" % (d, mp))
                mapping.check_results(r, be)
            if dev.links is not None and len(dev.sites) == 5:
                break
            be.measured = []
            live = [r.env[n] for n in sorted(r.env)]
            for q in live:
                Measure | q
            if case["keep"]:
                eng.flush()
                for q in live:
                    loc = [x for x in be.measured if x[0] == q.id]
                    if len(loc) != 1 or int(q) != loc[0][2]:
                        raise Violation("qubit %d reads %d after being measured as %s" % (q.id, int(q), loc))
            del live, q
            r.env = {}
            eng.flush()
            if be.state.ids:
                raise Violation("locations %s are still in use after every qubit was released" % be.state.ids)
    finally:
        be.one = lambda cmd: None
        if r is not None:
            r.env = {}
        del kept
    return stat


def run_jobs(case, ev):
    d = case["device"]
    dev = Device(d)
    try:
        stat = drive(case, dev, dev.engines, True, ev)
    except Violation:
        raise
    except (RuntimeError, KeyError) as e:
        # is there really no room?
        need = drive(case, dev, dev.until_mapper(), False, ev)
        if d["kind"] == "five":
            logical = sorted({i for p in need["pairs"] for i in p})
            room = need["most"] <= 5 and any(
                all((m[logical.index(a)], m[logical.index(b)]) in dev.links or (m[logical.index(b)], m[logical.index(a)]) in dev.links
                    for a, b in need["pairs"]) for m in itertools.permutations(range(5), len(logical)))
        elif d["kind"] == "melbourne":
            room = True
        else:
            room = need["most"] <= d["nq"]
        if room:
            raise Violation("%s: refused although there is room: %s" % (d["kind"], str(e)[:200])) from None
        ev.label("refused " + d["kind"])
        ev.mark()
        return
    ev.label("device " + d["kind"])
    ev.label("several jobs", len(case["jobs"]) > 1)
    ev.label("more qubits in total than locations", stat["alloc"] > d["nq"])
    ev.mark(stat["two"] >= 2)


# ------------------------------------------------------------------ capacity
@st.composite
def room_cases(draw):
    d = draw(devices(["aqt", "ionq", "ibmsim", "melbourne", "linear", "grid"], 1, 20))
    if d["kind"] == "linear":
        d["cyclic"] = draw(st.booleans())
        d["nq"] = max(2, d["nq"])
    if d["kind"] == "grid":
        d["rows"], d["cols"] = draw(st.sampled_from([(1, 2), (2, 2), (2, 3), (3, 3), (4, 2), (3, 4), (1, 6)]))
        d["nq"] = d["rows"] * d["cols"]
    full = 14 if d["kind"] == "melbourne" else d["nq"]
    jobs = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.one_of(st.just(full), st.integers(1, full)))
        pairs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=min(n, 6)))
        jobs.append([n, [list(p) for p in pairs if p[0] != p[1]]])
    return {"device": d, "jobs": jobs, "over": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "order": draw(st.integers(0, 2))}


def run_room(case, ev):
    from projectq import MainEngine
    from projectq.cengines import BasicEngine
    from projectq.meta import LogicalQubitIDTag
    from projectq.ops import CNOT, AllocateQubitGate, DeallocateQubitGate, FlushGate, H, Measure, MeasureGate
    from projectq.types import WeakQubitRef
    d = case["device"]
    if d["kind"] == "linear":
        import projectq.setups.linear as s
        engines, legal = s.get_engine_list(d["nq"], d["cyclic"]), None
    elif d["kind"] == "grid":
        import projectq.setups.grid as s
        engines, legal = s.get_engine_list(d["rows"], d["cols"]), None
    else:
        dev = Device(d)
        engines, legal = dev.engines, dev.legal
    sites = set(range(d["nq"]))
    used = {}
    most = [0]

    class Backend(BasicEngine):
        def is_available(self, cmd):
            return True

        def receive(self, command_list):
            for cmd in command_list:
                ids = [q.id for r in cmd.qubits for q in r] + [q.id for q in cmd.control_qubits]
                if isinstance(cmd.gate, FlushGate):
                    continue
                if not set(ids) <= sites:
                    raise Violation("%s is not on the device" % cmd)
                if legal is not None and legal(cmd):
                    raise Violation(legal(cmd))
                if isinstance(cmd.gate, AllocateQubitGate):
                    if ids[0] in used:
                        raise Violation("location %d is given away twice" % ids[0])
                    used[ids[0]] = None
                    most[0] = max(most[0], len(used))
                    continue
                if not set(ids) <= set(used):
                    raise Violation("%s acts on a location without a qubit" % cmd)
                if isinstance(cmd.gate, DeallocateQubitGate):
                    del used[ids[0]]
                elif isinstance(cmd.gate, MeasureGate):
                    lid = [t.logical_qubit_id for t in cmd.tags if isinstance(t, LogicalQubitIDTag)]
                    self.main_engine.set_measurement_result(WeakQubitRef(self, (lid or ids)[0]), lid[0] % 3 == 1)

    be = Backend()
    eng = MainEngine(be, engines, verbose=True)
    total = 0
    full = 14 if d["kind"] == "melbourne" else d["nq"]
    q = over = None
    try:
        for n, pairs in case["jobs"]:
            try:
                q = eng.allocate_qureg(n)
                for x in q:
                    H | x
                for a, b in pairs:
                    CNOT | (q[a], q[b])
                if case["order"] == 1:
                    eng.flush()
                for x in q:
                    Measure | x
                eng.flush()
            except Violation:
                raise
            except Exception as e:
                raise Violation("%s: %d qubits do not fit on %d locations (job %s): %s"
                                % (d["kind"], n, full, total, str(e)[:150])) from None
            total += n
            if len(used) != n:
                raise Violation("%d qubits alive, %d locations in use" % (n, len(used)))
            bad = [x.id for x in q if int(x) != (x.id % 3 == 1)]
            if bad:
                raise Violation("the results of qubits %s belong to others" % bad)
            if case["order"] == 2:
                q = q[::-1]
            while len(q):
                del x
                x = q.pop()
            del x
            x = None
            eng.flush()
            if used:
                raise Violation("locations %s are in use although every qubit was released" % sorted(used))
        if case["over"] and d["kind"] != "melbourne":
            try:
                over = eng.allocate_qureg(d["nq"] + case["over"])
                for x in over:
                    H | x
                eng.flush()
            except Violation:
                raise
            except Exception:
                ev.label("refused beyond capacity")
            else:
                raise Violation("%d qubits were accepted on %d locations" % (d["nq"] + case["over"], d["nq"]))
    finally:
        eng.next_engine.receive = lambda cl: None
        be.receive = lambda cl: None
        q = over = x = None
    ev.label("device " + d["kind"])
    ev.label("more qubits in total than locations", total > full)
    ev.mark(most[0] == full)


TESTS = [
    Test("jobs", job_cases, run_jobs, 700, chunk=25,
         rule="one to three programs run one after another behind a device setup (ion traps, online simulators, fifteen- and "
              "five-qubit devices, published and randomly directed connections): gates, locations, directions, states, "
              "results; refused exactly if there is no room; non-trivial = two two-qubit gates on the device, or refused"),
    Test("capacity", room_cases, run_room, 800, chunk=50,
         rule="jobs of up to all the qubits of a device setup or layout of 1-20 locations, one after another, then one qubit "
              "too many; non-trivial = every location used at once"),
]
