"""P34: jobs go to the machine that was asked for, and to hardware only if hardware was asked for."""
from unittest import mock

from hypothesis import strategies as st

from vf import cloud, spec
from vf.core import Test, Violation, in_projectq

ASSUMPTIONS = ["services are stand-ins for the HTTP session, boto3 and the Azure target",
               "Azure without hardware: a simulator target given by name may be used as it is (the repository's tests expect that)"]

# service -> device names and what the service calls them
DEVICES = {"ibm": {"ibmq_qasm_simulator": "ibmq_qasm_simulator", "ibmq_essex": "ibmq_essex", "ibmq_vigo": "ibmq_vigo"},
           "aqt": {"simulator": "aqt_simulator", "aqt_simulator": "aqt_simulator", "aqt_simulator_noise": "aqt_simulator_noise", "aqt_device": "aqt_device"},
           "ionq": {"ionq_simulator": "simulator", "ionq_qpu": "qpu", "ionq_harmony": "ionq_harmony"},
           "aws": {d: d for d in ("SV1", "Aspen-8", "IonQ Device")},
           "azure-ionq": {d: d for d in ("ionq.simulator", "ionq.qpu", "ionq.qpu.aria-1", "ionq.qpu.forte-1")},
           "azure-quantinuum": {d: d for d in ("quantinuum.qpu.h1-1", "quantinuum.qpu.h1-2", "quantinuum.sim.h1-1sc", "quantinuum.sim.h1-1e",
                                               "quantinuum.sim.h2-1sc")}}
# what runs when nothing is said: device with hardware, simulator without, number of runs
DEFAULT = {"ibm": ("ibmq_essex", ["ibmq_qasm_simulator"], 1024), "aqt": ("aqt_simulator", ["aqt_simulator"], 100),
           "ionq": ("simulator", ["simulator"], 100), "aws": ("Aspen-8", ["SV1"], 1000), "azure-ionq": ("ionq.simulator", ["ionq.simulator"], 100),
           "azure-quantinuum": (None, ["quantinuum.hqs-lt-s1-apival"], 100)}
GATE = {"ibm": ["H"], "aqt": ["Rx", 0.3], "ionq": ["H"], "aws": ["H"], "azure-ionq": ["H"], "azure-quantinuum": ["H"]}


@st.composite
def cases(draw):
    svc = draw(st.sampled_from(sorted(DEVICES)))
    names = sorted(DEVICES[svc])
    return {"svc": svc, "hw": draw(st.sampled_from([None, False, True])),
            "dev": draw(st.sampled_from(names if svc == "azure-quantinuum" else names + [None])),
            "runs": draw(st.one_of(st.none(), st.integers(1, 200 if svc == "aqt" else 3000))), "tok": draw(st.text("abcXYZ0123456789", min_size=4, max_size=12)),
            "gates": draw(st.integers(1, 3)), "nq": draw(st.integers(1, 2)), "late": draw(st.booleans()), "again": draw(st.booleans()),
            "bits": draw(st.integers(0, 3))}


def make(case, svc, retrieve=None):
    import projectq.backends as b
    kw = {"num_retries": 3, "interval": 1, "retrieve_execution": retrieve}
    if case["hw"] is not None:
        kw["use_hardware"] = case["hw"]
    if case["runs"] is not None:
        kw["num_runs"] = case["runs"]
    name, dev = case["svc"], case["dev"]
    if name.startswith("azure"):
        if dev:
            kw["target_name"] = dev
        be = b.AzureQuantumBackend(workspace=mock.MagicMock(), **kw)
        be._target_factory = lambda workspace, target_name, provider_id: cloud._Target(svc, target_name, provider_id)
        return be
    if dev:
        kw["device"] = dev
    if name == "aws":
        return b.AWSBraketBackend(credentials={"AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_KEY": "b"}, s3_folder=["bucket", "dir"], **kw)
    return {"ibm": b.IBMBackend, "aqt": b.AQTBackend, "ionq": b.IonQBackend}[name](token=case["tok"], **kw)


def session(case, be, svc):
    """One program; returns the error and the probabilities."""
    from projectq import MainEngine
    from projectq.ops import Measure
    eng = MainEngine(be, [cloud.perm_mapper(list(range(case["nq"])))], verbose=True)
    qs = [eng.allocate_qubit() for _ in range(case["nq"])]
    err = probs = None
    try:
        for k in range(case["gates"]):
            spec.build(GATE[case["svc"]]) | qs[k % len(qs)]
        for q in qs:
            Measure | q
        try:
            eng.flush()
            if case["again"]:
                eng.flush()
            probs = be.get_probabilities([q[0] for q in qs])
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            err = e
        return err, probs
    finally:
        eng.next_engine.receive = lambda cl: None
        be.receive = lambda cl: None
        eng.active_qubits.clear()
        qs = None


def wanted(case):
    hw, sim, _ = DEFAULT[case["svc"]]
    if case["hw"]:
        return [DEVICES[case["svc"]][case["dev"]] if case["dev"] else hw]
    if case["svc"] == "azure-quantinuum" and ".sim." in case["dev"]:
        return sim + [case["dev"]]
    return sim


def run(case, ev):
    svc = cloud.SERVICES[case["svc"]](hist=lambda job: {tuple((case["bits"] >> i) & 1 for i in range(job.nq)): job.shots})
    svc.token = case["tok"]
    want, runs = wanted(case), case["runs"] or DEFAULT[case["svc"]][2]
    if case["svc"] == "aws":
        svc.device = want[0]
    what = "%s, use_hardware=%s, device %s" % (case["svc"], case["hw"], case["dev"])
    with svc.installed():
        if case["late"]:
            svc.fail = "never"
        err, probs = session(case, make(case, svc), svc)
        if svc.jobs and any(j.device not in want for j in svc.jobs):
            raise Violation("%s: the job went to %s, not to %s" % (what, [j.device for j in svc.jobs], want))
        if err is not None and not case["late"]:
            if not svc.jobs or in_projectq(err):
                raise Violation("%s: nothing comes back, %r" % (what, err))
            raise err
        if len(svc.jobs) != 1:
            raise Violation("%s: %d jobs were submitted for one program" % (what, len(svc.jobs)))
        if svc.jobs[0].shots != runs:
            raise Violation("%s: %s runs instead of %s" % (what, svc.jobs[0].shots, runs))
        if case["late"]:
            if err is None:
                raise Violation("%s: no error although the job never ended" % what)
            svc.fail = None
            job = "job1" if case["svc"] != "aws" else "arn:aws:braket:%s:1:quantum-task/job1" % svc.home(want[0])
            err, probs = session(case, make(case, svc, job), svc)
            if err is not None:
                raise Violation("%s: the results of an earlier job cannot be fetched, %r" % (what, err)) from err
            if len(svc.jobs) != 1:
                raise Violation("%s: fetching an earlier result submitted a job" % what)
        for j, where in svc.asked:
            if j != "job1" or case["svc"] == "aqt" and where not in want or case["svc"] == "aws" and where != svc.home(want[0]):
                raise Violation("%s: asked for %s at %s" % (what, j, where))
        key = "".join(str((case["bits"] >> i) & 1) for i in range(case["nq"]))
        if {k: v for k, v in probs.items() if v} != {key: 1}:
            raise Violation("%s: probabilities %s instead of %s" % (what, probs, key))
    ev.label(case["svc"])
    ev.label("hardware asked for", case["hw"])
    ev.label("hardware device named but not asked for", not case["hw"] and case["dev"] and DEVICES[case["svc"]][case["dev"]] not in want)
    ev.label("fetched later", case["late"])
    ev.mark()


TESTS = [
    Test("where", cases, run, 1500, chunk=75,
         rule="a program with measurements on a backend constructed with every combination of use_hardware (given or not), device (given or not), "
              "number of runs and token; the one job reaches the named machine, or the simulator, with that many runs; results are fetched "
              "there, also by a later session; non-trivial = a job was submitted"),
]
