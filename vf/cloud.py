"""Stand-ins for the five quantum services, at the lowest level the clients use (HTTP session, boto3, Azure target).

A service keeps every job it was sent, parses it on its own into gates on physical qubits and answers with a histogram
over those qubits supplied by the test.  Nothing leaves the process and nothing sleeps.
"""
import contextlib
import inspect
import io
import json
import math
import re
import time
from unittest import mock
from urllib.parse import parse_qs, urlsplit

import numpy as np

from vf.core import Violation
from vf.ref import RefState, rot

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]])
PZ = np.diag([1, -1]).astype(complex)
HAD = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
SWAP = np.eye(4, dtype=complex)[[0, 2, 1, 3]]


def u3(t, p, l):  # noqa: E741
    return np.array([[math.cos(t / 2), -np.exp(1j * l) * math.sin(t / 2)],
                     [np.exp(1j * p) * math.sin(t / 2), np.exp(1j * (p + l)) * math.cos(t / 2)]])


def pp(a, t):
    """exp(-i t/2 a (x) a)"""
    aa = np.kron(a, a)
    return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * aa


def r1(a, t):
    return math.cos(t / 2) * I2 - 1j * math.sin(t / 2) * a


def phase(t):
    return np.diag([1, np.exp(1j * t)]).astype(complex)


SX = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])
NAMED = {"x": PX, "y": PY, "z": PZ, "h": HAD, "s": phase(math.pi / 2), "t": phase(math.pi / 4), "v": SX,
         "si": phase(-math.pi / 2), "ti": phase(-math.pi / 4), "vi": SX.conj().T, "swap": SWAP}
ROT = {"rx": lambda t: r1(PX, t), "ry": lambda t: r1(PY, t), "rz": lambda t: r1(PZ, t), "xx": lambda t: pp(PX, t),
       "yy": lambda t: pp(PY, t), "zz": lambda t: pp(PZ, t)}


class BadJob(Violation):
    """The submitted text is not a job the service understands."""


class Job:
    def __init__(self):
        self.ops = []        # (matrix, targets, controls)
        self.barriers = []   # (position in ops, qubits)
        self.measures = None  # [(qubit, classical bit)], None: the service always measures everything
        self.nq = self.nc = None
        self.shots = None
        self.device = None

    def op(self, mat, targets, controls=()):
        self.ops.append((mat, tuple(targets), tuple(controls)))

    def check(self, full=True):
        for mat, t, c in self.ops:
            qs = t + c
            if any(type(q) is not int or not 0 <= q for q in qs) or len(set(qs)) != len(qs):
                raise BadJob("job uses qubits %s in one operation" % (qs,))
            if mat.shape != (1 << len(t),) * 2:
                raise BadJob("job applies a %d-dimensional operation to qubits %s" % (len(mat), t))
            if full and any(q >= self.nq for q in qs):
                raise BadJob("job declares %d qubits but uses qubit %d" % (self.nq, max(qs)))
        for q, b in self.measures or []:
            if not 0 <= q < self.nq or not 0 <= b < self.nc:
                raise BadJob("job declares %d qubits and %d bits but measures %d into %d" % (self.nq, self.nc, q, b))

    def state(self):
        s = RefState()
        for q in range(self.nq):
            s.alloc(q)
        for mat, t, c in self.ops:
            s.apply(mat, t, c)
        return s


NUM = re.compile(r"^[\d\s.+\-*/()epi]+$")


def number(text):
    text = text.strip()
    if not NUM.match(text):
        raise BadJob("unreadable angle %r" % text)
    return float(eval(text, {"__builtins__": {}}, {"pi": math.pi}))  # noqa: S307 - digits, operators and pi only


def parse_qasm(text, job, header=True):
    """OpenQASM 2 as far as the backends write it."""
    lines = [x.strip() for x in text.replace("\n", " ").split(";")]
    one = {"h": HAD, "x": PX, "y": PY, "z": PZ, "s": NAMED["s"], "t": NAMED["t"], "sdg": NAMED["si"], "tdg": NAMED["ti"]}
    for x in lines:
        if not x:
            continue
        if x.startswith(("OPENQASM", "include")):
            continue
        m = re.match(r"^(qreg|creg)\s+([qc])\[(\d+)\]$", x)
        if m:
            setattr(job, "nq" if m.group(1) == "qreg" else "nc", int(m.group(3)))
            continue
        m = re.match(r"^measure\s+q\[(\d+)\]\s*->\s*c\[(\d+)\]$", x)
        if m:
            job.measures.append((int(m.group(1)), int(m.group(2))))
            continue
        if job.measures:
            raise BadJob("operation %r after a measurement" % x)
        m = re.match(r"^([a-z]+\d?)\s*(?:\(([^()]*(?:\([^()]*\)[^()]*)*)\))?\s+(.*)$", x)
        if not m:
            raise BadJob("unreadable line %r" % x)
        name, args, qs = m.group(1), m.group(2), m.group(3)
        args = [number(a) for a in args.split(",")] if args else []
        qs = [y.strip() for y in qs.split(",")]
        if not all(re.match(r"^q\[\d+\]$", y) for y in qs):
            raise BadJob("unreadable qubits in %r" % x)
        qs = [int(y[2:-1]) for y in qs]
        if name == "barrier":
            job.barriers.append((len(job.ops), tuple(qs)))
            continue
        try:
            if name in one and not args:
                job.op(one[name], qs)
            elif name in ("rx", "ry", "rz"):
                (t,) = args
                job.op(ROT[name](t), qs)
            elif name in ("rxx", "ryy", "rzz"):
                (t,) = args
                job.op(ROT[name[1:]](t), qs)
            elif name == "u1":
                (t,) = args
                job.op(phase(t), qs)
            elif name == "u2":
                job.op(u3(math.pi / 2, *args), qs)
            elif name == "u3":
                job.op(u3(*args), qs)
            elif name in ("cx", "cz"):
                c, t = qs
                job.op(one[name[1]], [t], [c])
            elif name in ("ccx", "ccz"):
                a, b, t = qs
                job.op(one[name[2]], [t], [a, b])
            else:
                raise BadJob("unknown operation %r" % x)
        except (TypeError, ValueError) as e:
            raise BadJob("wrong arguments in %r" % x) from e


def parse_ionq(body, job):
    if not isinstance(body.get("circuit"), list):
        raise BadJob("circuit is %r" % (body.get("circuit"),))
    job.nq = body["qubits"]
    for g in body["circuit"]:
        name = g["gate"]
        extra = set(g) - {"gate", "targets", "controls", "rotation"}
        if extra:
            raise BadJob("unknown fields %s" % sorted(extra))
        if name in ROT:
            if "rotation" not in g:
                raise BadJob("%s without rotation" % name)
            mat = ROT[name](g["rotation"])
        elif name in NAMED and "rotation" not in g:
            mat = NAMED[name]
        else:
            raise BadJob("unknown operation %r" % (g,))
        c = g.get("controls", [])
        if c and name != "x" or len(c) > 7:
            raise BadJob("the service cannot control %r" % (g,))
        job.op(mat, g["targets"], c)


def reply(status=200, body=None, text=None, url="https://service/"):
    import requests
    r = requests.Response()
    r.status_code = status
    r.url = url
    r._content = (text if text is not None else json.dumps(body)).encode()
    r.headers["Content-Type"] = "application/json"
    return r


class NoCalls(Exception):
    pass


class Service:
    """Common part: jobs received, histogram to answer with, call log, and the installation of the stand-in."""
    device = None
    big = 30
    bits_full = True  # the answer covers every declared qubit

    def __init__(self, hist=None):
        self.jobs = []
        self.calls = []
        self.hist = hist or (lambda job: {(0,) * job.nq: job.shots})
        self.fail = None      # None | offline | small | failed | never | http
        self.slept = 0
        self.on_sleep = None
        self.submitted = 0
        self.token = "tok"
        self.asked = []       # (job, where it was asked for)

    def new_job(self, job):
        job.check()
        self.jobs.append(job)

    def counts(self, job):
        """(full-register bits -> count) as ordered pairs."""
        return list(self.hist(job).items())

    def sleep(self, t):
        self.slept += 1
        if self.on_sleep:
            self.on_sleep(self.slept)
        if self.slept > 10000:
            raise Violation("the client never stops polling")

    @contextlib.contextmanager
    def installed(self):
        out = io.StringIO()
        with contextlib.ExitStack() as st:
            st.enter_context(mock.patch.object(time, "sleep", self.sleep))
            st.enter_context(mock.patch("getpass.getpass", side_effect=NoCalls("asked for a password")))
            st.enter_context(mock.patch("builtins.input", side_effect=NoCalls("asked for input")))
            self.install(st)
            st.enter_context(contextlib.redirect_stdout(out))
            self.out = out
            yield self

    def install(self, st):
        import requests.sessions
        st.enter_context(mock.patch.object(requests.sessions.Session, "send", self._send))

    def _send(self, prep, **kw):
        u = urlsplit(prep.url)
        body = prep.body
        if isinstance(body, bytes):
            body = body.decode()
        self.calls.append((prep.method, u.path))
        r = self.handle(prep.method, u.scheme + "://" + u.netloc + u.path, parse_qs(u.query), body, prep.headers)
        if isinstance(r, Exception):
            raise r
        r.request = prep
        r.url = prep.url
        return r

    # ---- the failure a test asks for, used by the simple (unscripted) servers
    def status(self, good, running, failed):
        if self.fail == "never":
            return running
        if self.fail == "failed":
            return failed
        return good


BOWTIE = [[2, 1], [4, 2], [2, 0], [3, 2], [3, 4], [1, 0]]


class IBM(Service):
    name = "ibm"
    device = "ibmq_qasm_simulator"

    def backend(self, runs, retrieve=None, **kw):
        from projectq.backends import IBMBackend
        return IBMBackend(num_runs=runs, token="tok", retrieve_execution=retrieve, num_retries=kw.pop("num_retries", 3), interval=1, **kw)

    def handle(self, method, url, query, body, headers):
        api = "https://api.quantum-computing.ibm.com/api/Network/ibm-q/Groups/open/Projects/main/"
        if url.endswith("/api/users/loginWithToken"):
            if self.token not in (body or "") and self.token not in str(dict(headers)):
                return reply(401, {"error": "auth"})
            return reply(body={"id": "access"})
        if url == api + "devices/v/1":
            if self.fail == "http":
                return reply(500, {"error": "down"})
            if self.fail == "offline":
                return reply(body=[])
            n = 0 if self.fail == "small" else 32
            return reply(body=[{"backend_name": d, "n_qubits": min(n, k), "coupling_map": BOWTIE, "backend_version": "1"}
                               for d, k in (("ibmq_qasm_simulator", 32), ("ibmq_essex", 5), ("ibmq_vigo", 5))])
        if method == "POST" and url == api + "Jobs":
            self.submitted += 1
            self.pending = json.loads(body)["backend"]["name"]
            return reply(body={"id": "job%d" % self.submitted, "objectStorageInfo": {"uploadUrl": "https://s3.example/put"}})
        if method == "PUT":
            self.upload(body)
            return reply(body={})
        if url.endswith("/jobDataUploaded") or url.endswith("/resultDownloaded"):
            return reply(body={})
        if url.endswith("/resultDownloadUrl"):
            return reply(body={"url": "https://s3.example/get"})
        if url == "https://s3.example/get":
            c = {}
            job = self.jobs[-1] if self.jobs else self.stored
            for bits, n in self.counts(job):
                key = hex(sum(bits[q] << b for q, b in dict(job.measures).items()))
                c[key] = c.get(key, 0) + n
            return reply(body={"results": [{"data": {"counts": c}, "status": "DONE"}]})
        if method == "GET":
            self.asked.append((url.split("/")[-1], None))
            return reply(body={"status": self.status("COMPLETED", "RUNNING", "ERROR_RUNNING_JOB")})
        raise NoCalls(url)

    def upload(self, text):
        try:
            d = json.loads(text)
        except ValueError as e:
            raise BadJob("the uploaded job is not JSON: %.200s" % text) from e
        (e,) = d["experiments"]
        job = Job()
        job.device = self.pending
        job.nq, job.nc, job.shots = d["config"]["n_qubits"], d["config"]["memory_slots"], d["config"]["shots"]
        if d["header"]["backend_name"] != self.pending:
            raise BadJob("job names two devices")
        h = e["header"]
        if (e["config"]["n_qubits"], e["config"]["memory_slots"], h["n_qubits"], h["memory_slots"]) != (job.nq, job.nc, job.nq, job.nc) or \
                h["qubit_labels"] != [["q", i] for i in range(job.nq)] or h["clbit_labels"] != [["c", i] for i in range(job.nc)]:
            raise BadJob("job header disagrees with its configuration")
        job.measures = []
        for x in e["instructions"]:
            n, q, p = x["name"], x["qubits"], x.get("params", [])
            if n == "measure":
                job.measures += list(zip(q, x["memory"]))
                continue
            if job.measures:
                raise BadJob("operation %s after a measurement" % (x,))
            if n == "barrier":
                job.barriers.append((len(job.ops), tuple(q)))
            elif n == "cx":
                job.op(PX, [q[1]], [q[0]])
            elif n in ("u1", "u2", "u3") and len(p) == int(n[1]):
                job.op({"u1": lambda: phase(*p), "u2": lambda: u3(math.pi / 2, *p), "u3": lambda: u3(*p)}[n](), q)
            else:
                raise BadJob("unknown instruction %s" % (x,))
        self.new_job(job)


AQTDEV = {"sim/": "aqt_simulator", "sim/noise-model-1": "aqt_simulator_noise", "lint/": "aqt_device"}


class AQT(Service):
    name = "aqt"
    device = "aqt_simulator"

    def backend(self, runs, retrieve=None, **kw):
        from projectq.backends import AQTBackend
        kw.setdefault("use_hardware", True)
        kw.setdefault("device", "aqt_simulator")
        return AQTBackend(num_runs=runs, token="tok", retrieve_execution=retrieve, num_retries=kw.pop("num_retries", 3), interval=1, **kw)

    def handle(self, method, url, query, body, headers):
        f = {k: v[0] for k, v in parse_qs(body).items()}
        if method != "PUT" or f.get("access_token") != self.token or not url.startswith("https://gateway.aqt.eu/marmot/"):
            return reply(401, {"error": "auth"})
        if "data" in f:
            if self.fail in ("http", "offline", "small"):
                return reply(500, {"error": "down"})
            self.submitted += 1
            job = Job()
            job.device = AQTDEV[url.split("marmot/")[1]]
            job.nq, job.shots = int(f["no_qubits"]), int(f["repetitions"])
            try:
                data = json.loads(f["data"])
            except ValueError as e:
                raise BadJob("circuit is not JSON: %.200s" % f["data"]) from e
            for g, a, q in data:
                if g in ("X", "Y"):
                    job.op(r1(PX if g == "X" else PY, a * math.pi), q)
                elif g == "MS":
                    job.op(pp(PX, a * math.pi), q)
                else:
                    raise BadJob("unknown operation %s" % g)
            self.new_job(job)
            return reply(body={"status": "queued", "id": "job%d" % self.submitted})
        self.asked.append((f["id"], AQTDEV[url.split("marmot/")[1]]))
        s = self.status("finished", "running", "error")
        if s != "finished":
            return reply(body={"status": s, "id": f["id"]})
        job = self.jobs[-1] if self.jobs else self.stored
        samples = []
        for bits, n in self.counts(job):
            samples += [sum(b << i for i, b in enumerate(bits))] * n
        # shots come back in the order they were taken
        samples = [samples[(7 * i + 3) % len(samples)] for i in range(len(samples))] if len(samples) % 7 else samples
        return reply(body={"status": "finished", "id": f["id"], "samples": samples})


class IonQ(Service):
    name = "ionq"
    device = "ionq_simulator"

    def backend(self, runs, retrieve=None, **kw):
        from projectq.backends import IonQBackend
        return IonQBackend(num_runs=runs, token="tok", retrieve_execution=retrieve, num_retries=kw.pop("num_retries", 3), interval=1, **kw)

    def handle(self, method, url, query, body, headers):
        if headers.get("Authorization") != "apiKey " + self.token:
            return reply(401, {"error": "auth"})
        api = "https://api.ionq.co/v0.2/"
        if url == api + "backends":
            if self.fail in ("http", "offline", "small"):
                return reply(500, {"error": "down"})
            return reply(body=[{"backend": "ionq_harmony", "qubits": 11}])
        if method == "POST" and url == api + "jobs":
            self.submitted += 1
            d = json.loads(body)
            job = Job()
            parse_ionq(d["body"], job)
            job.device, job.shots = d["target"], d["shots"]
            mm = d["registers"]["meas_mapped"]
            job.measures = [(q, i) for i, q in enumerate(mm)]
            job.nc = len(mm)
            job.meta = d
            if d["lang"] != "json":
                raise BadJob("language %r" % d["lang"])
            self.new_job(job)
            return reply(body={"id": "job%d" % self.submitted, "status": "ready"})
        self.asked.append((url.split("/")[-1], None))
        s = self.status("completed", "running", "failed")
        if s != "completed":
            return reply(body={"status": s})
        job = self.jobs[-1] if self.jobs else self.stored
        probs, total = {}, 0
        for bits, n in self.counts(job):
            key = sum(bits[q] << i for q, i in job.measures)
            probs[key] = probs.get(key, 0) + n
            total += n
        return reply(body={"status": s, "qubits": job.nq, "metadata": job.meta["metadata"], "registers": job.meta["registers"],
                           "data": {"registers": {"meas_mapped": {str(k): v / total for k, v in probs.items()}}}})


class Braket(Service):
    name = "aws"
    device = "SV1"

    def backend(self, runs, retrieve=None, **kw):
        from projectq.backends import AWSBraketBackend
        dev = kw.pop("device", "SV1")
        self.device = dev
        return AWSBraketBackend(use_hardware=dev != "SV1", device=dev, num_runs=runs, credentials={"AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_KEY": "b"},
                                s3_folder=["bucket", "dir"], retrieve_execution=retrieve, num_retries=kw.pop("num_retries", 3), interval=1, **kw)

    def install(self, st):
        import boto3
        st.enter_context(mock.patch.object(boto3, "client", self.client))

    @staticmethod
    def home(dev):
        return "us-west-1" if dev == "Aspen-8" else "us-east-1"

    def client(self, kind, region_name=None, **kw):
        if kw != {"aws_access_key_id": "a", "aws_secret_access_key": "b"}:
            raise NoCalls("credentials")
        return _Boto(self, kind, region_name)


KINDS = {"SV1": "SIMULATOR", "Aspen-8": "QPU", "IonQ Device": "QPU"}


def arn(dev):
    return "arn:aws:braket:::device/" + dev.replace(" ", "")


class _Boto:
    def __init__(self, svc, kind, region):
        self.s, self.kind, self.region = svc, kind, region

    def search_devices(self, filters):
        if self.s.fail == "http":
            import botocore.exceptions
            raise botocore.exceptions.ClientError({"Error": {"Code": "AccessDeniedException", "Message": "no"}}, "search_devices")
        if self.s.fail == "offline":
            return {"devices": []}
        devs = ["Aspen-8"] if self.region == "us-west-1" else ["SV1", "IonQ Device"]
        return {"devices": [{"deviceName": d, "deviceType": KINDS[d], "deviceArn": arn(d)} for d in devs]}

    def get_device(self, deviceArn):
        d = [x for x in KINDS if arn(x) == deviceArn][0]
        n = 0 if self.s.fail == "small" else 32
        return {"deviceName": d, "deviceType": KINDS[d], "deviceCapabilities": json.dumps({
            "braketSchemaHeader": {"version": "1"}, "paradigm": {"qubitCount": n, "connectivity": {"connectivityGraph": {}}},
            "deviceParameters": {"properties": {"braketSchemaHeader": {"const": {"name": "p"}}},
                                 "definitions": {"GateModelParameters": {"properties": {"braketSchemaHeader": {"const": {"name": "g"}}}}}}})}

    def create_quantum_task(self, action, deviceArn, deviceParameters, outputS3Bucket, outputS3KeyPrefix, shots):
        self.s.submitted += 1
        job = Job()
        job.device = [x for x in KINDS if arn(x) == deviceArn][0]
        job.shots = shots
        job.nq = json.loads(deviceParameters)["paradigmParameters"]["qubitCount"]
        try:
            d = json.loads(action)
        except ValueError as e:
            raise BadJob("action is not JSON: %.200s" % action) from e
        for g in d["instructions"]:
            t = g["type"]
            c = [g["control"]] if "control" in g else list(g.get("controls", []))
            q = [g["target"]] if "target" in g else list(g["targets"])
            extra = set(g) - {"type", "control", "controls", "target", "targets", "angle"}
            base = {"cnot": "x", "ccnot": "x", "cz": "z", "cy": "y", "cphaseshift": "phaseshift", "cswap": "swap"}.get(t, t)
            want = {"cnot": 1, "ccnot": 2, "cz": 1, "cy": 1, "cphaseshift": 1, "cswap": 1}.get(t, 0)
            if extra or len(c) != want:
                raise BadJob("malformed instruction %s" % (g,))
            if base == "phaseshift":
                mat = phase(g["angle"])
            elif base in ("rx", "ry", "rz"):
                mat = ROT[base](g["angle"])
            elif base in NAMED and "angle" not in g:
                mat = NAMED[base]
            else:
                raise BadJob("unknown instruction %s" % (g,))
            job.op(mat, q, c)
        self.s.new_job(job)
        if self.s.home(job.device) != self.region:
            raise BadJob("job for %s sent to region %s" % (job.device, self.region))
        return {"quantumTaskArn": "arn:aws:braket:%s:1:quantum-task/job%d" % (self.region, self.s.submitted)}

    def get_quantum_task(self, quantumTaskArn):
        self.s.asked.append((quantumTaskArn.split("/")[-1], self.region))
        s = self.s.status("COMPLETED", "RUNNING", "FAILED")
        return {"status": s, "outputS3Bucket": "bucket", "outputS3Directory": "dir/x", "deviceArn": arn(self.s.device), "failureReason": "because"}

    def get_object(self, Bucket, Key):
        job = self.s.jobs[-1] if self.s.jobs else self.s.stored
        cs = self.s.counts(job)
        if KINDS[self.s.device] == "QPU":
            tot = sum(n for _, n in cs)
            body = {"measurementProbabilities": {"".join(map(str, b)): n / tot for b, n in cs}}
        else:
            body = {"measurements": [list(b) for b, n in cs for _ in range(n)]}
        return {"Body": io.BytesIO(json.dumps(body).encode())}


class Azure(Service):
    target = "ionq.simulator"

    def backend(self, runs, retrieve=None, **kw):
        from projectq.backends import AzureQuantumBackend
        svc = self
        b = AzureQuantumBackend(num_runs=runs, workspace=mock.MagicMock(), target_name=self.target, retrieve_execution=retrieve,
                                num_retries=kw.pop("num_retries", 3), interval=1, **kw)
        self.device = b._target_name if hasattr(b, "_target_name") else self.target
        b._target_factory = lambda workspace, target_name, provider_id: _Target(svc, target_name, provider_id)
        return b

    def install(self, st):
        pass


class _Target:
    def __init__(self, svc, name, provider):
        self.s, self.name, self.provider = svc, name, provider
        self.workspace = self

    @property
    def current_availability(self):
        return "Unavailable" if self.s.fail in ("offline", "small") else "Available"

    average_queue_time = 1

    def submit(self, *a, **kw):
        import azure.quantum.target as t
        real = t.IonQ if self.provider == "ionq" else t.Quantinuum
        try:
            ba = inspect.signature(real.submit).bind(None, *a, **kw)
        except TypeError as e:
            raise BadJob("the target does not accept this call") from e
        if self.s.fail == "http":
            raise RuntimeError("service refused")
        kw = dict(ba.arguments)
        kw.update(kw.pop("kwargs", {}))
        self.s.submitted += 1
        job = Job()
        job.device = self.name
        job.shots = kw.get("num_shots", kw.get("shots"))
        job.meta = kw.get("metadata")
        circ = kw.get("circuit", kw.get("input_data"))
        if self.provider == "ionq":
            if set(circ) != {"qubits", "circuit"}:
                raise BadJob("malformed job %s" % (circ,))
            parse_ionq(json.loads(json.dumps(circ)), job)
            job.measures = None
        else:
            job.measures = []
            parse_qasm(circ, job)
        self.s.new_job(job)
        return _AzJob(self.s, job, "job%d" % self.s.submitted)

    def get_job(self, job_id):
        self.s.asked.append((job_id, self.name))
        return _AzJob(self.s, self.s.jobs[-1] if self.s.jobs else self.s.stored, job_id)

    def estimate_cost(self, **kw):
        return None


class _AzJob:
    def __init__(self, svc, job, ident):
        self.s, self.job, self.id = svc, job, ident

    def get_results(self, timeout_secs=None):
        if self.s.fail == "never":
            raise TimeoutError("timeout")
        if self.s.fail == "failed":
            raise RuntimeError("Cannot retrieve results as job execution failed")
        cs = self.s.counts(self.job)
        tot = sum(n for _, n in cs)
        if self.s.provider == "ionq":
            h = {}
            for bits, n in cs:
                k = str(sum(b << i for i, b in enumerate(bits)))
                h[k] = h.get(k, 0) + n / tot
            return {"histogram": h}
        out = []
        for bits, n in cs:
            c = ["0"] * self.job.nc
            for q, b in self.job.measures:
                c[b] = str(bits[q])
            out += ["".join(c)] * n
        return {"c": out}


class AzureIonQ(Azure):
    name = "azure-ionq"
    provider = "ionq"
    target = "ionq.simulator"


class AzureQuantinuum(Azure):
    name = "azure-quantinuum"
    provider = "quantinuum"
    target = "quantinuum.sim.h1-1e"


SERVICES = {c.name: c for c in (IBM, AQT, IonQ, Braket, AzureIonQ, AzureQuantinuum)}


def perm_mapper(places):
    """A mapper placing the qubits, in order of allocation, on the given physical qubits (each used once)."""
    from projectq.cengines import BasicMapperEngine
    from projectq.ops import Allocate, Deallocate

    class PermMapper(BasicMapperEngine):
        def __init__(self):
            super().__init__()
            self.current_mapping = {}
            self.free = list(places)
            self.freed = []

        def receive(self, command_list):
            for cmd in command_list:
                if cmd.gate == Allocate:
                    m = self.current_mapping
                    m[cmd.qubits[0][0].id] = self.free.pop(0)
                    self.current_mapping = m
                self._send_cmd_with_mapped_ids(cmd)
                if cmd.gate == Deallocate:
                    m = self.current_mapping
                    self.freed.append(m.pop(cmd.qubits[0][0].id))
                    self.current_mapping = m
    return PermMapper()
