"""P25: a job is submitted at most once, polled until it ends, and ends in its own result or the documented error."""
import contextlib
import io
import json
import random
import signal
import time
from fractions import Fraction
from unittest import mock
from urllib.parse import parse_qs, urlsplit

from hypothesis import strategies as st

from vf.cloud import NoCalls, reply
from vf.core import Test, Violation

ASSUMPTIONS = ["services are stand-ins for the HTTP session, boto3 and the Azure target; sleeping is recorded, not done",
               "states a job may pass through before it ends: IBM VALIDATING, VALIDATED, QUEUED, RUNNING; AQT queued, running; "
               "IonQ ready, submitted, running; Braket CREATED, QUEUED, RUNNING",
               "a malformed reply may end in any error or in the empty result, never in a result"]

RUNNING = {"ibm": ["VALIDATING", "VALIDATED", "QUEUED", "RUNNING"], "aqt": ["queued", "running"], "ionq": ["ready", "submitted", "running"],
           "aws": ["CREATED", "QUEUED", "RUNNING"], "azure": ["Waiting", "Executing"]}
DONE = {"ibm": "COMPLETED", "aqt": "finished", "ionq": "completed", "aws": "COMPLETED", "azure": "Succeeded"}
FAILED = {"ibm": ["ERROR_RUNNING_JOB", "ERROR_VALIDATING_JOB", "CANCELLED", "TERMINATED"], "aqt": ["error", "invalid", "cancelled"],
          "ionq": ["failed", "canceled"], "aws": ["FAILED", "CANCELLING", "CANCELLED"], "azure": ["Failed"]}
STAGES = {"ibm": ["auth", "list", "submit", "upload", "confirm", "poll", "url", "fetch", "done"], "aqt": ["submit", "poll"],
          "ionq": ["list", "submit", "poll"], "aws": ["list", "device", "submit", "poll", "kind", "fetch"], "azure": ["submit", "poll"]}
SEND_ONLY = {"submit", "upload", "confirm", "device"}
HTTP = [400, 401, 403, 404, 429, 500, 503]
AWSERR = ["AccessDeniedException", "DeviceOfflineException", "InternalServiceException", "ServiceQuotaExceededException",
          "ValidationException", "ThrottlingException", "ResourceNotFoundException"]
DEVICE = {"ibm": ["ibmq_essex", "ibmqx4"], "aqt": ["aqt_simulator", "aqt_device"], "ionq": ["ionq_harmony"], "aws": ["SV1", "Aspen-8"],
          "azure": ["ionq.simulator", "quantinuum.sim.h1-1e"]}


@st.composite
def results(draw, svc, device):
    ks = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True))
    cs = [draw(st.integers(1, 30)) for _ in ks]
    if svc == "ibm":
        return {"data": {"counts": {hex(k): c for k, c in zip(ks, cs)}}, "shots": sum(cs), "header": {"name": "circuit0"}}
    if svc == "aqt":
        return draw(st.permutations([k for k, c in zip(ks, cs) for _ in range(c)]))
    tot = sum(cs)
    if svc == "ionq":
        return {str(k): c / tot for k, c in zip(ks, cs)}
    if svc == "aws":
        if device == "SV1":
            return [[k & 1, k >> 1] for k, c in zip(ks, cs) for _ in range(c)]
        return {"%d%d" % (k & 1, k >> 1): c / tot for k, c in zip(ks, cs)}
    if device.startswith("ionq"):
        return {"histogram": {str(k): c / tot for k, c in zip(ks, cs)}}
    return {"c": [format(k, "02b") for k, c in zip(ks, cs) for _ in range(c)]}


@st.composite
def call(draw):
    svc = draw(st.sampled_from(list(RUNNING)))
    dev = draw(st.sampled_from(DEVICE[svc]))
    mode = draw(st.sampled_from(["send", "send", "retrieve"]))
    retries = draw(st.sampled_from([0, 1, 1, 2, 3, 4, 5, 8, 62, 125]))
    kind = draw(st.sampled_from(["good", "good", "good", "bad", "bad", "bad"]))
    n = draw(st.integers(0, max(0, min(retries, 125) - 1) if kind == "good" else retries + 2))
    polls = [draw(st.sampled_from(RUNNING[svc])) for _ in range(min(n, 6))]
    c = {"svc": svc, "device": dev, "mode": mode, "retries": retries, "polls": polls, "n": n, "end": "done", "fault": None, "gone": None,
         "intr": None, "online": True, "small": False, "interval": draw(st.sampled_from([1, 0.5, 3])), "verbose": draw(st.booleans()),
         "level": draw(st.sampled_from(["client", "client", "backend"])), "handler": draw(st.sampled_from(["default", "custom", "custom"])),
         "ask": draw(st.sampled_from([False, False, False, True])), "result": draw(results(svc, dev)), "u": draw(st.floats(0, 0.999))}
    if kind == "bad":
        what = draw(st.sampled_from(["fault", "fault", "fault", "failed", "failed", "never", "offline", "small", "gone", "intr", "rejected"]))
        if what == "fault":
            stage = draw(st.sampled_from([s for s in STAGES[svc] if mode == "send" or s not in SEND_ONLY]))
            if svc == "aws":
                f = draw(st.sampled_from(AWSERR + ["missing"]))
            elif svc == "azure":
                f = "raise"
            else:
                f = draw(st.sampled_from(HTTP + ["conn", "timeout", "text", "missing", "empty"] + ["400text"] * 3 * (svc == "ionq" and stage == "submit")))
            if f in ("text", "missing", "empty") and (stage in ("upload", "confirm") or (svc, stage) == ("ionq", "list")):
                f = 500                     # nothing in the body of these replies is needed
            if (svc, stage, f) == ("ibm", "list", "empty"):
                f = "missing"               # an empty collection is a list without devices
            c["fault"] = [stage, f]
            if stage not in ("auth", "list", "submit", "upload", "confirm", "device"):
                c["retries"] = max(1, retries)          # the fault must be reached
                c["n"] = n % c["retries"]
                c["polls"] = polls or [RUNNING[svc][0]]
        elif what == "failed":
            c["end"] = draw(st.sampled_from(FAILED[svc]))
        elif what == "never":
            c["end"] = None
        elif what == "offline":
            c["online"] = False
        elif what == "small":
            c["small"] = True
        elif what == "gone":
            c["gone"] = draw(st.integers(0, 3))
            c["end"] = draw(st.sampled_from([None, "done"]))
        elif what == "intr":
            c["intr"] = draw(st.integers(0, 3))
            c["end"] = draw(st.sampled_from([None, "done"]))
        else:
            c["fault"] = ["submit", "rejected"] if svc in ("aqt", "ionq") and mode == "send" else None
    return c


def cases():
    return st.fixed_dictionaries({"calls": st.lists(call(), min_size=1, max_size=3)})


# ------------------------------------------------------------------------------------------ the service

class Wire:
    """One service session following the script of one call."""

    def __init__(self, c, k):
        self.c = c
        self.id = {"ibm": "5f%dab" % k, "aqt": "aq-%d" % k, "ionq": "uu-%d" % k, "aws": "arn:aws:braket:us-west-1:12:quantum-task/t%d" % k,
                   "azure": "az-%d" % k}[c["svc"]]
        self.submitted = self.polled = self.lists = 0
        self.slept = []
        self.faulted = None
        self.bad = None

    def complain(self, msg):
        self.bad = self.bad or msg
        raise Violation(msg)

    def status(self):
        i = self.polled
        self.polled += 1
        if i < self.c["n"]:
            return self.c["polls"][i % len(self.c["polls"])]
        if self.c["end"] is None:
            return RUNNING[self.c["svc"]][-1]
        return DONE[self.c["svc"]] if self.c["end"] == "done" else self.c["end"]

    def present(self):
        return self.c["online"] and (self.c["gone"] is None or self.polled <= self.c["gone"])

    def sleep(self, t):
        self.slept.append(t)
        if self.c["intr"] is not None and self.c["intr"] == len(self.slept) - 1:
            signal.raise_signal(signal.SIGINT)
            self.complain("an interrupt while waiting is ignored")
        if len(self.slept) > 500:
            self.complain("never stops polling")

    # ---- HTTP
    def at(self, stage, good):
        """The reply of one exchange, or the scripted fault."""
        f = self.c["fault"]
        if f is None or f[0] != stage or stage == "poll" and self.polled - 1 < self.c["n"]:
            return good
        self.faulted = what = f[1]
        if isinstance(what, int):
            return reply(what, {"error": "E%d" % what, "message": "refused"})
        import requests
        if what == "conn":
            return requests.exceptions.ConnectionError("no route")
        if what == "timeout":
            return requests.exceptions.ReadTimeout("too slow")
        if what == "text":
            return reply(200, text="<html>gateway</html>")
        if what == "400text":
            return reply(400, text="<html>bad request</html>")
        if what == "rejected":
            if self.c["svc"] == "aqt":
                return reply(body={"status": "error", "id": self.id})
            return reply(body={"status": "failed", "id": self.id, "failure": {"code": "QuotaExceeded", "error": "no money"}})
        return reply(body={} if what == "empty" else {"unexpected": True})

    def send(self, prep, **kw):
        u = urlsplit(prep.url)
        body = prep.body.decode() if isinstance(prep.body, bytes) else prep.body
        r = getattr(self, self.c["svc"])(prep.method, u.scheme + "://" + u.netloc + u.path, parse_qs(u.query), body, prep.headers)
        if isinstance(r, Exception):
            raise r
        r.request, r.url = prep, prep.url
        return r

    def ibm(self, method, url, query, body, headers):
        c = self.c
        api = "https://api.quantum-computing.ibm.com/api/Network/ibm-q/Groups/open/Projects/main/"
        if url.endswith("/api/users/loginWithToken"):
            if json.loads(body) != {"apiToken": "tok"}:
                self.complain("authentication with %s" % body)
            return self.at("auth", reply(body={"id": "access"}))
        if url.startswith(api) and query.get("access_token") != ["access"]:
            self.complain("%s without the access token" % url)
        if method == "GET" and url == api + "devices/v/1":
            self.lists += 1
            devs = [("other", 50)] + [(c["device"], 1 if c["small"] else 2)] * self.present()
            return self.at("list", reply(body=[{"backend_name": d, "n_qubits": n, "coupling_map": [[0, 1]], "backend_version": "1"} for d, n in devs]))
        if method == "POST" and url == api + "Jobs":
            self.submitted += 1
            if json.loads(body)["backend"]["name"] != c["device"]:
                self.complain("job for another device")
            return self.at("submit", reply(body={"id": self.id, "objectStorageInfo": {"uploadUrl": "https://s3.example/put"}}))
        if method == "PUT" and url == "https://s3.example/put":
            return self.at("upload", reply(body={}))
        j = api + "Jobs/" + self.id
        if not url.startswith(j) and url != "https://s3.example/get":
            self.complain("asks for %s %s, the job is %s" % (method, url, self.id))
        if (method, url) == ("POST", j + "/jobDataUploaded"):
            return self.at("confirm", reply(body={}))
        if (method, url) == ("GET", j):
            s = self.status()
            return self.at("poll", reply(body={"status": s}))
        if (method, url) == ("GET", j + "/resultDownloadUrl"):
            return self.at("url", reply(body={"url": "https://s3.example/get"}))
        if (method, url) == ("GET", "https://s3.example/get"):
            return self.at("fetch", reply(body={"results": [c["result"]]}))
        if (method, url) == ("POST", j + "/resultDownloaded"):
            return self.at("done", reply(body={}))
        raise NoCalls(method + url)

    def aqt(self, method, url, query, body, headers):
        f = {k: v[0] for k, v in parse_qs(body).items()}
        if method != "PUT" or f.get("access_token") != "tok" or headers.get("Ocp-Apim-Subscription-Key") != "tok":
            self.complain("request without the access token")
        if url != "https://gateway.aqt.eu/marmot/" + {"aqt_simulator": "sim/", "aqt_device": "lint/"}[self.c["device"]]:
            self.complain("request to %s for device %s" % (url, self.c["device"]))
        if "data" in f:
            self.submitted += 1
            return self.at("submit", reply(body={"status": "queued", "id": self.id}))
        if f.get("id") != self.id:
            self.complain("asks for job %r, the job is %r" % (f.get("id"), self.id))
        s = self.status()
        return self.at("poll", reply(body={"status": s, "id": self.id, **({"samples": self.c["result"]} if s == "finished" else {})}))

    def ionq(self, method, url, query, body, headers):
        if headers.get("Authorization") != "apiKey tok":
            self.complain("request without the key")
        api = "https://api.ionq.co/v0.2/"
        if url == api + "backends":
            self.lists += 1
            devs = [("ionq_aria", 23)] + [(self.c["device"], 1 if self.c["small"] else 2)] * self.present()
            return self.at("list", reply(body=[{"backend": d, "qubits": n} for d, n in devs]))
        if method == "POST" and url == api + "jobs":
            self.submitted += 1
            self.meta = json.loads(body)
            if self.meta["target"] != self.c["device"]:
                self.complain("job for another device")
            return self.at("submit", reply(body={"id": self.id, "status": "ready"}))
        if (method, url) != ("GET", api + "jobs/" + self.id):
            self.complain("asks for %s %s, the job is %s" % (method, url, self.id))
        s = self.status()
        out = {"status": s, "id": self.id}
        if s == "completed":
            m = getattr(self, "meta", {"metadata": {"sdk": "ProjectQ", "meas_qubit_ids": "[0, 1]"}, "registers": {"meas_mapped": [0, 1]}})
            out.update(qubits=2, metadata=m["metadata"], registers=m["registers"], data={"registers": {"meas_mapped": self.c["result"]}})
        return self.at("poll", reply(body=out))

    # ---- boto3
    def boto(self, kind, region_name=None, **kw):
        if kw != {"aws_access_key_id": "a", "aws_secret_access_key": "b"}:
            self.complain("client with credentials %s" % kw)
        return Boto(self, kind, region_name)


def arn(dev):
    return "arn:aws:braket:::device/" + dev


class Boto:
    def __init__(self, w, kind, region):
        self.w, self.kind, self.region = w, kind, region

    def at(self, stage, good):
        f = self.w.c["fault"]
        if f is None or f[0] != stage or stage == "poll" and self.w.polled - 1 < self.w.c["n"]:
            return good
        self.w.faulted = f[1]
        if f[1] == "missing":
            return {"unexpected": True}
        import botocore.exceptions
        raise botocore.exceptions.ClientError({"Error": {"Code": f[1], "Message": "refused"}}, stage)

    def search_devices(self, filters):
        home = "us-west-1" if self.w.c["device"] == "Aspen-8" else "us-east-1"
        devs = [self.w.c["device"]] if self.region == home and self.w.present() else []
        return self.at("list", {"devices": [{"deviceName": d, "deviceType": self.type(d), "deviceArn": arn(d)} for d in devs]
                                + [{"deviceName": "annealer", "deviceType": "ANNEALER", "deviceArn": "x"}]})

    def type(self, dev):
        return "SIMULATOR" if dev == "SV1" else "QPU"

    def get_device(self, deviceArn):
        w = self.w
        if deviceArn != arn(w.c["device"]):
            w.complain("asks for device %s" % deviceArn)
        n = 1 if w.c["small"] else 2
        return self.at("kind" if w.polled else "device", {
            "deviceName": w.c["device"], "deviceType": self.type(w.c["device"]), "deviceCapabilities": json.dumps({
                "braketSchemaHeader": {"version": "1"}, "paradigm": {"qubitCount": n, "connectivity": {"connectivityGraph": {}}},
                "deviceParameters": {"properties": {"braketSchemaHeader": {"const": {"name": "p"}}},
                                     "definitions": {"GateModelParameters": {"properties": {"braketSchemaHeader": {"const": {"name": "g"}}}}}}})})

    def create_quantum_task(self, **kw):
        w = self.w
        w.submitted += 1
        home = "us-west-1" if w.c["device"] == "Aspen-8" else "us-east-1"
        if kw["deviceArn"] != arn(w.c["device"]) or self.region != home or (kw["outputS3Bucket"], kw["outputS3KeyPrefix"]) != ("bucket", "dir"):
            w.complain("job for another device, region or folder: %s %s" % (self.region, kw))
        return self.at("submit", {"quantumTaskArn": w.id})

    def get_quantum_task(self, quantumTaskArn):
        w = self.w
        if quantumTaskArn != w.id or self.region != "us-west-1":
            w.complain("asks for task %s in %s, the task is %s" % (quantumTaskArn, self.region, w.id))
        s = w.status()
        return self.at("poll", {"status": s, "outputS3Bucket": "bucket", "outputS3Directory": "dir/" + w.id, "deviceArn": arn(w.c["device"]),
                                **({"failureReason": "melted"} if s == "FAILED" else {})})

    def get_object(self, Bucket, Key):
        if (Bucket, Key) != ("bucket", "dir/%s/results.json" % self.w.id):
            self.w.complain("fetches %s %s" % (Bucket, Key))
        r = self.w.c["result"]
        return self.at("fetch", {"Body": io.BytesIO(json.dumps({"measurements" if isinstance(r, list) else "measurementProbabilities": r}).encode())})


class AzTarget:
    """Azure: the target and its job in one."""
    average_queue_time = 1

    def __init__(self, w):
        self.w, self.workspace, self.id = w, self, w.id

    @property
    def current_availability(self):
        return "Available" if self.w.present() else "Degraded"

    def at(self, stage):
        if self.w.c["fault"] and self.w.c["fault"][0] == stage:
            self.w.faulted = "raise"
            raise ConnectionError("no route")

    def submit(self, **kw):
        self.w.submitted += 1
        self.at("submit")
        return self

    def get_job(self, job_id):
        if job_id != self.w.id:
            self.w.complain("asks for job %s, the job is %s" % (job_id, self.w.id))
        return self

    def get_results(self, timeout_secs=None):
        c = self.w.c
        self.w.polled += 1
        self.at("poll")
        if timeout_secs != c["retries"] * c["interval"]:
            self.w.complain("waits for %r seconds, asked for %d retries every %r" % (timeout_secs, c["retries"], c["interval"]))
        if c["end"] is None or c["n"] >= c["retries"]:
            raise TimeoutError("timeout")
        if c["end"] != "done":
            raise RuntimeError("Cannot retrieve results as job execution failed: Failed")
        return c["result"]


# ------------------------------------------------------------------------------------------ what must happen

def expect(c):
    """(outcome, polls, submissions)"""
    svc, send, f = c["svc"], c["mode"] == "send", c["fault"]

    def bad(stage):
        return f is not None and f[0] == stage
    stages = STAGES[svc]
    if bad("auth"):
        return "fault", 0, 0
    if "list" in stages and (send or svc != "aws"):
        if bad("list"):
            return "fault", 0, 0
    known = c["online"] and (c["gone"] is None or c["gone"] >= 0)
    if svc == "aqt":
        known = True
    if send:
        if bad("device") and known:
            return "fault", 0, 0
        if not known:
            return "offline", 0, 0
        if c["small"] and svc != "azure" and svc != "aqt":
            return "small", 0, 0
        for s in ("submit", "upload", "confirm"):
            if bad(s):
                return ("rejected" if f[1] == "rejected" else "fault"), 0, 1
    sub = 1 if send else 0
    if svc == "azure":
        if bad("poll"):
            return "fault", 1, sub
        if c["end"] is None or c["n"] >= c["retries"]:
            return "timeout", 1, sub
        return ("result" if c["end"] == "done" else "failed"), 1, sub
    for i in range(c["retries"]):
        if i >= c["n"]:
            if bad("poll"):
                return "fault", i + 1, sub
            if c["end"] == "done":
                if any(bad(s) for s in ("url", "fetch", "kind")):
                    return "fault", i + 1, sub
                if bad("done"):
                    return "confirm", i + 1, sub
                return "result", i + 1, sub
            if c["end"] is not None:
                return "failed", i + 1, sub
        if c["intr"] == i:
            return "interrupted", i + 1, sub
        if svc in ("ibm", "ionq") and known and i % 60 == 0 and c["gone"] is not None and i + 1 > c["gone"]:
            return "gone", i + 1, sub
    return "timeout", c["retries"], sub


def good_result(c, w):
    svc, r = c["svc"], c["result"]
    if svc == "ionq":
        m = getattr(w, "meta", None)
        return {"nq": 2, "output_probs": r, "meas_mapped": m["registers"]["meas_mapped"] if m else [0, 1],
                "meas_qubit_ids": json.loads(m["metadata"]["meas_qubit_ids"]) if m else [0, 1]}
    if svc == "aws" and isinstance(r, list):
        out = {}
        for x in r:
            k = "%d%d" % tuple(x)
            out[k] = out.get(k, Fraction(0)) + Fraction(1, len(r))
        return {k: float(v) for k, v in out.items()}
    return r


def close(svc, a, b):
    if svc == "aws" and isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-12 for k in a)
    return a == b


def client_call(c, w):
    cred = {"AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_KEY": "b"}
    tok, cred = (None, None) if c["ask"] else ("tok", cred)
    kw = dict(num_retries=c["retries"], interval=c["interval"], verbose=c["verbose"])
    svc, dev = c["svc"], c["device"]
    if svc == "ibm":
        from projectq.backends._ibm import _ibm_http_client as m
        if c["mode"] == "retrieve":
            return m.retrieve(dev, tok, w.id, **kw)
        return m.send({"json": [{"qubits": [0], "name": "u2", "params": [0, 3.14]}], "nq": 2, "shots": 10, "maxCredits": 10,
                       "backend": {"name": dev}}, device=dev, token=tok, **kw)
    if svc == "aqt":
        from projectq.backends._aqt import _aqt_http_client as m
        if c["mode"] == "retrieve":
            return m.retrieve(dev, tok, w.id, **kw)
        return m.send({"circuit": '[["X", 0.5, [0]]]', "nq": 2, "shots": 10, "backend": {"name": dev}}, device=dev, token=tok, **kw)
    if svc == "ionq":
        from projectq.backends._ionq import _ionq_http_client as m
        if c["mode"] == "retrieve":
            return m.retrieve(dev, tok, w.id, **kw)
        return m.send({"circuit": [{"gate": "h", "targets": [0]}], "nq": 2, "shots": 10, "meas_mapped": [1, 0], "meas_qubit_ids": [4, 7]},
                      device=dev, token=tok, **kw)
    if svc == "aws":
        from projectq.backends._awsbraket import _awsbraket_boto3_client as m
        if c["mode"] == "retrieve":
            return m.retrieve(cred, w.id, **kw)
        return m.send({"circuit": '{"instructions": []}', "nq": 2, "shots": 10, "backend": {"name": dev}}, dev, cred, ["bucket", "dir"], **kw)
    from projectq.backends._azure import _azure_quantum_client as m
    if c["mode"] == "retrieve":
        return m.retrieve(w.id, AzTarget(w), **kw)
    return m.send({"qubits": 2, "circuit": []}, 10, AzTarget(w), **kw)


class Nothing(Exception):
    """The backend ended without reporting an error."""


def backend_call(c, w):
    """One measured two-qubit program; returns the bits the two qubits received."""
    from projectq import MainEngine
    from projectq import backends as b
    from projectq.cengines import BasicMapperEngine
    from projectq.ops import H, Measure, Rx
    kw = dict(num_runs=10, num_retries=c["retries"], interval=c["interval"], verbose=c["verbose"], retrieve_execution=w.id if c["mode"] == "retrieve" else None)
    svc, dev = c["svc"], c["device"]
    if svc == "aws":
        be = b.AWSBraketBackend(use_hardware=dev != "SV1", device=dev, credentials={"AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_KEY": "b"},
                                s3_folder=["bucket", "dir"], **kw)
    elif svc == "azure":
        be = b.AzureQuantumBackend(use_hardware=True, workspace=mock.MagicMock(), target_name=dev, **kw)
        be._target_factory = lambda workspace, target_name, provider_id: AzTarget(w)
    else:
        be = {"ibm": b.IBMBackend, "aqt": b.AQTBackend, "ionq": b.IonQBackend}[svc](use_hardware=True, device=dev, token="tok", **kw)
    mapper = BasicMapperEngine()
    eng = MainEngine(be, [mapper], verbose=not c["verbose"])
    try:
        mapper.current_mapping = {0: 0, 1: 1}
        q = eng.allocate_qureg(2)
        (Rx(0.3) if svc == "aqt" else H) | q[0]
        (Rx(0.3) if svc == "aqt" else H) | q[1]
        Measure | q[0]
        Measure | q[1]
        try:
            with mock.patch.object(random, "random", lambda: c["u"]):
                eng.flush()
        except BaseException:
            for x in q:
                try:
                    v = int(x)
                except Exception:  # noqa: BLE001
                    continue
                w.complain("the job gave no result but a qubit reads %d" % v)
            try:
                p = be.get_probabilities(q)
            except Exception:  # noqa: BLE001
                p = None
            if p:
                w.complain("the job gave no result but get_probabilities gives %s" % p)
            raise
        return int(q[0]) + 2 * int(q[1])
    finally:
        eng.next_engine.receive = lambda cl: None
        be.receive = lambda cl: None
        eng.active_qubits.clear()


def outcomes(c):
    """Basis states (bit i = qubit i) in the scripted result."""
    svc, r = c["svc"], c["result"]
    if svc == "ibm":
        return {int(k, 0) for k in r["data"]["counts"]}
    if svc == "aqt":
        return set(r)
    if svc == "ionq":
        return {int(k) for k in r}
    if svc == "aws":
        return {x[0] + 2 * x[1] for x in r} if isinstance(r, list) else {int(k[0]) + 2 * int(k[1]) for k in r}
    if "histogram" in r:
        return {int(k) for k in r["histogram"]}
    return {int(k[0]) + 2 * int(k[1]) for k in r["c"]}


def custom_handler(*_):
    raise KeyboardInterrupt


def run_call(c, k, ev):
    import boto3
    import requests.sessions
    w = Wire(c, k)
    asked = []
    backend = c["level"] == "backend"
    if backend:
        c = w.c = dict(c, ask=False)

    def ask(prompt="", **_):
        asked.append(prompt)
        return "a" if "ACCESS_KEY" in prompt else "b" if "SECRET" in prompt else "tok"
    handler = signal.default_int_handler if c["handler"] == "default" else custom_handler
    real = signal.signal(signal.SIGINT, handler)
    kind, val = "?", None
    try:
        with contextlib.ExitStack() as s:
            s.enter_context(mock.patch.object(time, "sleep", w.sleep))
            s.enter_context(mock.patch("getpass.getpass", ask))
            s.enter_context(mock.patch("builtins.input", ask))
            s.enter_context(mock.patch.object(requests.sessions.Session, "send", lambda ses, prep, **kw: w.send(prep, **kw)))
            s.enter_context(mock.patch.object(boto3, "client", w.boto))
            s.enter_context(contextlib.redirect_stdout(io.StringIO()))
            try:
                val = (backend_call if backend else client_call)(c, w)
                kind = "value"
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                kind, val = "error", e
            except KeyboardInterrupt as e:
                if type(e) is not KeyboardInterrupt:
                    raise
                kind, val = "error", e
        after = signal.getsignal(signal.SIGINT)
    finally:
        signal.signal(signal.SIGINT, real)
    want, polls, subs = expect(c)
    what = "%s %s on %s, script %s" % (c["svc"], c["mode"], c["device"], {x: c[x] for x in (
        "retries", "n", "polls", "end", "fault", "gone", "intr", "online", "small", "level") if c[x] not in (None, [])})
    if w.bad:
        raise Violation("%s: %s" % (what, w.bad))
    if after is not handler:
        raise Violation("%s: the SIGINT handler is %r afterwards, was %r" % (what, after, handler))
    if w.submitted != subs:
        raise Violation("%s: %d submissions" % (what, w.submitted))
    if w.polled != polls:
        raise Violation("%s: %d polls, expected %d" % (what, w.polled, polls))
    if any(t != c["interval"] for t in w.slept) or c["svc"] != "azure" and len(w.slept) < polls - 1:
        raise Violation("%s: slept %s, the interval is %r" % (what, w.slept, c["interval"]))
    if c["ask"] and c["svc"] != "azure" and not asked:
        raise Violation("%s: no token was given and none was asked for" % what)
    judge(c, w, want, kind, val, what, backend)
    ev.label("%s: %s" % (c["svc"], want))
    ev.label("backend", backend)
    return want


def judge(c, w, want, kind, val, what, backend):
    from projectq.backends import _exceptions as x
    text = "%s %s" % (type(val).__name__, val) if kind == "error" else repr(val)

    def wrong(expected):
        raise Violation("%s: expected %s, got %s" % (what, expected, text))

    def error(cls, *parts):
        if kind != "error" or not isinstance(val, cls) or not all(p in str(val) for p in parts):
            wrong("%s mentioning %s" % (cls.__name__, parts))
    if want == "result" or want == "confirm" and kind == "value" and val is not None:
        if kind != "value":
            wrong("the result")
        if backend:
            if val not in outcomes(c):
                wrong("one of the outcomes %s" % outcomes(c))
        elif not close(c["svc"], val, good_result(c, w)):
            wrong("the result %s" % (good_result(c, w),))
    elif want == "confirm":
        if kind == "value" and backend:
            wrong("an error")
    elif want == "offline" and c["mode"] == "send" or want == "gone":
        error(x.DeviceOfflineError, *([w.id] if want == "gone" else []))
    elif want == "small":
        error(x.DeviceTooSmall)
    elif want == "rejected":
        error(x.JobSubmissionError if c["svc"] == "ionq" else Exception, *(["QuotaExceeded", "no money"] if c["svc"] == "ionq" else []))
    elif want == "failed":
        error(Exception, c["end"], *(["melted"] if c["end"] == "FAILED" else []))
    elif want == "interrupted":
        error(Exception, w.id)
    elif want == "timeout":
        error(Exception if c["svc"] == "ibm" else x.RequestTimeoutError, w.id)
    else:
        fault = c["fault"][1]
        if kind == "value" and (val is not None or backend):
            wrong("an error or nothing")
        if c["svc"] == "aws" and fault != "missing":
            import botocore.exceptions
            error(botocore.exceptions.ClientError, fault)
        elif c["svc"] == "azure":
            error(ConnectionError)
        elif c["mode"] == "retrieve" and (isinstance(fault, int) or fault in ("conn", "timeout")):
            import requests
            error(requests.exceptions.HTTPError if isinstance(fault, int) else requests.exceptions.RequestException, *([str(fault)] if isinstance(fault, int) else []))
        elif c["svc"] == "ionq" and c["mode"] == "send" and fault in (400, 401, 403, "400text"):
            if fault in (400, "400text"):
                error(x.JobSubmissionError, *(["E400", "refused"] if fault == 400 else []))
            else:
                import requests
                error(requests.exceptions.HTTPError, str(fault))
        elif c["mode"] == "send" and not backend and (isinstance(fault, int) or fault in ("conn", "timeout")):
            if kind != "value" or val is not None:
                wrong("the empty result")


def run(case, ev):
    seen = [run_call(c, k, ev) for k, c in enumerate(case["calls"])]
    ev.mark(any(s != "result" for s in seen) or any(c["n"] for c in case["calls"]))
    ev.label("several calls", len(seen) > 1)


TESTS = [
    Test("calls", cases, run, quick=6000, rule="a call that does not end in a result, or one that had to wait for it"),
]
