"""bin/check PID [--tier quick|thorough] [--replay FILE] [--only TEST] [--scale X]"""
import argparse
import atexit
import collections
import contextlib
import gc
import hashlib
import importlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

from . import boot

CASE_CPU_S = 40.0          # one case; cases on the present tree need well under two seconds
SHRINK_S = {"quick": 40.0, "thorough": 90.0}
SOFT_S = {"quick": 330.0, "thorough": 1500.0}
NPROC = 8
OUT = sys.stdout


def _say(*a):
    print(*a, file=OUT, flush=True)


def quiet_fds():
    """Engines collected between cases may print while shutting down: keep that off the check's output."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("VF_DEBUG"):
        os.dup2(fd, 2)
    os.close(fd)


class Harness:
    def __init__(self, pid, tier, seed, scratch):
        from . import core
        self.core = core
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.mod = importlib.import_module("props." + pid.lower())
        self.tests = {t.name: t for t in self.mod.TESTS}
        self.pstart = time.monotonic()
        self.known = [[k["test"], json.dumps(k["case"], sort_keys=True)] for k in load_known(pid)]

    # ---------------------------------------------------------------- one case
    def run_case(self, test, case):
        """Return (verdict, message, ev): verdict in ok, skip, violation, harness."""
        core = self.core
        ev = core.Ev()
        sink = io.StringIO()
        os.chdir(self.workdir)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            with contextlib.redirect_stdout(sink):
                test.run(case, ev)
            return "ok", "", ev
        except core.Skip as e:
            ev.label("skip: %s" % e)
            return "skip", str(e), ev
        except core.Violation as e:
            return "violation", str(e), ev
        except core.CpuLimit:
            return "violation", "the code under test did not finish (%.0f s of processor time)" % CASE_CPU_S, ev
        except core.StopShard:
            raise
        except Exception as e:  # noqa: BLE001
            tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-14:])
            if core.in_projectq(e):
                return "violation", "unexpected %s: %s\n%s" % (type(e).__name__, e, tb), ev
            return "harness", "%s: %s\n%s" % (type(e).__name__, e, tb), ev
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            atexit._clear()   # each MainEngine registers an exit handler
            if getattr(self.mod, "GC", True):
                self._gcn = getattr(self, "_gcn", 0) + 1
                if self._gcn % 20 == 0:
                    gc.collect()

    # ---------------------------------------------------------------- one shard (in a child process)
    def shard(self, test, shard, n, deadline, outfile):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import Verbosity
        core = self.core
        self.workdir = tempfile.mkdtemp(prefix="w", dir=self.scratch)
        casefile = outfile + ".case"
        stopflag = os.path.join(self.scratch, "STOP")
        st = dict(evaluations=0, skipped=0, nontrivial=0, hashes=set(), samples=[], labels=collections.Counter(),
                  fail=None, harness=None, cut=False)
        first_fail = [None]
        shrink_s = SHRINK_S[self.tier]

        def vt(signum, frame):
            raise core.CpuLimit()

        signal.signal(signal.SIGVTALRM, vt)

        def body(case):
            if first_fail[0] is not None and time.monotonic() - first_fail[0] > shrink_s:
                return
            if first_fail[0] is None and (time.monotonic() > deadline or os.path.exists(stopflag)):
                st["cut"] = True
                raise core.StopShard()
            text = json.dumps(case, sort_keys=True)
            with open(casefile, "w") as f:
                f.write(text)
            verdict, msg, ev = self.run_case(test, json.loads(text))
            if verdict == "violation" and [test.name, text] in self.known:
                verdict = "skip"        # listed in known_findings.json, reported as such by the parent
            if first_fail[0] is None:
                st["evaluations"] += 1
                for l in ev.labels:
                    st["labels"][l] += 1
                if verdict == "skip":
                    st["skipped"] += 1
                elif ev.nontrivial:
                    h = hashlib.sha1(text.encode()).hexdigest()[:16]
                    if h not in st["hashes"]:
                        st["hashes"].add(h)
                        st["nontrivial"] += 1
                        if len(st["samples"]) < 2 and len(st["hashes"]) % 7 == 1:
                            st["samples"].append(text if len(text) < 1500 else text[:1500] + "...")
            if verdict == "harness":
                st["harness"] = {"test": test.name, "case": case, "message": msg}
                raise core.StopShard()
            if verdict == "violation":
                if st["fail"] is None or len(text) <= st["fail"]["size"]:
                    st["fail"] = {"test": test.name, "case": json.loads(text), "message": msg, "size": len(text)}
                if first_fail[0] is None:
                    first_fail[0] = time.monotonic()
                raise core.Violation("failed")

        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                if shard == 0 and test.fixed:
                    for case in test.fixed():
                        body(case)
                if test.strategy is not None and n > 0:
                    sd = (self.seed * 1000003 + shard * 7919 + zlib.crc32(test.name.encode())) & 0x7FFFFFFF

                    @hypothesis.seed(sd)
                    @settings(max_examples=n, deadline=None, database=None, verbosity=Verbosity.quiet,
                              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                              suppress_health_check=list(HealthCheck))
                    @given(test.strategy())
                    def go(case):
                        body(case)

                    go()
        except core.StopShard:
            pass
        except core.Violation:
            pass
        except Exception as e:  # noqa: BLE001   (hypothesis' own Flaky etc. after the shrink limit)
            if st["fail"] is None and st["harness"] is None:
                st["harness"] = {"test": test.name, "case": None, "message": "".join(
                    traceback.format_exception(type(e), e, e.__traceback__)[-12:])}
        st["hashes"] = sorted(st["hashes"])
        if st["fail"] is not None:
            open(stopflag, "w").close()
        with open(outfile + ".tmp", "w") as f:
            json.dump(st, f)
        os.rename(outfile + ".tmp", outfile)

    # ---------------------------------------------------------------- all shards
    def run_all(self, only=None, scale=1.0):
        tasks = []
        for t in self.tests.values():
            if only and t.name != only:
                continue
            n = int((t.quick if self.tier == "quick" else t.thorough) * scale)
            k = max(1, min(NPROC, n // (t.chunk or 40)))
            for s in range(k):
                tasks.append((t, s, n // k + (1 if s < n % k else 0)))
        deadline = self.pstart + SOFT_S[self.tier]
        if any(t.kernel == "portable" for t, _, _ in tasks):
            try:
                boot.build_portable(self.scratch)
            except RuntimeError as e:
                _say("left out the portable kernel: %s" % e)
                tasks = [x for x in tasks if x[0].kernel != "portable"]
        # first shard of every test first, so that a failing test stops the run early
        tasks.sort(key=lambda x: (x[1],))
        running, done = {}, []
        i = 0
        while i < len(tasks) or running:
            while i < len(tasks) and len(running) < NPROC:
                if os.path.exists(os.path.join(self.scratch, "STOP")):
                    i = len(tasks)
                    break
                t, s, n = tasks[i]
                outfile = os.path.join(self.scratch, "task%d.json" % i)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        quiet_fds()
                        self.switch(t)
                        self.shard(t, s, n, deadline, outfile)
                        code = 0
                    except BaseException:  # noqa: BLE001
                        traceback.print_exc()
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = dict(test=t, out=outfile, beat=None, cpu=0.0)
                i += 1
            time.sleep(0.02)
            for pid in list(running):
                w = running[pid]
                p, status = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    self._watch(pid, w)
                    continue
                del running[pid]
                if os.path.exists(w["out"]):
                    done.append((w["test"], json.load(open(w["out"]))))
                else:
                    case = None
                    with contextlib.suppress(Exception):
                        case = json.load(open(w["out"] + ".case"))
                    why = w.get("why") or "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit"
                    st = dict(evaluations=1, skipped=0, nontrivial=0, hashes=[], samples=[], labels={}, fail=None,
                              harness=None, cut=False)
                    if os.WIFSIGNALED(status) and (w.get("why") or os.WTERMSIG(status) in (
                            signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)):
                        st["fail"] = {"test": w["test"].name, "case": case, "size": 0,
                                      "message": "the process running this case died: " + why}
                        open(os.path.join(self.scratch, "STOP"), "w").close()
                    else:
                        st["harness"] = {"test": w["test"].name, "case": case, "message": "worker died: " + why}
                    done.append((w["test"], st))
        return done

    def _watch(self, pid, w):
        """Kill a worker stuck inside one case in native code (where the timer's handler cannot run)."""
        now = time.monotonic()
        if now - w.get("last", 0) < 2:
            return
        w["last"] = now
        try:
            beat = os.stat(w["out"] + ".case").st_mtime_ns
            fields = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
            cpu = (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return
        if beat != w["beat"]:
            w["beat"], w["cpu"] = beat, cpu
        elif cpu - w["cpu"] > 3 * CASE_CPU_S:
            w["why"] = "no end after %.0f s of processor time" % (cpu - w["cpu"])
            os.kill(pid, signal.SIGKILL)

    @staticmethod
    def switch(test):
        """In a child: use the kernel the test asks for."""
        if test.kernel == "py":
            boot.switch_to_pysim()
        elif test.kernel == "portable":
            boot.switch_to_portable()

    def fork_case(self, test, case):
        """Run one case in a child (it may crash); return (verdict, message)."""
        if test.kernel == "portable":
            boot.build_portable(self.scratch)
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                quiet_fds()
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                self.switch(test)
                self.workdir = tempfile.mkdtemp(prefix="w", dir=self.scratch)

                def vt(signum, frame):
                    raise self.core.CpuLimit()

                signal.signal(signal.SIGVTALRM, vt)
                verdict, msg, _ = self.run_case(test, case)
                os.write(wfd, json.dumps([verdict, msg[:30000]]).encode())
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if data:
            return json.loads(data)
        if os.WIFSIGNALED(status):
            return ["violation", "the process running this case died: signal %d" % os.WTERMSIG(status)]
        return ["harness", "child produced nothing"]


def load_known(pid):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid]


def load_regress(pid):
    d = os.path.join(boot.VERIF, "regress", pid)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                x = json.load(open(os.path.join(d, f)))
                out.append((f, x["test"], x["case"]))
    return out


def save_replay(pid, fail):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, test=fail["test"], case=fail["case"], message=fail["message"])
    name = "%s-%s-%s.json" % (pid, fail["test"], boot.digest(json.dumps(fail["case"], sort_keys=True)))
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-regress", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pid = a.pid.upper()
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        code = _run(a, pid, tier, seed, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _run(a, pid, tier, seed, scratch, t0):
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    boot.setup_paths()
    boot.use_cext(boot.ensure_cext(scratch))
    import warnings
    warnings.simplefilter("ignore")
    import projectq  # noqa: F401
    h = Harness(pid, tier, seed, scratch)

    if a.replay:
        r = json.load(open(a.replay))
        verdict, msg = h.fork_case(h.tests[r["test"]], r["case"])
        _say("%s %s: %s" % (r["test"], verdict, msg))
        if verdict == "violation":
            _say("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            return 1
        return 2 if verdict == "harness" else 0

    fails, harness = [], []
    regress_n = 0
    if not a.no_regress and not a.only:
        for fname, tname, case in load_regress(pid):
            regress_n += 1
            verdict, msg = h.fork_case(h.tests[tname], case)
            if verdict == "violation":
                fails.append({"test": tname, "case": case, "message": msg, "size": 0})
            elif verdict == "harness":
                harness.append({"test": tname, "case": case, "message": msg})
    known_n = 0
    for k in load_known(pid):
        known_n += 1
        verdict, msg = h.fork_case(h.tests[k["test"]], k["case"])
        if verdict == "violation":
            _say("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        elif verdict == "harness":
            harness.append({"test": k["test"], "case": k["case"], "message": msg})
    done = [] if fails else h.run_all(a.only, a.scale)

    per, hashes, samples = {}, {}, []
    cut = False
    for t, st in done:
        p = per.setdefault(t.name, dict(evaluations=0, skipped=0, nontrivial=0, labels=collections.Counter()))
        p["evaluations"] += st["evaluations"]
        p["skipped"] += st["skipped"]
        for k, v in st["labels"].items():
            p["labels"][k] += v
        hs = hashes.setdefault(t.name, set())
        hs.update(st["hashes"])
        if len([s for s in samples if s["test"] == t.name]) < 3:
            samples += [{"test": t.name, "case": s} for s in st["samples"][:1]]
        cut = cut or st["cut"]
        if st["fail"]:
            fails.append(st["fail"])
        if st["harness"]:
            harness.append(st["harness"])
    for name, hs in hashes.items():
        per[name]["nontrivial"] = len(hs)
        per[name]["labels"] = dict(per[name]["labels"].most_common(40))
    coverage = dict(
        evaluations=sum(p["evaluations"] for p in per.values()) + regress_n,
        distinct_nontrivial=sum(p["nontrivial"] for p in per.values()),
        rule=" | ".join("%s: %s" % (t.name, t.rule) for t in h.tests.values()),
        samples=samples[:12], per_test=per, regression_cases=regress_n, known_findings=known_n,
        cut_by_deadline=cut)
    evidence = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=coverage,
                    assumptions=list(getattr(h.mod, "ASSUMPTIONS", [])), wall_s=round(time.monotonic() - t0, 2),
                    violations=len(fails))
    if not a.only:
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(boot.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for name, p in per.items():
        _say("%-28s cases=%d nontrivial=%d skipped=%d" % (name, p["evaluations"], p["nontrivial"], p["skipped"]))
        if os.environ.get("VF_LABELS"):
            for l, c in p["labels"].items():
                _say("      %6d %s" % (c, l))
    _say("%s %s: %d cases, %d distinct non-trivial, %.1f s%s" % (
        pid, tier, coverage["evaluations"], coverage["distinct_nontrivial"], evidence["wall_s"],
        " (cut by deadline)" if cut else ""))
    if fails:
        seen = set()
        for fl in sorted(fails, key=lambda f: f["size"]):
            if fl["test"] in seen:
                continue
            seen.add(fl["test"])
            path = save_replay(pid, fl)
            _say("--- %s\n%s\ncase: %s" % (fl["test"], fl["message"], json.dumps(fl["case"])[:3000]))
            _say("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if harness:
        for x in harness[:1 if not os.environ.get('VF_DEBUG') else 5]:
            _say("HARNESS ERROR in %s: %s\ncase: %s" % (x["test"], x["message"], json.dumps(x["case"])[:2000]))
        return 2
    return 0


if __name__ == "__main__":
    main()
