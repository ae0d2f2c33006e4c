"""Plant a bug: python3 tools/plant.py SPEC.py ...  (development only; no check reads this or seeded/)

SPEC.py defines ID, PROPERTY, SUBS = [(file, old, new), ...], NEEDS, BREAKS, DEMO (python source).
Verifies in a scratch copy: tests pass with the change, demo 0 without and nonzero with it; then writes seeded/ID.
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd /repo after the build
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, env=None):
    e = dict(os.environ, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=cwd, MPLBACKEND="Agg")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True)


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    pid, work = ns["ID"], "/tmp/plant.%s" % ns["ID"]
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", work])
    try:
        d = os.path.join(V, "seeded", pid)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % d, work)
        base = sh("git show c4354b1:%s" % "x", work)  # noqa: F841
        cxx = False
        for f, old, new in ns["SUBS"]:
            s = open(os.path.join(work, f)).read()
            if s.count(old) != 1:
                print(pid, "FAIL: text occurs %d times in %s" % (s.count(old), f))
                return False
            open(os.path.join(work, f), "w").write(s.replace(old, new))
            cxx |= f.endswith(("pp", ".h"))
        diff = sh("git diff", work).stdout
        # lines taken away must be lines of the original repository
        for f, _, _ in ns["SUBS"]:
            orig = sh("git show c4354b1:" + f, work).stdout.splitlines()
            gone = [x[1:] for x in sh("git diff -U0 -- " + f, work).stdout.splitlines()
                    if x.startswith("-") and not x.startswith("---")]
            if any(x not in orig for x in gone):
                print(pid, "FAIL: changes lines which are not original", [x for x in gone if x not in orig])
                return False
        if cxx:
            b = sh("rm -f projectq/backends/_sim/_cppsim*.so; SETUPTOOLS_SCM_PRETEND_VERSION=0.8.0 PROJECTQ_CI_BUILD=1 "
                   "PROJECTQ_DISABLE_ARCH_NATIVE=1 PIP_NO_INDEX=1 /opt/venv/bin/python setup.py build_ext --inplace --force",
                   work)
            if b.returncode:
                print(pid, "FAIL: does not build", b.stderr[-800:])
                return False
        r1 = sh("bash %s/demo.sh" % d, work)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider projectq", work)
        last = t.stdout.strip().splitlines()[-1]
        where = sh("/opt/venv/bin/python -c 'import projectq; print(projectq.__file__)'", work).stdout
        ok = r0.returncode == 0 and r1.returncode != 0 and "1315 passed" in last and "failed" not in last and work in where
        print(pid, "ok" if ok else "FAIL", "clean", r0.returncode, "patched", r1.returncode, last)
        if not ok:
            print(r0.stderr[-600:] if r0.returncode else "", r1.stdout[-300:], r1.stderr[-300:])
            print("\n".join(x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:1500])
            shutil.rmtree(d)
            return False
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(plant, sys.argv[1:]))
