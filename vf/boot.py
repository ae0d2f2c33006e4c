"""Process set-up: import paths, hypothesis, and a current build of the C++ kernel of /repo's tree."""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CEXT_NAME = "projectq.backends._sim._cppsim"


def setup_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        # the project's interpreter has no hypothesis: take it (only what is missing) from the tooling venv
        for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
            if os.path.isdir(os.path.join(p, "hypothesis")):
                sys.path.append(p)
                break
        else:
            whl = "/opt/veriftools/wheels"
            dst = tempfile.mkdtemp(prefix="vfhyp")
            subprocess.run(
                [sys.executable, "-m", "pip", "install", "-q", "--no-index", "--find-links", whl, "--target", dst,
                 "hypothesis"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            sys.path.append(dst)
        import hypothesis  # noqa: F401


_HASH = r"""
cd /repo && { find projectq -type f \( -name '*.cpp' -o -name '*.cc' -o -name '*.c' -o -name '*.hpp' -o -name '*.h' \) -print0
printf '%s\0' setup.py setup.cfg pyproject.toml "$LIB" /opt/vp/build.sh; } | sort -z | xargs -0 sha256sum 2>&1 | sha256sum
"""


def ensure_cext(scratch):
    """Return None if /repo's built kernel is current, else compile the present sources into scratch."""
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    lib = "projectq/backends/_sim/_cppsim" + suffix
    full = os.path.join(REPO, lib)
    stamp = os.path.join(REPO, "build", "cext.stamp")
    if os.path.exists(full) and os.path.exists(stamp):
        env = dict(os.environ, LIB=lib, LANG="C.UTF-8")
        now = subprocess.run(["bash", "-c", _HASH], env=env, capture_output=True, text=True).stdout
        if now.strip() and now.strip() == open(stamp).read().strip():
            return None
    out = os.path.join(scratch, "_cppsim" + suffix)
    _compile(out, ["-mavx2", "-DINTRIN"])
    return out


def _compile(out, flags):
    src = os.path.join(REPO, "projectq/backends/_sim/_cppsim.cpp")
    import pybind11
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + pybind11.get_include(),
           "-I" + os.path.join(REPO, "projectq/backends/_sim")]
    cmd = ["g++", "-O2", "-std=c++14", "-fopenmp", "-ffast-math", "-fPIC", "-shared",
           "-fvisibility=hidden", "-DNDEBUG", *flags, *inc, src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise RuntimeError("the C++ kernel of the working tree does not compile")


_portable = None


def build_portable(scratch):
    """Compile the kernel as on a machine without vector instructions."""
    global _portable
    if _portable is None:
        os.makedirs(os.path.join(scratch, "portable"), exist_ok=True)
        out = os.path.join(scratch, "portable", "_cppsim" + sysconfig.get_config_var("EXT_SUFFIX"))
        # a build type of its own, so that the two kernels do not share one table of types
        _compile(out, ["-DNOINTRIN", '-DPYBIND11_COMPILER_TYPE="_portable"'])
        _portable = out
    return _portable


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == CEXT_NAME:
            loader = importlib.machinery.ExtensionFileLoader(name, self.path)
            return importlib.util.spec_from_file_location(name, self.path, loader=loader)
        return None


class _Block(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == CEXT_NAME:
            raise ImportError("compiled kernel hidden by the harness")
        return None


def switch_to_pysim():
    """Re-import projectq in this (child) process as on a system without the compiled kernel."""
    for m in [m for m in sys.modules if m == "projectq" or m.startswith("projectq.")]:
        del sys.modules[m]
    sys.meta_path.insert(0, _Block())
    import projectq  # noqa: F401


def switch_to_portable():
    """Re-import projectq in this (child) process with the kernel made by build_portable()."""
    for m in [m for m in sys.modules if m == "projectq" or m.startswith("projectq.")]:
        del sys.modules[m]
    # under a name of its own: the binding library keeps one module per name
    spec = importlib.util.spec_from_file_location("portable._cppsim", _portable)
    kernel = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(kernel)
    sys.modules[CEXT_NAME] = kernel
    from projectq.backends import Simulator
    if type(Simulator(rnd_seed=1)._simulator) is not kernel.Simulator:
        raise RuntimeError("the portable kernel is not in use")


def use_cext(path):
    if path is not None:
        sys.meta_path.insert(0, _Finder(path))


def digest(obj):
    return hashlib.sha1(obj.encode()).hexdigest()[:16]
