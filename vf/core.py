"""Shared vocabulary of the checks: a test case, its verdict, and what it records about itself."""
import traceback


class Violation(Exception):
    """The property is broken by this case."""


class Skip(Exception):
    """The case lies outside the property's domain (counted, never a verdict)."""


class CpuLimit(BaseException):
    """One case used far more processor time than any case on the present tree."""


class StopShard(KeyboardInterrupt):
    """Soft deadline of the tier, or another shard has found a violation."""


class Ev:
    """Per-case recorder handed to the oracle."""

    __slots__ = ("nontrivial", "labels")

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(name)


class Test:
    """One generated check: `strategy()` makes JSON-able cases, `run(case, ev)` raises Violation when broken."""

    def __init__(self, name, strategy, run, quick, thorough=None, rule="", chunk=None, fixed=None, kernel=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule
        self.chunk = chunk
        self.kernel = kernel  # "py": run without the compiled kernel
        self.fixed = fixed  # optional list of cases always run first (small exhaustive parts)


def in_projectq(exc):
    """Whether the code under test took part in raising `exc`."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if "/projectq/" in fr.filename and "/verif/" not in fr.filename:
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
