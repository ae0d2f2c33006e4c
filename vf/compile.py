"""Compilation targets: how to make the engine list, and an own statement of the gate set each one promises."""
import numpy as np
from hypothesis import strategies as st

from . import ref

ONE = {
    "any": "any",
    "RzRy": ("Rz", "Ry"),
    "RzRyRxH": ("Rz", "Ry", "Rx", "H"),
    "RzRx": ("Rz", "Rx"),
    "RzH": ("Rz", "H"),
    "RzRyX": ("Rz", "Ry", "X"),
    "RzRxZ": ("Rz", "Rx", "Z"),
    "RzRyHTX": ("Rz", "Ry", "H", "T", "X"),
}
TWO = {
    "CNOT": (("X", 1),),
    "CZ": (("Z", 1),),
    "CNOTCZ": (("X", 1), ("Z", 1)),
    "CNOTSwap": (("X", 1), ("Swap", 0)),
    "any": "any",
}
OTHER = {
    "": (),
    "TE": ("TimeEvolution",),
    "QFT": ("QFT",),
    "TEQFT": ("TimeEvolution", "QFT"),
    "Tof": (("X", 2),),
}

CLASSES = ("Rz", "Ry", "Rx", "R", "Rxx", "Ryy", "Rzz", "TimeEvolution", "Ph")


def _gate(name):
    import projectq.ops as o
    if isinstance(name, str):
        return getattr(o, name)
    g, k = name
    if k == 1:
        return {"X": o.CNOT, "Z": o.CZ}[g]
    if k == 2:
        return o.Toffoli
    return getattr(o, g)


def _is(gate, name):
    """Whether the gate object is the named gate (any angle)."""
    import projectq.ops as o
    if name in CLASSES:
        return isinstance(gate, getattr(o, name))
    if name in ("Sdag", "Tdag"):
        return isinstance(gate, o.DaggeredGate) and type(gate.get_inverse()) is type(getattr(o, name[0]))
    if name == "QFT":
        return type(gate) is type(o.QFT)
    if type(gate) is type(getattr(o, name)):
        return True
    # "all gates which are equal to it": a matrix gate with the same matrix is such a gate
    m = getattr(gate, "matrix", None)
    return isinstance(gate, o.MatrixGate) and name in ref.FIXED and np.shape(m) == ref.FIXED[name].shape \
        and np.allclose(m, ref.FIXED[name], atol=1e-7)


def allowed(one, two, other, free_controls=()):
    """Own reading of the documented gate set."""
    def ok(cmd):
        from projectq.ops import ClassicalInstructionGate
        if isinstance(cmd.gate, ClassicalInstructionGate):
            return True
        if "0" in str(cmd.control_state):
            return False
        n = sum(len(r) for r in cmd.qubits) + len(cmd.control_qubits)
        k = len(cmd.control_qubits)
        if n == 1 and (one == "any" or any(_is(cmd.gate, x) for x in one)):
            return True
        if n == 2 and two == "any":
            return True
        if n == 2 and two != "any":
            for x in two:
                name, c = x if isinstance(x, tuple) else (x, 0)
                if _is(cmd.gate, name) and k == c:
                    return True
        for x in other:
            name, c = x if isinstance(x, tuple) else (x, 0)
            if _is(cmd.gate, name) and (k == c or name in ("TimeEvolution",)):
                return True
        return False
    return ok


class Target:
    def __init__(self, engines, ok, device=False, default=False):
        self.engines, self.ok, self.device, self.default = engines, ok, device, default


class mocked:
    """Devices announced by the services, without the services."""

    def __enter__(self):
        import projectq.setups.aqt as aqt
        import projectq.setups.awsbraket as aws
        import projectq.setups.ibm as ibm
        import projectq.setups.ionq as ionq
        self.old = [(aqt, "show_devices", aqt.show_devices), (aws, "show_devices", aws.show_devices),
                    (ibm, "show_devices", ibm.show_devices), (ionq, "IonQ", ionq.IonQ)]

        class Service:
            def authenticate(self, token=None):
                pass

            def show_devices(self):
                return {"sim": {"nq": 11}}
        aqt.show_devices = lambda *a, **k: {"aqt_simulator": {"nq": 11}}
        aws.show_devices = lambda *a, **k: {"SV1": {"nq": 34}, "Aspen-8": {"nq": 32}, "IonQ Device": {"nq": 11}}
        ibm.show_devices = lambda *a, **k: {"ibmq_qasm_simulator": {"nq": 32}}
        ionq.IonQ = Service
        return self

    def __exit__(self, *a):
        for m, n, v in self.old:
            setattr(m, n, v)


DEVICES = ["aqt", "ionq", "SV1", "Aspen-8", "IonQ Device", "ibm"]
_CLIFF = ("H", "Rx", "Ry", "Rz", "S", "Sdag", "T", "Tdag", "X", "Y", "Z")


def target(name):
    """name: ["rg", one, two, other, alt] | ["ti"] | ["default", one] | ["dev", device]."""
    import projectq.setups.restrictedgateset as rg
    kind = name[0]
    if kind == "rg":
        one = ONE[name[1]]
        two = TWO[name[2]]
        other = OTHER[name[3]]
        kw = {}
        if len(name) > 4 and name[4] == "last":
            kw["compiler_chooser"] = lambda cmd, ds: ds[-1]
        return Target(rg.get_engine_list(
            one if one == "any" else tuple(map(_gate, one)), two if two == "any" else tuple(map(_gate, two)),
            tuple(map(_gate, other)), **kw), allowed(one, two, other))
    if kind == "ti":
        import projectq.setups.trapped_ion_decomposer as ti
        return Target(ti.get_engine_list(), allowed(("Rx", "Ry"), ("Rxx",), ()))
    if kind == "default":
        import projectq.setups.default as d
        return Target(d.get_engine_list(), allowed(ONE[name[1]], TWO[name[2]], ()), default=True)
    if kind in ("linear", "grid"):
        import importlib
        one, two = ONE[name[3]], TWO[name[4]]
        mod = importlib.import_module("projectq.setups." + kind)
        base = allowed(one, two, ())

        def linked(cmd):
            ids = [q.id for r in cmd.qubits for q in r] + [q.id for q in cmd.control_qubits]
            if len(ids) != 2 or not base(cmd):
                return base(cmd)
            a, b = ids
            if kind == "linear":
                return abs(a - b) == 1 or (name[2] and abs(a - b) == name[1] - 1)
            (r, c), (r2, c2) = divmod(a, name[2]), divmod(b, name[2])
            return abs(r - r2) + abs(c - c2) == 1
        return Target(mod.get_engine_list(name[1], name[2], one if one == "any" else tuple(map(_gate, one)),
                                          two if two == "any" else tuple(map(_gate, two))), linked, device=True)
    if kind == "dev":
        import projectq.setups.aqt as aqt
        import projectq.setups.awsbraket as aws
        import projectq.setups.ibm as ibm
        import projectq.setups.ionq as ionq
        with mocked():
            d = name[1]
            if d == "aqt":
                return Target(aqt.get_engine_list(device="aqt_simulator"), allowed(("Rx", "Ry"), ("Rxx",), ()), True)
            if d == "ionq":
                return Target(ionq.get_engine_list(device="sim"),
                              allowed(_CLIFF + ("SqrtX",), ("Swap", "Rxx", "Ryy", "Rzz"), ()), True)
            if d == "ibm":
                return Target(ibm.get_engine_list(device="ibmq_qasm_simulator"),
                              allowed(("Rx", "Ry", "Rz", "H"), (("X", 1),), ()), True)
            extra = {"SV1": ("R", "SqrtX"), "Aspen-8": ("R",), "IonQ Device": ("SqrtX",)}[d]
            return Target(aws.get_engine_list(device=d), allowed(_CLIFF + extra, (("X", 1), ("Swap", 0)), ()), False)
    raise KeyError(name)


@st.composite
def targets(draw, kinds=("rg", "rg", "rg", "rg", "ti", "default", "dev")):
    kind = draw(st.sampled_from(kinds))
    if kind == "rg":
        return ["rg", draw(st.sampled_from(sorted(ONE))), draw(st.sampled_from(sorted(TWO))),
                draw(st.sampled_from(sorted(OTHER))), ""]
    if kind == "default":
        return ["default", draw(st.sampled_from(["RzRyRxH", "RzRyHTX", "any"])), draw(st.sampled_from(["CNOT", "any"]))]
    if kind in ("linear", "grid"):
        gates = [draw(st.sampled_from(["any", "RzRyRxH", "RzRyHTX", "RzRx", "RzH", "RzRy"])),
                 draw(st.sampled_from(["CNOT", "CZ", "CNOTSwap"]))]
        if kind == "linear":
            return ["linear", draw(st.integers(8, 9)), draw(st.booleans())] + gates
        return ["grid", *draw(st.sampled_from([(2, 4), (3, 3), (1, 8), (4, 2)]))] + gates
    if kind == "dev":
        return ["dev", draw(st.sampled_from(DEVICES))]
    return ["ti"]
