"""Access to the code under test (imported only in worker processes), through its public interface."""

import warnings

from dsim.core import Violation
from dsim.oracle import GATES, USER


class _Lazy:
    def __getattr__(self, name):
        import dwave.gate.circuit as c
        import dwave.gate.operations as ops
        import dwave.gate.primitives as prim
        import dwave.gate.registers.registers as regs
        from dwave.gate.simulator.simulator import sample_qubit, simulate
        from dwave.gate.tools.counters import IDCounter
        from dwave.gate.tools.unitary import build_controlled_unitary, build_unitary

        d = dict(
            Circuit=c.Circuit, ParametricCircuit=c.ParametricCircuit, CircuitContext=c.CircuitContext,
            CircuitError=c.CircuitError, ops=ops, Qubit=prim.Qubit, Bit=prim.Bit, Variable=prim.Variable,
            Register=regs.Register, QuantumRegister=regs.QuantumRegister, RegisterError=regs.RegisterError,
            ClassicalRegister=regs.ClassicalRegister, SelfIncrementingRegister=regs.SelfIncrementingRegister,
            sample_qubit=sample_qubit, simulate=simulate, IDCounter=IDCounter, build_unitary=build_unitary, build_controlled_unitary=build_controlled_unitary,
            create_operation=ops.create_operation,
        )
        self.__dict__.update(d)
        return d[name]


L = _Lazy()


def reset_globals():
    """Back to the state of a fresh process, through the public interface."""
    ctx = L.CircuitContext.active_context
    if ctx is not None:
        ctx.__exit__(None, None, None)
    L.IDCounter.reset()


def require(cond, kind, message, **info):
    if not cond:
        raise Violation(kind, message() if callable(message) else message, **info)


def no_context_open(where=""):
    require(L.CircuitContext.active_context is None, "context-left-open", f"a circuit context is still active {where}")


# ---- building


def new_circuit(spec):
    """spec: {"n": [register sizes], "b": [register sizes], "par": parametric}"""
    cls = L.ParametricCircuit if spec.get("par") else L.Circuit
    n, b = spec["n"], spec["b"]
    if isinstance(n, int):
        n = [n]
    if isinstance(b, int):
        b = [b] if b else []
    labels = spec.get("ql")
    if len(n) == 1 and len(b) <= 1 and not labels:
        return cls(n[0], b[0]) if b else cls(n[0])
    c = cls()
    for sizes, register, add, item, t in ((n, c.add_qregister, c.add_qubit, L.Qubit, "q"), (b, c.add_cregister, c.add_bit, L.Bit, "c")):
        left = sum(sizes)
        for k, s in enumerate(sizes):
            name = f"{t}r{k}" if spec.get("named") else f"{t}reg{k}"
            if not labels:
                register(s, label=name if spec.get("named") else None)
                continue
            register(label=name)
            for _ in range(s):
                left -= 1
                add(item("same" if labels == "same" else str(left)), name)
    return c


_user = {}


def op_class(name, op=None):
    if name == "UserY":
        return _user_y()
    if name in USER:
        return _user_op(name, tuple(op["p"]), op["f"])
    return getattr(L.ops, name)


def _user_y():
    """A single-qubit operation defined by the user, whose matrix is computed by a callback that may fail."""
    if "UserY" not in _user:
        import numpy as np
        from dwave.gate.mixedproperty import mixedproperty

        from dsim.faults import FaultyCallbacks

        class UserY(L.ops.Operation):
            _num_qubits = 1

            @mixedproperty
            def matrix(cls):
                FaultyCallbacks.hit()
                return np.array([[0, -1j], [1j, 0]])

        _user["UserY"] = UserY
    return _user["UserY"]


def _user_op(name, p, form):
    """An operation defined by the user, whose matrix is laid out in memory in some way."""
    key = (name, p, form)
    if key not in _user:
        import numpy as np
        from dwave.gate.mixedproperty import mixedproperty

        from dsim import oracle

        def make():
            m = oracle.matrix("UserU", p)
            if form == "F":
                return np.ascontiguousarray(m.T).T
            if form == "strided":
                big = np.full((4, 4), 7.0, dtype=complex)
                big[::2, ::2] = m
                return big[::2, ::2]
            return m

        class UserU(L.ops.Operation):
            _num_qubits = 1

            @mixedproperty
            def matrix(cls):
                return make()

        class UserCU(L.ops.ControlledOperation):
            _num_control = USER[name]
            _num_target = 1
            _target_operation = UserU

        cls = UserCU if USER[name] else UserU
        cls.__name__ = f"{name}{len(_user)}"
        _user[key] = cls
    return _user[key]


def _form(items, style):
    items = list(items)
    if style % 3 == 0 and len(items) == 1:
        return items[0]
    return tuple(items) if style % 3 == 2 else items


def apply_op(op, q, c=None, p=None, cls=None):
    """Creates the operation as told by its dictionary; applied if a context is open.

    ``q``, ``c``: qubits and bits by position; ``p``: variables, used for parameters given as
    {"v": index}.
    """
    from dsim.gen import is_controlled

    name, s = op["g"], op.get("s", 0)
    cls = cls or op_class(name, op)
    qubits = [q[i] for i in op["q"]]
    params = [p[x["v"]] if isinstance(x, dict) else x for x in op.get("p") or ()]
    if name in USER:
        params = []
    if name == "Measurement":
        m = cls(_form(qubits, s))
        if op.get("b") is not None:
            # (a whole register can be given, of which the first bits are used)
            whole = s == 5 and isinstance(c, L.ClassicalRegister) and op["b"] == list(range(len(op["b"])))
            m | (c if whole else _form([c[i] for i in op["b"]], s // 2))
    else:
        args = []
        if params:
            args.append(params[0] if len(params) == 1 and s % 2 else (tuple(params) if s == 4 else params))
        if is_controlled(name):
            control, target = qubits[:-1], qubits[-1:]
            if s % 3 == 0:
                m = cls(*args, *qubits) if len(qubits) == 2 else cls(*args, control, qubits[-1])
            elif s % 3 == 1:
                m = cls(*args, qubits=qubits if s == 1 else tuple(qubits))
            else:
                m = cls(*args, control=control, target=target if s < 3 else tuple(target))
            control.clear()
            target.clear()
        elif s % 2:
            m = cls(*args, qubits=_form(qubits, s))
        else:
            m = cls(*args, _form(qubits, s))
    # (the lists are the caller's own, who can do with them what it likes)
    for i, x in enumerate(params):
        params[i] = None if isinstance(x, L.Variable) else -9.0
    qubits.reverse()
    if op.get("c"):
        bits = [c[i] for i in op["c"]]
        m.conditional(bits[0] if s % 3 == 0 and len(bits) == 1 else tuple(bits) if s % 3 == 2 else bits)
        bits.clear()
    return m


def fill(circuit, ops):
    """Applies operations in the circuit's context. Returns the operation objects."""
    with circuit.context as reg:
        p = getattr(reg, "p", None)
        return [apply_op(op, reg.q, reg.c, p) for op in ops]


def build(spec):
    c = new_circuit(spec)
    return c, fill(c, spec["ops"])


# ---- observing


def index_is(items, x):
    for i, y in enumerate(items):
        if y is x:
            return i
    return -1


def values(bits):
    return [b.value for b in bits]


def restore(bits, vals):
    for b, v in zip(bits, vals):
        if v is None:
            b.reset()
        else:
            b.set(v, force=True)


def conditions(op, bits):
    """Positions of the bits that an operation is conditioned on, found by whether it is blocked."""
    bits = list(bits)
    if not bits:
        return [] if not op.is_blocked else ["?"]
    old = values(bits)
    try:
        for b in bits:
            b.set(1, force=True)
        if op.is_blocked:
            return ["?"]  # by a bit that is not in the circuit
        r = []
        for i, b in enumerate(bits):
            b.set(0, force=True)
            if op.is_blocked:
                r.append(i)
            b.set(1, force=True)
        return r
    finally:
        restore(bits, old)


def describe_op(op, qubits, bits, conds=True):
    """[name, parameters, qubit positions, bit positions, conditional bit positions]"""
    params = []
    for p in getattr(op, "parameters", None) or []:
        params.append(("var", p.name) if isinstance(p, L.Variable) else p)
    b = getattr(op, "bits", None)
    q = [index_is(qubits, x) for x in op.qubits or ()]
    if q and isinstance(op, L.ops.ControlledOperation):
        parts = [index_is(qubits, x) for x in list(op.control) + list(op.target)]
        if parts != q:
            q = ["qubits", q, "control and target", parts]
    return [
        type(op).__name__, params, q,
        None if b is None else [index_is(bits, x) for x in b],
        conditions(op, bits) if conds else [],
    ]


def describe(circuit, conds=True):
    qubits, bits = list(circuit.qubits), list(circuit.bits)
    return [describe_op(op, qubits, bits, conds) for op in circuit.circuit]


def expected(op, conds=True):
    """The description that an operation applied from a dictionary must have."""
    return [
        op["g"], [("var", str(x["v"])) if isinstance(x, dict) else x for x in op.get("p") or ()], list(op["q"]),
        (None if op.get("b") is None else list(op["b"])) if op["g"] == "Measurement" else None,
        sorted(set(op.get("c") or ())) if conds else [],
    ]


def same_ops(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g[0] != w[0] or g[2:] != w[2:] or len(g[1]) != len(w[1]):
            return False
        for x, y in zip(g[1], w[1]):
            if isinstance(x, tuple) or isinstance(y, tuple):
                if x != y:
                    return False
            elif not (x == y and type(x) is not bool):
                return False
    return True


def require_ops(circuit, want, kind, where=""):
    got = describe(circuit)
    if not same_ops(got, want):
        raise Violation(kind, f"{where}: circuit holds {got}, expected {want}")


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def fingerprint(circuit):
    """Everything observable of a circuit that a read-only use must not change."""
    import numpy as np

    def arr(x):
        return None if x is None else np.asarray(x).tobytes()

    meas = [(arr(op.state)) for op in circuit.circuit if type(op).__name__ == "Measurement"]
    try:
        state = arr(circuit.state)
    except L.CircuitError:
        state = "mixed"
    return (
        [id(op) for op in circuit.circuit], repr(describe(circuit)), values(circuit.bits),
        [id(x) for x in circuit.qubits], [id(x) for x in circuit.bits],
        [(k, [id(x) for x in r]) for k, r in circuit.qregisters.items()],
        [(k, [id(x) for x in r]) for k, r in circuit.cregisters.items()],
        circuit.is_locked(), state, arr(circuit.density_matrix), meas, circuit.num_parameters,
    )
