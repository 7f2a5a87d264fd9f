"""Reference semantics, written from textbook definitions only (nothing of the code under test).

Qubit 0 is the most significant (big-endian). Operations are dictionaries:
    {"g": name, "p": [parameters], "q": [qubits], "b": [bits] (measurements), "c": [conditional bits]}
"""

import cmath
import math

import numpy as np

# name: (parameters, qubits)
GATES = {
    "Identity": (0, 1), "X": (0, 1), "Y": (0, 1), "Z": (0, 1), "Hadamard": (0, 1), "S": (0, 1), "T": (0, 1),
    "RX": (1, 1), "RY": (1, 1), "RZ": (1, 1), "Rotation": (3, 1),
    "CX": (0, 2), "CY": (0, 2), "CZ": (0, 2), "CHadamard": (0, 2),
    "CRX": (1, 2), "CRY": (1, 2), "CRZ": (1, 2), "CRotation": (3, 2),
    "SWAP": (0, 2), "CSWAP": (0, 3), "CCX": (0, 3),
}
ONE = [g for g, (_, n) in GATES.items() if n == 1]
PARAMETRIC = [g for g, (k, _) in GATES.items() if k]
CONTROLLED = ["CX", "CY", "CZ", "CHadamard", "CRX", "CRY", "CRZ", "CRotation"]
USER = {"UserU": 0, "UserCU": 1, "UserCCU": 2}  # defined by the user, with a number of controls
PLAIN_CONTROLLED = ["CX", "CY", "CZ", "CHadamard"]


def _rz(t):
    return np.array([[cmath.exp(-0.5j * t), 0], [0, cmath.exp(0.5j * t)]])


def _ry(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -s], [s, c]], dtype=complex)


def _rx(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -1j * s], [-1j * s, c]])


def controlled(u, controls=1):
    n = u.shape[0] << controls
    m = np.eye(n, dtype=complex)
    m[n - u.shape[0]:, n - u.shape[0]:] = u
    return m


_X = np.array([[0, 1], [1, 0]], dtype=complex)
_SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def matrix(g, p=()):
    if g == "Identity":
        return np.eye(2, dtype=complex)
    if g == "X":
        return _X.copy()
    if g in ("Y", "UserY"):
        return np.array([[0, -1j], [1j, 0]])
    if g == "Z":
        return np.diag([1, -1]).astype(complex)
    if g == "Hadamard":
        return np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
    if g == "S":
        return np.diag([1, 1j])
    if g == "T":
        return np.diag([1, cmath.exp(0.25j * math.pi)])
    if g == "RX":
        return _rx(*p)
    if g == "RY":
        return _ry(*p)
    if g == "RZ":
        return _rz(*p)
    if g == "Rotation":
        b, c, d = p
        return _rz(d) @ _ry(c) @ _rz(b)
    if g == "SWAP":
        return _SWAP.copy()
    if g == "CSWAP":
        return controlled(_SWAP)
    if g == "CCX":
        return controlled(_X, 2)
    if g in USER:
        u = matrix("Rotation", p)
        return controlled(u, USER[g]) if USER[g] else u
    if g in CONTROLLED:
        return controlled(matrix(g[1:], p))
    raise KeyError(g)


def apply(state, u, targets, n):
    """Applies u to the target qubits (the first is the most significant in u) of an array whose first
    axis has size 2**n."""
    k = len(targets)
    rest = state.shape[1:]
    t = state.reshape((2,) * n + rest)
    t = np.moveaxis(t, targets, range(k))
    shape = t.shape
    t = (u @ t.reshape(1 << k, -1)).reshape(shape)
    return np.moveaxis(t, range(k), targets).reshape((1 << n,) + rest)


def zero(n):
    s = np.zeros(1 << n, dtype=complex)
    s[0] = 1
    return s


def unitary(ops, n):
    u = np.eye(1 << n, dtype=complex)
    for op in ops:
        u = apply(u, matrix(op["g"], op.get("p", ())), op["q"], n)
    return u


def reverse_qubits(state, n):
    """The same vector (or matrix) with little-endian instead of big-endian indices."""
    if state.ndim == 1:
        return state.reshape((2,) * n).transpose(range(n)[::-1]).reshape(-1)
    p = list(range(n)[::-1])
    return state.reshape((2,) * (2 * n)).transpose(p + [n + i for i in p]).reshape(1 << n, 1 << n)


def prob(state, q, n):
    """The probabilities of 0 and 1 (not as 1 minus the other one: either may be tiny)."""
    t = np.moveaxis(state.reshape((2,) * n), q, 0)
    return float(np.sum(np.abs(t[0]) ** 2)), float(np.sum(np.abs(t[1]) ** 2))


def prob_one(state, q, n):
    return prob(state, q, n)[1]


def collapse(state, q, m, n):
    t = np.moveaxis(state.reshape((2,) * n), q, 0).copy()
    t[1 - m] = 0
    t = np.moveaxis(t, 0, q).reshape(-1)
    return t / np.linalg.norm(t)


IMPOSSIBLE = 1e-24  # less than that is a rounding error
FAINT = 1e-10  # with less than that, the state afterwards is not known well


def joint(state, qubits, n):
    """Probabilities of the outcomes (tuples) of measuring the qubits one after the other."""
    p = np.abs(state.reshape((2,) * n)) ** 2
    uniq = sorted(set(qubits))
    p = p.sum(axis=tuple(i for i in range(n) if i not in uniq))
    r = {}
    for idx in np.ndindex(*p.shape):
        val = dict(zip(uniq, idx))
        if p[idx] > IMPOSSIBLE:
            key = tuple(int(val[q]) for q in qubits)
            r[key] = r.get(key, 0.0) + float(p[idx])
    return r


class Branch:
    __slots__ = ("state", "bits", "p", "trace", "faint")

    def __init__(self, state, bits, p, trace, faint=False):
        self.state, self.bits, self.p, self.trace, self.faint = state, bits, p, trace, faint


def trajectories(ops, n, bits, on_measure=None, limit=4096):
    """All quantum trajectories of a circuit. Those with an outcome of a tiny, but not impossible,
    probability are ``faint``: from there on, rounding errors count, so that any outcome may follow.

    ``bits``: the values (0, 1 or None) of the classical bits at the start. ``on_measure(i, branch)``
    may refuse branches right before operation i (a measurement that is not skipped). ``trace`` holds
    (operation, state or None if skipped, outcomes) per measurement.
    """
    branches = [Branch(zero(n), dict(enumerate(bits)), 1.0, [])]
    for i, op in enumerate(ops):
        new = []
        for b in branches:
            blocked = any(b.bits[c] == 0 for c in op.get("c") or ())
            if op["g"] != "Measurement":
                if not blocked and op["g"] != "Barrier":
                    b.state = apply(b.state, matrix(op["g"], op.get("p", ())), op["q"], n)
                new.append(b)
                continue
            if on_measure is not None and not b.faint and not on_measure(i, None if blocked else b.state):
                continue
            if blocked:
                b.trace = b.trace + [(i, None, ())]
                new.append(b)
                continue
            before = b.state
            part = [(b.state, (), b.p, b.faint)]
            for q in op["q"]:
                nxt = []
                for s, out, p, faint in part:
                    for m, pm in enumerate(prob(s, q, n)):
                        if pm > FAINT and not faint:
                            nxt.append((collapse(s, q, m, n), out + (m,), p * pm, False))
                        elif pm > IMPOSSIBLE or faint:
                            nxt.append((collapse(s, q, m, n) if pm > IMPOSSIBLE else s, out + (m,), p * pm, True))
                part = nxt
            for s, out, p, faint in part:
                vals = dict(b.bits)
                for j, m in zip(op.get("b") or (), out):
                    vals[j] = m
                new.append(Branch(s, vals, p, b.trace + [(i, before, out)], faint))
        branches = new
        if len(branches) > limit:
            raise OverflowError("too many branches")
    return branches


def close(a, b, tol=1e-8):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def same_up_to_phase(a, b, tol=1e-8):
    k = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    return abs(a[k]) > tol and close(a * (b[k] / a[k]) / abs(b[k] / a[k]), b, tol)


def binomial_bounds(n, p, alpha=1e-13):
    """Counts outside of these bounds have a probability below alpha (Chernoff-Hoeffding in relative
    entropy, for either side)."""
    need = math.log(2 / alpha) / n

    def kl(x):
        r = 0.0
        if x > 0:
            r += x * math.log(x / p) if p > 0 else math.inf
        if x < 1:
            r += (1 - x) * math.log((1 - x) / (1 - p)) if p < 1 else math.inf
        return r

    lo, hi = 0.0, p
    if kl(0.0) <= need:
        low = 0.0
    else:
        for _ in range(60):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if kl(mid) > need else (lo, mid)
        low = lo
    lo, hi = p, 1.0
    if kl(1.0) <= need:
        high = 1.0
    else:
        for _ in range(60):
            mid = (lo + hi) / 2
            lo, hi = (lo, mid) if kl(mid) > need else (mid, hi)
        high = hi
    return math.floor(low * n), math.ceil(high * n)
