"""Seeded generation of circuits (as data)."""

import math

from dsim.oracle import CONTROLLED, GATES

NICE = [0, 0.0, -0.0, 1, math.pi, math.pi / 2, -math.pi / 4, 2 * math.pi, 1e-9, -3, 7.5, 100.25, 0.1]


def param(rng):
    if rng.random() < 0.35:
        return rng.choice(NICE)
    return round(rng.uniform(-7, 7), rng.choice([1, 3, 12]))


def size(rng, usual, large, p=0.02):
    """A size, which is seldom a large one."""
    return rng.choice(large if rng.random() < p else usual)


def swarm(rng, names):
    """A random subset of names, so that runs differ in what they concentrate on."""
    names = list(names)
    k = rng.choice([1, 2, 3, len(names), len(names)])
    return rng.sample(names, min(k, len(names)))


def gate_op(rng, n, names):
    fit = [g for g in names if GATES[g][1] <= n]
    if not fit:
        fit = [g for g in ("X", "Hadamard", "RY") if GATES[g][1] <= n]
    g = rng.choice(fit)
    k, m = GATES[g]
    return {"g": g, "p": [param(rng) for _ in range(k)], "q": rng.sample(range(n), m), "s": rng.randrange(6)}


def circuit_ops(rng, n, nb, length, names=None, p_measure=0.0, p_cond=0.0, p_nobits=0.0, max_measured=6):
    """A list of operations on n qubits and nb bits."""
    names = list(names or GATES)
    ops = []
    measured = 0
    for _ in range(length):
        if nb and rng.random() < p_measure and measured < max_measured:
            k = min(rng.choice([1, 1, 1, 2, 3]), n, nb, max_measured - measured)
            measured += k
            op = {"g": "Measurement", "q": rng.sample(range(n), k), "b": rng.sample(range(nb), k), "s": rng.randrange(6)}
            if rng.random() < p_nobits:
                op["b"] = None
        else:
            op = gate_op(rng, n, names)
        if nb and rng.random() < p_cond:
            op["c"] = rng.sample(range(nb), min(nb, rng.choice([1, 1, 1, 2, 2, 3, 4])))
        ops.append(op)
    return ops


def registers(rng, total, max_regs=3):
    """Splits a number of qubits or bits into registers."""
    if total == 0:
        return rng.choice([[], [0]])
    k = rng.choice([1, 1, 2, max_regs])
    sizes = [0] * k
    for _ in range(total):
        sizes[rng.randrange(k)] += 1
    if rng.random() < 0.8:
        sizes = [s for s in sizes if s]
    return sizes


def labels(rng):
    """How the user labels the qubits and bits of a circuit, if at all."""
    return rng.choice([None] * 8 + ["same", "reversed"])


def is_controlled(g):
    return g in CONTROLLED or g in ("UserCU", "UserCCU")


def userise(rng, ops, p):
    """Replaces some operations by ones defined by the user (with up to two controls), with a fixed matrix in some memory layout."""
    for o in ops:
        if o["g"] != "Measurement" and rng.random() < p and len(o["q"]) <= 3:
            o.update(g=["UserU", "UserCU", "UserCCU"][len(o["q"]) - 1], p=[param(rng) for _ in range(3)], f=rng.choice(["C", "F", "F", "strided"]))
    return ops


def log_uniform(rng, hi):
    """1..hi, with small and large values about equally likely."""
    return max(1, min(hi, int(math.exp(rng.uniform(0, math.log(hi + 1))))))
