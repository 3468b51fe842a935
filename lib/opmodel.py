"""Reference model of sums of operator strings, independent of the code under test.

An elementary operator is (idx, map, matEls, fermionic).  Acting on a configuration c it multiplies the
weight by matEls[c[idx]] (times (-1)^(number of occupied sites j > idx) if fermionic) and replaces
c[idx] by map[c[idx]].  An operator string acts with its rightmost factor first.
"""
import cmath
import math

import numpy as np

ELEMENTARY = {
    "Sx": ([1, 0], [1, 1], False),
    "Sy": ([1, 0], [1j, -1j], False),
    "Sz": ([0, 1], [-1, 1], False),
    "Sp": ([1, 0], [1, 0], False),
    "Sm": ([0, 0], [0, 1], False),
    "number": ([0, 1], [0, 1], False),
    "creation": ([1, 0], [1, 0], True),
    "annihilation": ([1, 0], [0, 1], True),
}


def prefactor_value(node, args):
    if node[0] == "n":
        return complex(node[1], node[2])
    _, kind, c = node
    c = complex(*c)
    a = [float(x) for x in args]
    if kind == "const":
        return c
    if kind == "lin":
        return c * (1.0 + (a[0] if a else 0.0))
    if kind == "cos":
        return c * math.cos(sum(a))
    if kind == "phase":
        return c * cmath.exp(1j * (a[-1] if a else 0.0))
    if kind == "diff":            # not symmetric in its arguments
        return c * (1.0 + sum((k + 1) * x for k, x in enumerate(a)))
    raise ValueError(kind)


def flatten(tree, lDim):
    """-> (list of prefactor nodes, list of (idx, map, matEls, fermionic)) in written order"""
    t = tree[0]
    if t in ("n", "f"):
        return [tree], []
    if t == "o":
        _, name, idx = tree
        if name == "Id":
            return [], [(idx, list(range(lDim)), [1.0] * lDim, False)]
        m, e, fm = ELEMENTARY[name]
        return [], [(idx, m, e, fm)]
    if t in ("l", "d"):
        _, idx, m, e, fm = tree
        return [], [(idx, m, [complex(*x) for x in e], bool(fm))]
    if t == "*":
        p1, o1 = flatten(tree[1], lDim)
        p2, o2 = flatten(tree[2], lDim)
        return p1 + p2, o1 + o2
    if t in ("S", "T"):
        ps, os_ = [], []
        for x in tree[1]:
            p, o = flatten(x, lDim)
            ps += p
            os_ += o
        return ps, os_
    if t == "scal":
        p, o = flatten(tree[2], lDim)
        return [tree[1]] + p, o
    raise ValueError(t)


def apply_string(ops, c):
    """rightmost first; returns (configuration tuple, weight)"""
    c = list(c)
    w = 1.0
    for idx, m, e, fm in reversed(ops):
        if fm:
            w *= (-1) ** sum(1 for j in range(idx + 1, len(c)) if c[j] == 1)
        w *= e[c[idx]]
        c[idx] = m[c[idx]]
    return tuple(c), w


def row(terms, lDim, config, args):
    """sparse row {s': weight} of sum of terms for one (flattened) configuration"""
    res = {}
    for tree in terms:
        ps, ops = flatten(tree, lDim)
        pf = 1.0
        for p in ps:
            pf *= prefactor_value(p, args)
        sp, w = apply_string(ops, config)
        w = w * pf
        if w != 0:
            res[sp] = res.get(sp, 0.0) + w
    return res


# ------------------------------------------------------------------ construction through the public API

def build(tree, op, jnp):
    t = tree[0]
    if t == "n":
        v = tree[1] if tree[2] == 0 else complex(tree[1], tree[2])
        if len(tree) > 3:           # the number as a numpy scalar, 0-dimensional array or jax scalar
            v = {"np": np.float64 if tree[2] == 0 else np.complex128, "np0": np.array, "jnp": jnp.array}[tree[3]](v)
        return v
    if t == "f":
        _, kind, c = tree
        c = complex(*c)
        if kind == "const":
            return lambda *a: c
        if kind == "lin":
            return lambda *a: c * (1.0 + (a[0] if a else 0.0))
        if kind == "cos":
            return lambda *a: c * jnp.cos(sum(a))
        if kind == "phase":
            return lambda *a: c * jnp.exp(1j * (a[-1] if a else 0.0))
        if kind == "diff":
            return lambda *a: c * (1.0 + sum((k + 1) * x for k, x in enumerate(a)))
    if t == "o":
        _, name, idx = tree
        return getattr(op, name)(idx)
    if t in ("l", "d"):
        _, idx, m, e, fm = tree
        els = [complex(*x) for x in e]
        kw = dict(idx=idx, map=jnp.array(m, dtype=np.int32), matEls=jnp.array(els, dtype=complex),
                  diag=(list(m) == list(range(len(m)))))
        if fm:
            kw["fermionic"] = True
        return op.LocalOp(**kw) if t == "l" else kw
    if t == "*":
        return build(tree[1], op, jnp) * build(tree[2], op, jnp)
    if t == "S":
        return op.OpStr(*[build(x, op, jnp) for x in tree[1]])
    if t == "T":
        return tuple(build(x, op, jnp) for x in tree[1])
    if t == "scal":
        return op.scal_opstr(build(tree[1], op, jnp), build(tree[2], op, jnp))
    raise ValueError(t)


def build_id(tree, op, jnp, lDim, memo=None):
    """like build, but Id needs the local dimension; memo: dictionary that makes equal subtrees the same Python object"""
    if memo is not None and tree[0] != "n":
        key = repr(tree)
        if key not in memo:
            memo[key] = _build_id(tree, op, jnp, lDim, memo)
        return memo[key]
    return _build_id(tree, op, jnp, lDim, memo)


def _build_id(tree, op, jnp, lDim, memo):
    def b(x):
        return build_id(x, op, jnp, lDim, memo)
    if tree[0] == "o" and tree[1] == "Id":
        return op.Id(tree[2], lDim)
    if tree[0] == "*":
        return b(tree[1]) * b(tree[2])
    if tree[0] == "S":
        return op.OpStr(*[b(x) for x in tree[1]])
    if tree[0] == "T":
        return tuple(b(x) for x in tree[1])
    if tree[0] == "scal":
        return op.scal_opstr(b(tree[1]), b(tree[2]))
    return build(tree, op, jnp)


def freeze(x):
    """content of an operator object (to see whether it is modified later)"""
    if isinstance(x, dict):
        return {k: np.array(v).tolist() for k, v in x.items()}
    if isinstance(x, tuple):
        return [freeze(y) for y in x]
    return "callable" if callable(x) else repr(x)


# ------------------------------------------------------------------ legality of products (Python types)

def combine(k1, k2):
    """kind of `x1 * x2`, None if the public API does not define it.
    N number, F function, D dict, L LocalOp, S OpStr, T plain tuple"""
    if k1 == "N" and k2 == "N":
        return "N"
    if k1 == "L":
        return "S" if k2 in "NFDLS" else None
    if k1 == "S":
        return "S" if k2 in "NFDLST" else None
    if k1 in ("N", "F", "D"):
        return "S" if k2 in ("L", "S") else None
    return None


def kind(node):
    return {"n": "N", "f": "F", "d": "D", "o": "L", "l": "L", "S": "S", "T": "T", "scal": "S", "*": "S"}[node[0]]
