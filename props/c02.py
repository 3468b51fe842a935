"""C02: fermionic operator strings carry Jordan-Wigner signs and obey the canonical anticommutation relations."""
from props import c01 as _b

import math

ID = "C02"
RULE = ("Same histories as C01 with strings of creation/annihilation/number operators (mixed with spin operators) on 1D "
        "and 2D lattices, plus dense anticommutators: for generated site pairs (i,j) the matrices of c_i c_j^+ + c_j^+ c_i, "
        "c_i c_j + c_j c_i and c_i^+ c_j^+ + c_j^+ c_i^+ over the full basis. Non-trivial: a fermionic string with at least "
        "two factors and a non-zero off-diagonal element.")
ASSUMPTIONS = _b.ASSUMPTIONS + ["Ordering of modes: flattened site index; sign counts occupied modes j > i."]


def shards(tier):
    q = tier == "quick"
    n = 20 if q else 200
    return [{"part": "gen", "devices": d, "examples": n} for d in (1, 2, 3, 1)] + \
        [{"part": "car", "devices": d, "examples": 26 if q else 200} for d in (1, 2, 4, 1)]


def strategy(shard):
    from hypothesis import strategies as st
    if shard["part"] == "car":
        @st.composite
        def car(draw):
            shape = draw(st.sampled_from([[2], [3], [4], [5], [6], [2, 2], [2, 3], [3, 2], [1, 4], [2, 1, 2], [1, 2, 3]]))
            n = math.prod(shape)
            return {"shape": shape, "pairs": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=1, max_size=2)),
                    "kind": draw(st.sampled_from(["mixed", "cc", "dd", "number", "square"]))}
        return car()
    _b.FERMIONIC = True
    return _b.strategy(shard)


def corpus(shard):
    if shard["part"] == "car":
        return [{"shape": [4], "pairs": [[0, 3], [2, 2]], "kind": "mixed"}, {"shape": [2, 3], "pairs": [[5, 1]], "kind": "mixed"}]
    _b.FERMIONIC = True
    return _b.corpus(shard)


def check(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC.operator as op

    if "steps" in case:
        _b.FERMIONIC = True
        return _b.check(case, ctx)
    dev = ctx.shard["devices"]
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    N = 2 ** n
    basis = np.array([[(k >> j) & 1 for j in range(n)] for k in range(N)], dtype=np.int32)
    pad = (-N) % dev
    padded = np.concatenate([basis, basis[:1].repeat(pad, axis=0)]) if pad else basis
    s = jnp.array(padded.reshape((dev, -1) + shape))

    def dense(terms):
        with ctx.sut("operator"):
            H = op.BranchFreeOperator()
            for t in terms:
                H += t
            sp, m = H.get_s_primes(s)
            sp, m = np.array(sp), np.array(m)
        K = m.shape[-1]
        if K == 0:
            return np.zeros((N, N), dtype=complex)
        sp = sp.reshape(-1, K, n)[:N]
        m = m.reshape(-1, K)[:N]
        A = np.zeros((N, N), dtype=complex)
        for a in range(N):
            for k in range(K):
                A[a, int(sp[a, k] @ (1 << np.arange(n)))] += m[a, k]
        return A

    for i, j in case["pairs"]:
        c, d = op.annihilation, op.creation
        k = case["kind"]
        if k == "mixed":
            A = dense([c(i) * d(j), d(j) * c(i)])
            want = np.eye(N) * (1.0 if i == j else 0.0)
        elif k == "cc":
            A, want = dense([c(i) * c(j), c(j) * c(i)]), np.zeros((N, N))
        elif k == "dd":
            A, want = dense([d(i) * d(j), d(j) * d(i)]), np.zeros((N, N))
        elif k == "number":
            A = dense([d(i) * c(i), -1.0 * op.number(i)])
            want = np.zeros((N, N))
        else:      # hopping is its own adjoint and conserves the particle number
            A = dense([d(i) * c(j), d(j) * c(i)])
            ctx.close(A, A.conj().T, "adjoint of hopping %d,%d" % (i, j))
            cnt = basis.sum(axis=1)
            want = np.where(cnt[:, None] == cnt[None, :], A, 0.0)
            if i != j:
                ctx.expect(np.sum(np.abs(A)) == N / 2, "hopping %d,%d has total weight %s, expected %s" % (i, j, np.sum(np.abs(A)), N / 2))
        ctx.close(A, want, "kind %s sites %d,%d" % (k, i, j), atol=1e-8)
    return True, ["%s %s" % (case["kind"], "same site" if i == j else "different sites") for i, j in case["pairs"]] + ["%dD" % len(shape)]
