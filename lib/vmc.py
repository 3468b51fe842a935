"""Small variational problems with dense numpy references (used by the TDVP, MinSR and workflow checks)."""
import numpy as np

from lib import nets, netgen, opmodel
from lib.harness import rng

NETS = {"CpxRBM": ["CpxRBM", 2, True], "RBM": ["RBM", 2, True], "Two": ["Two", ["RBM", 2, True], ["FFN", [2], True, ["tanh", "tanh"]]],
        "NonHolo": ["NonHolo"], "FFN": ["FFN", [3], True, ["tanh", "tanh"]]}
TABLES = ("cpx", "reim", "real")


class Problem:
    """net, operator, and their dense description at any parameter vector (given to and taken from the library's flat format)"""

    def __init__(self, netname, n, terms, seed, dev, batch=100, scale=0.4):
        import jax.numpy as jnp
        import jVMC
        import jVMC.operator as op
        self.n, self.terms, self.dev = n, terms, dev
        self.net = nets.make_table(rng(seed), n, 2, netname)[0] if netname in TABLES else netgen.build(NETS[netname])
        self.H = op.BranchFreeOperator()
        for t in terms:
            self.H.add(opmodel.build_id(t, op, jnp, 2))
        self.psi = jVMC.vqs.NQS(self.net, batchSize=batch, seed=7)
        self.psi(jnp.zeros((dev, 1, n), dtype=np.int32))
        p = np.asarray(self.psi.get_parameters())
        self.p0 = np.round(p + scale * rng(seed, 2).standard_normal(p.shape), 4)
        self.psi.set_parameters(jnp.array(self.p0))
        self.basis = nets.basis(n, 2)
        self.big = jnp.array(np.broadcast_to(self.basis, (dev,) + self.basis.shape).astype(np.int32))

    def matrix(self, *args):
        A = np.zeros((2**self.n,) * 2, dtype=complex)
        for i, c in enumerate(self.basis):
            for d, v in opmodel.row(self.terms, 2, tuple(int(z) for z in c), list(args)).items():
                A[i, nets.np_index(np.array([d]), 2)[0]] += v
        return A

    def dense(self, p):
        """log amplitudes and their derivatives for all basis states; restores the parameters"""
        import jax.numpy as jnp
        old = self.psi.get_parameters()
        self.psi.set_parameters(jnp.array(p))
        l = np.asarray(self.psi(self.big))[0]
        O = np.asarray(self.psi.gradients(self.big))[0]
        self.psi.set_parameters(old)
        return l, O

    @staticmethod
    def eloc(A, l):
        return np.array([A[i] @ np.exp(l - l[i]) for i in range(len(l))])

    @staticmethod
    def probs(l, f=2.0):
        p = np.exp(f * (l - l.real.max()).real)
        return p / p.sum()


def spy(sampler, ctx):
    """records every sample (as global numpy arrays: basis indices, weights) handed out by the sampler"""
    rec = []
    orig = sampler.sample

    def sample(*a, **k):
        r = orig(*a, **k)
        c, w = np.asarray(r[0]), np.asarray(r[2])
        rec.append((c, w))
        return r
    sampler.sample = sample
    return rec


def gathered(ctx, c, w, sub=None):
    """indices and weights over all processes, in rank/device/sample order; sub: slice along the sample axis of each device"""
    if sub is not None:
        c, w = c[:, sub], w[:, sub]
    idx = nets.np_index(c.reshape((-1,) + c.shape[2:]), 2)
    w = w.reshape(-1)
    if ctx.comm is not None:
        idx = np.concatenate(ctx.comm.allgather(idx))
        w = np.concatenate(ctx.comm.allgather(w))
    return idx, w / w.sum()


def stat_terms(O, E, w):
    """centred data and the bare covariances"""
    dO, dE = O - w @ O, E - w @ E
    S0 = (dO.conj() * w[:, None]).T @ dO
    C = (dO.conj() * w[:, None]).T @ dE
    return dO, dE, S0, C, float(w @ np.abs(dE)**2)


def q_of(name):
    return (lambda x: np.real(x)) if name == "real" else (lambda x: 0.5 * (x - np.conj(x)))
