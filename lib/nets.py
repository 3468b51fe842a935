"""Flax modules owned by the harness, for which the amplitudes of every configuration are known exactly.
(The library documents that any flax module can be used as ansatz.)"""
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from typing import Sequence

import jVMC  # noqa: F401   (sets x64)


def index(s, ldim):
    s = s.ravel()
    n = s.shape[0]
    return jnp.sum(s * jnp.array([ldim ** k for k in range(n)]))


def np_index(s, ldim):
    s = np.asarray(s).reshape(len(s), -1)
    return s @ (ldim ** np.arange(s.shape[1]))


def basis(n, ldim, shape=None):
    N = ldim ** n
    b = np.array([[(k // ldim ** j) % ldim for j in range(n)] for k in range(N)], dtype=np.int32)
    return b if shape is None else b.reshape((N,) + tuple(shape))


class Table(nn.Module):
    """log-amplitude table; kind: 'cpx' (complex, holomorphic parameters), 'reim' (real parameters, complex output),
    'real' (real parameters and output).  plain=True: returns the amplitude itself (kind 'real': of either sign)."""
    re: Sequence[float]
    im: Sequence[float]
    ldim: int = 2
    kind: str = "reim"
    plain: bool = False

    @nn.compact
    def __call__(self, s):
        i = index(s, self.ldim)
        if self.kind == "cpx":
            w = self.param("w", lambda key: jnp.array(self.re, dtype=float) + 1j * jnp.array(self.im, dtype=float))
            v = w[i]
        elif self.kind == "reim":
            a = self.param("a", lambda key: jnp.array(self.re, dtype=float))
            b = self.param("b", lambda key: jnp.array(self.im, dtype=float))
            v = a[i] + 1j * b[i]
        else:
            v = self.param("a", lambda key: jnp.array(self.re, dtype=float))[i]
        if not self.plain:
            return v
        return jnp.exp(v) * jnp.where(i % 3 == 1, -1.0, 1.0) if self.kind == "real" else jnp.exp(v)


def make_table(rng, n, ldim=2, kind="reim", plain=False, scale=0.6):
    N = ldim ** n
    re = np.round(scale * rng.standard_normal(N), 4)
    im = np.round(1.5 * rng.standard_normal(N), 4) if kind != "real" else np.zeros(N)
    net = Table(re=tuple(re.tolist()), im=tuple(im.tolist()), ldim=ldim, kind=kind, plain=plain)
    return net, re + 1j * im + plain_sign(N, kind, plain)


def plain_sign(N, kind, plain=True):
    """logarithm of the fixed signs of real plain amplitudes"""
    return 1j * np.pi * (np.arange(N) % 3 == 1) if plain and kind == "real" else 0.0


def init_on(psi, s):
    """evaluate once so that the state is initialised"""
    psi(s)
    return psi


def table_vec(logpsi, kind):
    """flat parameter vector of a Table with the given log amplitudes"""
    return np.real(logpsi) if kind == "real" else np.concatenate([np.real(logpsi), np.imag(logpsi)])


class Cell(nn.Module):
    """User-defined recurrent cell: the carry has `rows` vectors; called as (carry, state) in one and (carryH, carryV, state) in two dimensions."""
    features: int
    rows: int

    @nn.compact
    def __call__(self, *args):
        state = args[-1]
        z = jnp.concatenate([c.ravel() for c in args[:-1]] + [state])
        w = self.param("w", jax.nn.initializers.normal(0.4), (self.features * (self.rows + 1), z.shape[0]), jnp.float64)
        y = jnp.tanh(w @ z)
        return y[self.features:].reshape((self.rows, self.features)), y[:self.features]
