"""Library networks described by small JSON specifications, and independent numpy forward passes for them.

spec: ["RBM", hidden, bias] | ["CpxRBM", hidden, bias] | ["CpxRBMns", hidden, bias] | ["FFN", layers, bias, actFuns]
    | ["CNN"|"CpxCNN", F, channels, strides, actFuns, bias, firstBias, periodic] | ["Two", spec, spec]
    | ["Spot", kind] (harness-owned: not holomorphic, Cauchy-Riemann holds at special points only)
    | ["Shift", spec, constant] (harness-owned: log-amplitude plus a constant)
    | ["Weak", eps, leaf] (harness-owned: holomorphic up to eps conj(z) in one (or every) parameter array)
    | ["NonHolo"] (harness-owned complex non-holomorphic net) | ["RNN", {...}] (no numpy forward)
"""
import numpy as np

ACT_REAL = ["elu", "relu", "tanh", "square", "poly5", "poly6"]
ACT_CPX = ["square", "poly5", "poly6", "tanh"]


def np_act(name):
    return {"elu": lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))), "relu": lambda x: np.maximum(x, 0), "tanh": np.tanh,
            "square": lambda x: x**2,
            # Taylor polynomials of tanh (order 5) and log cosh (order 6)
            "poly5": lambda x: x - x**3 / 3. + 2. * x**5 / 15., "poly6": lambda x: x**2 / 2. - x**4 / 12. + x**6 / 45.}[name]


def acts(names):
    import jVMC.nets.activation_functions as af
    return tuple(af.activationFunctions[n] for n in names)


def build(spec):
    import jVMC
    import jVMC.nets as N
    t = spec[0]
    if t == "RBM":
        return N.RBM(numHidden=spec[1], bias=spec[2])
    if t == "CpxRBM":
        return N.CpxRBM(numHidden=spec[1], bias=spec[2])
    if t == "CpxRBMns":
        from jVMC.nets.rbm import CpxRBM_Nospinflip
        return CpxRBM_Nospinflip(numHidden=spec[1], bias=spec[2])
    if t == "FFN":
        return N.FFN(layers=tuple(spec[1]), bias=spec[2], actFun=acts(spec[3]))
    if t in ("CNN", "CpxCNN"):
        cls = N.CNN if t == "CNN" else N.CpxCNN
        return cls(F=tuple(spec[1]), channels=tuple(spec[2]), strides=tuple(spec[3]), actFun=acts(spec[4]), bias=spec[5],
                   firstLayerBias=spec[6], periodicBoundary=spec[7])
    if t == "Two":
        from jVMC.nets.two_nets_wrapper import TwoNets
        return TwoNets((build(spec[1]), build(spec[2])))
    if t == "Shift":
        return Shift(build(spec[1]), spec[2])
    if t == "NonHolo":
        return nonholo_cls()()
    if t == "Spot":
        nonholo_cls()
        return _cls["s"](kind=spec[1])
    if t == "Weak":
        nonholo_cls()
        return _cls["w"](eps=spec[1], leaf=spec[2])
    if t == "RNN":
        return N.RNN1DGeneral(**spec[1])
    raise ValueError(t)


_cls = {}


def Exp(net):
    """ansatz that returns the plain amplitude exp(net)"""
    global _EXP
    if _EXP is None:
        import flax.linen as nn
        import jax.numpy as jnp

        class ExpNet(nn.Module):
            net: callable

            def __call__(self, s):
                return jnp.exp(self.net(s))
        _EXP = ExpNet
    return _EXP(net=net)


_EXP = None
_SHIFT = None


def Shift(net, off):
    """ansatz whose log-amplitude is shifted by a constant (another norm of the same state)"""
    global _SHIFT
    if _SHIFT is None:
        import flax.linen as nn

        class ShiftNet(nn.Module):
            net: callable
            off: float

            def __call__(self, s):
                return self.net(s) + self.off
        _SHIFT = ShiftNet
    return _SHIFT(net=net, off=off)


def nonholo_cls():
    if not _cls:
        import flax.linen as nn
        import jax.numpy as jnp
        import jax

        class NonHolo(nn.Module):
            @nn.compact
            def __call__(self, s):
                x = 2 * s.ravel() - 1
                ini = lambda k, sh: (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.fold_in(k, 7), sh))
                w = self.param("w", ini, (x.shape[0],))
                v = self.param("v", ini, (2, 2))
                z = jnp.dot(w, x)
                return 0.3 * z * jnp.conj(v[0, 1] + v[1, 0]) + jnp.abs(v[0, 0] * z)**2 * 0.1 + jnp.sin(v[1, 1].real * 0.5) * z.imag
        _cls["c"] = NonHolo

        class Weak(nn.Module):
            eps: float = 1e-3
            leaf: int = -1

            @nn.compact
            def __call__(self, s):
                x = 2 * s.ravel() - 1
                ini = lambda k, sh: 0.3 * (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.fold_in(k, 7), sh))
                w = [self.param("w%d" % i, ini, (x.shape[0],)) for i in range(3)]
                z = [jnp.dot(a, x) for a in w]
                if self.leaf >= 0:          # holomorphic in all arrays except one
                    return sum(a + 0.1 * a**2 for a in z) + self.eps * jnp.conj(z[self.leaf])
                return sum(a + 0.1 * a**2 + self.eps * jnp.conj(a) for a in z)
        _cls["w"] = Weak

        class Spot(nn.Module):
            """not holomorphic, but with vanishing antiholomorphic part at special configurations or parameters"""
            kind: int = 0

            @nn.compact
            def __call__(self, s):
                x = s.ravel().astype(float)
                ini = lambda k, sh: 0.5 * (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.fold_in(k, 7), sh))
                p = self.param("p", ini if self.kind != 2 else (lambda k, sh: jnp.zeros(sh, dtype=complex)), (x.shape[0],))
                return spot(jnp, self.kind, p, x)
        _cls["s"] = Spot
    return _cls["c"]


def spot(xp, kind, p, x):
    if kind == 0:       # vanishes on the configuration of zeros
        return xp.dot(p, x) * 0.3j + xp.dot(xp.conj(p), x)
    if kind == 1:       # vanishes on the configuration of ones
        return xp.dot(p, 2 * x - 1) + 0.5 * xp.dot(xp.conj(p), x - 1)
    if kind == 2:       # vanishes at the (zero) initial parameters
        return xp.dot(p, 2 * x - 1) + xp.sum(0.4 * xp.abs(p)**2 * x)
    return xp.dot(p, 2 * x - 1) + 0.5 * xp.sum(xp.conj(p)) * (x[0] - x[min(1, x.shape[0] - 1)])      # vanishes on homogeneous configurations


def layers(params):
    """the (kernel, bias) pairs of a parameter dictionary in order of appearance; independent of layer names"""
    import re
    out = []

    def nat(k):
        return [int(t) if t.isdigit() else t for t in re.split(r"(\d+)", k)]

    def walk(d):
        if "kernel" in d:
            out.append((np.asarray(d["kernel"]), np.asarray(d["bias"]) if "bias" in d else None))
            return
        for k in sorted(d, key=nat):
            walk(d[k])
    walk(params)
    return out


def logcosh(x):
    """log cosh on the principal branch up to 2 pi i; overflow-safe"""
    x = np.where(np.real(x) < 0, -x, x)
    return x + np.log1p(np.exp(-2 * x)) - np.log(2.)


def conv(x, k, strides, b):
    """x: (*space, cin), k: (*F, cin, cout); valid cross-correlation, plain loops"""
    d = x.ndim - 1
    F = k.shape[:d]
    outs = [(x.shape[i] - F[i]) // strides[i] + 1 for i in range(d)]
    out = np.zeros(tuple(outs) + (k.shape[-1],), dtype=np.result_type(x, k))
    for p in np.ndindex(*outs):
        sl = tuple(slice(p[i] * strides[i], p[i] * strides[i] + F[i]) for i in range(d))
        out[p] = np.tensordot(x[sl], k, axes=d + 1)
    return out + b if b is not None else out


def forward(spec, params, s):
    """log amplitude of one configuration from the parameters, or None if no independent formula is available"""
    t = spec[0]
    x = 2.0 * np.asarray(s) - 1.0
    if t == "Two":
        ks = sorted(params.keys())
        a, b = forward(spec[1], params[ks[0]], s), forward(spec[2], params[ks[1]], s)
        return a + 1j * b
    if t == "NonHolo":
        x = x.ravel()
        w, v = np.asarray(params["w"]), np.asarray(params["v"])
        z = w @ x
        return 0.3 * z * np.conj(v[0, 1] + v[1, 0]) + abs(v[0, 0] * z)**2 * 0.1 + np.sin(v[1, 1].real * 0.5) * z.imag
    if t == "Weak":
        z = [np.asarray(params["w%d" % i]) @ x.ravel() for i in range(3)]
        return sum(a + 0.1 * a**2 + (spec[1] * np.conj(a) if spec[2] in (-1, i) else 0) for i, a in enumerate(z))
    if t == "Spot":
        return spot(np, spec[1], np.asarray(params["p"]), np.asarray(s, dtype=float).ravel())
    L = layers(params)
    if t in ("RBM", "CpxRBM", "CpxRBMns"):
        (k, b), = L
        x = (np.asarray(s, dtype=float) if t == "CpxRBMns" else x).ravel()
        z = x @ k + (0 if b is None else b)
        return np.sum(logcosh(z))
    if t == "FFN":
        fs = [np_act(n) for n in spec[3]]
        x = x.ravel()
        for i, (k, b) in enumerate(L):
            x = fs[min(i, len(fs) - 1)](x @ k + (0 if b is None else b))
        return np.sum(x)
    if t in ("CNN", "CpxCNN"):
        F, ch, st, an, periodic = spec[1], spec[2], spec[3], spec[4], spec[7]
        fs = [np_act(n) for n in an]
        x = x[..., None]
        for i, (k, b) in enumerate(L):
            if periodic:
                pad = [(0, f - 1) for f in F] + [(0, 0)]
                idx = np.ix_(*[np.arange(x.shape[j] + pad[j][1]) % x.shape[j] for j in range(x.ndim)])
                x = x[idx]
            elif t == "CNN":
                x = np.pad(x, [(f - 1, f - 1) for f in F] + [(0, 0)])
            else:               # zero padding to ceil(n / stride) outputs
                pd = []
                for j, f in enumerate(F):
                    tot = max((-(-x.shape[j] // st[j]) - 1) * st[j] + f - x.shape[j], 0)
                    pd.append((tot // 2, tot - tot // 2))
                x = np.pad(x, pd + [(0, 0)])
            x = fs[min(i, len(fs) - 1)](conv(x, k, st, b))
        return np.sum(x) / np.sqrt(x.size)
    return None


def spec_strategy(st, dim, allow=("RBM", "CpxRBM", "CpxRBMns", "FFN", "CNN", "CpxCNN", "Two", "NonHolo"), smooth=False):
    """dim: lattice dimension"""
    real_acts = [a for a in ACT_REAL if not (smooth and a == "relu")]

    @st.composite
    def cnn(draw, cpx):
        F = [draw(st.integers(1, 3)) for _ in range(dim)]
        ch = draw(st.sampled_from([[1], [2], [3], [2, 1], [1, 3], [2, 2], [2, 2, 1], [1, 2, 2], [3, 1, 2], [2, 1, 1]]))
        strd = [draw(st.sampled_from([1, 1, 1, 2])) for _ in range(dim)]
        an = draw(st.lists(st.sampled_from(ACT_CPX if cpx else real_acts), min_size=min(2, len(ch)), max_size=len(ch), unique=True))
        return ["CpxCNN" if cpx else "CNN", F, ch, strd, an, draw(st.booleans()), draw(st.booleans()), draw(st.booleans())]

    @st.composite
    def ffn(draw):
        ly = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
        an = draw(st.lists(st.sampled_from(real_acts), min_size=1, max_size=len(ly) + 1, unique=True))
        return ["FFN", ly, draw(st.booleans()), an]

    def rb(t):
        return st.tuples(st.just(t), st.integers(1, 4), st.booleans()).map(list)

    reals = [rb("RBM"), ffn(), cnn(False)]
    opts = []
    for a in allow:
        if a in ("RBM", "CpxRBM", "CpxRBMns"):
            opts.append(rb(a))
        elif a == "FFN":
            opts.append(ffn())
        elif a in ("CNN", "CpxCNN"):
            opts.append(cnn(a == "CpxCNN"))
        elif a == "Two":
            opts.append(st.tuples(st.just("Two"), st.one_of(*reals), st.one_of(*reals)).map(list))
        elif a == "NonHolo":
            opts.append(st.one_of(st.just(["NonHolo"]), st.tuples(st.just("Weak"), st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4, 1.0]), st.integers(-1, 2)).map(list),
                                  st.tuples(st.just("Spot"), st.integers(0, 3)).map(list)))
    return st.one_of(*opts)


def is_complex(spec):
    return spec[0] in ("CpxRBM", "CpxRBMns", "CpxCNN", "NonHolo", "Weak", "Spot") or (spec[0] == "RNN" and not spec[1].get("realValuedParams", True))


def is_holo(spec):
    return spec[0] in ("CpxRBM", "CpxRBMns", "CpxCNN")
