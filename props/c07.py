"""C07: reported gradients are the derivatives of the log-amplitude with respect to the flat parameter vector."""
ID = "C07"
RULE = ("A case is a network (real, holomorphic, complex non-holomorphic, amplitude+phase pair, symmetrised, recurrent), random parameters, random "
        "configurations, a batch size and 1..4 devices. Oracle: central finite differences of the state's own evaluation under set_parameters "
        "along every flat parameter direction; the gradient dictionary must agree with the flat gradient through the published index map. "
        "Non-trivial: the gradient matrix has at least 2 distinct nonzero entries.")
ASSUMPTIONS = ["activation functions are differentiable at the generated points (relu kinks excluded)",
               "gradient dictionaries of complex non-holomorphic networks are documented as not supported"]
EPS = 1e-6


def shards(tier):
    q = tier == "quick"
    return [{"part": "grad", "devices": d, "k": k, "examples": 12 if q else 150} for k, d in enumerate((1, 2, 3, 1, 4, 1, 2, 1))]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import netgen

    @st.composite
    def gen(draw):
        shape = draw(st.sampled_from([[2], [3], [4], [2, 2], [3, 3]]))
        spec = draw(netgen.spec_strategy(st, len(shape), smooth=True))
        if len(shape) == 1 and draw(st.integers(0, 9)) == 0:
            spec = ["RNN", {"L": shape[0], "hiddenSize": 2, "depth": draw(st.integers(1, 2)), "realValuedParams": draw(st.booleans()),
                            "realValuedOutput": draw(st.booleans()), "logProbFactor": 0.5}]
            if not spec[1]["realValuedParams"]:
                spec[1]["realValuedOutput"] = False
        return {"shape": shape, "spec": spec, "seed": draw(st.integers(0, 10**6)), "scale": draw(st.sampled_from([0.3, 0.7])),
                "B": draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.just(30))), "bs": draw(st.one_of(st.integers(1, 7), st.sampled_from([16, 1000]))), "orbit": draw(st.sampled_from([False, False, True])) and spec[0] in ("RBM", "CpxRBM", "FFN", "Two"),
                "zero": draw(st.booleans()), "first": draw(st.sampled_from([None, None, 1])), "plain": draw(st.integers(0, 4)) == 0, "B2": draw(st.integers(1, 9))}
    return gen()


def corpus(shard):
    mk = lambda shape, spec, **k: dict({"shape": shape, "spec": spec, "seed": 1, "scale": 0.7, "B": 3, "bs": 2, "orbit": False, "zero": False, "B2": 5}, **k)
    out = [mk([3], ["CpxRBM", 2, True]), mk([2, 2], ["CpxCNN", [2, 2], [2, 2], [1, 1], ["poly6"], True, True, True]),
           mk([3], ["NonHolo"]), mk([4], ["Two", ["RBM", 2, True], ["FFN", [3], True, ["tanh"]]]), mk([4], ["Two", ["RBM", 2, True], ["RBM", 1, False]], orbit=True),
           mk([3], ["CpxRBMns", 2, True]), mk([3], ["FFN", [2], False, ["relu"]], zero=True),
           mk([3], ["RNN", {"L": 3, "hiddenSize": 2, "depth": 2, "realValuedParams": False, "realValuedOutput": False, "logProbFactor": 0.5}]),
           mk([4], ["CNN", [2], [2, 2, 1], [1], ["tanh", "elu"], True, True, True]), mk([3, 3], ["CNN", [2, 2], [2], [1, 2], ["square"], False, False, False]),
           mk([4], ["FFN", [3, 2], True, ["tanh", "square"]]), mk([4], ["CpxRBM", 2, False], orbit=True), mk([3], ["RBM", 3, True], orbit=True),
           mk([2, 2], ["NonHolo"]), mk([4], ["CpxCNN", [3], [1, 2], [1], ["square", "tanh"], True, False, False]),
           mk([3], ["RNN", {"L": 3, "hiddenSize": 2, "depth": 1, "realValuedParams": True, "realValuedOutput": False, "logProbFactor": 0.5}])]
    out += [mk([3], sp, plain=True) for sp in (["CpxRBM", 2, True], ["RBM", 2, True], ["NonHolo"], ["Two", ["RBM", 2, True], ["FFN", [3], True, ["tanh"]]])]
    out += [mk([4], ["Weak", e, l]) for e, l in ((1e-2, -1), (1e-3, 0), (1e-4, -1), (0.5, 1), (0.5, 2))]
    out += [mk([4], ["Spot", k], first=f) for k, f in ((0, 0), (1, 1), (2, 1), (3, 1))]
    return out[shard["k"]::8]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from jVMC.vqs import NQS
    import jVMC.util.symmetries as sym
    from lib import netgen
    from lib.harness import rng

    dev = ctx.shard["devices"]
    shape = tuple(case["shape"])
    spec = case["spec"]
    g = rng(case["seed"], 78)
    B = case["B"]
    s = g.integers(0, 2, size=(dev, B) + shape).astype(np.int32)
    if case["zero"]:
        s[0, 0] = 0
    if case.get("first") is not None:
        s[0, 0] = case["first"]
    kw = {}
    plain = case.get("plain", False) and not case["orbit"] and spec[0] not in ("RNN", "FFN")
    if case["orbit"]:
        kw["orbit"] = sym.get_orbit_1D(shape[0], "translation", "reflection") if len(shape) == 1 else sym.get_orbit_2D_square(shape[0], "rotation")
    sj = jnp.array(s)
    seeds = range(case["seed"], case["seed"] + (6 if spec[0] == "FFN" and "relu" in spec[3] else 1))
    for sd in seeds:        # several initialisations: the classification of the net happens at its first use
        with ctx.sut("initialising"):
            net = netgen.build(spec)
            psi = NQS(netgen.Exp(net) if plain else net, batchSize=case["bs"], seed=sd, logarithmic=not plain, **kw)
            psi(sj)
            P0 = np.asarray(psi.get_parameters())
            G = np.asarray(psi.gradients(sj))
        n = len(P0)
        ctx.expect(G.shape == (dev, B, n), lambda: "gradient shape %s, expected %s" % (G.shape, (dev, B, n)))
        ctx.expect(n == int(psi.numParameters) * (2 if netgen.is_complex(spec) else 1), "number of flat parameters %d, numParameters %s" % (n, psi.numParameters))
    if len(seeds) > 1:
        return False, ["relu"]
    P = P0 + case["scale"] * g.standard_normal(n)
    with ctx.sut("gradients"):
        psi.set_parameters(jnp.array(P))
        G = np.asarray(psi.gradients(sj))
    with ctx.sut("evaluating"):
        base = np.asarray(psi(sj))

    def differences(h):
        D = np.zeros((dev, B, n), dtype=complex)
        with ctx.sut("evaluating"):
            for k in range(n):
                d = np.zeros(n)
                d[k] = h
                psi.set_parameters(jnp.array(P + d))
                a = np.asarray(psi(sj))
                psi.set_parameters(jnp.array(P - d))
                b = np.asarray(psi(sj))
                diff = np.log((a / b).astype(complex)) if plain else a - b
                diff = diff.real + 1j * np.angle(np.exp(1j * diff.imag))      # same branch of the logarithm
                D[..., k] = diff / (2 * h)
            psi.set_parameters(jnp.array(P))
        return D
    FD = differences(EPS)
    if not np.all(np.isfinite(base)) or np.max(np.abs(base)) > 1e3:
        return False, ["large"]
    if np.max(np.abs(FD)) > 2e3:            # too steep for difference quotients
        return False, ["steep"]
    if plain and np.min(np.abs(base)) < 1e-4:
        return False, ["small"]
    tol = 1e-6 * (1 + np.max(np.abs(FD)) + np.max(np.abs(base)))
    if G.shape == FD.shape and not np.all(np.abs(G - FD) <= 3 * tol):
        # strongly curved functions: the change with the step size bounds the error of the difference quotient
        FD2 = differences(2 * EPS)
        err = 2 * np.abs(FD - FD2)
        FD = np.where(err > 3 * tol, np.where(np.abs(G - FD) <= err + 3 * tol, G, FD), FD)
    ctx.close(G, FD, "gradients of %s vs finite differences" % spec[0], rtol=0, atol=3 * tol)
    labels = ["plain"] * plain + [spec[0], "holo" if psi.holomorphic else ("nonholo" if netgen.is_complex(spec) else "realparams")] + (["sym"] if case["orbit"] else [])

    # another batch composed of the same configurations, evaluated and differentiated with the same state
    ii = g.integers(0, B, size=case["B2"])
    with ctx.sut("gradients of another batch"):
        G2 = np.asarray(psi.gradients(jnp.array(s[:, ii])))
        v2 = np.asarray(psi(jnp.array(s[:, ii])))
        G3 = np.asarray(psi.gradients(sj))
    ctx.close(G2, G[:, ii], "gradients of the same configurations in another batch", rtol=1e-10, atol=1e-10)
    ctx.close(v2, base[:, ii], "amplitudes of the same configurations in another batch", rtol=1e-10, atol=1e-10)
    ctx.close(G3, G, "gradients after other calls", rtol=1e-10, atol=1e-10)

    if not netgen.is_complex(spec) or psi.holomorphic:
        with ctx.sut("gradients_dict"):
            D = psi.gradients_dict(sj)
            M = psi.grad_dict_to_vec_map()
            dl = jax.tree_util.tree_leaves(D)
            ml = jax.tree_util.tree_leaves(M)
        ctx.expect(jax.tree_util.tree_structure(D) == jax.tree_util.tree_structure(M) == jax.tree_util.tree_structure(psi.params),
                   "structure of the gradient dictionary differs from the parameters")
        used = np.zeros(n, dtype=int)
        for x, m in zip(dl, ml):
            m = np.asarray(m)
            used[m] += 1
            ctx.close(np.asarray(x), G[..., m], "dictionary gradient vs flat gradient", rtol=1e-9)
        ctx.expect(np.all(used == 1), "the index map does not cover the parameter vector exactly once")
        labels.append("dict")
    nz = np.unique(np.round(G[np.abs(G) > 1e-8], 8))
    return len(nz) > 1, labels
