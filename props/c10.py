"""C10: autoregressive networks are normalised, and direct sampling draws from exactly the distribution they assign."""
ID = "C10"
RULE = ("A case is a recurrent network (1D/2D, vanilla/LSTM/GRU/user-defined cell, depth, hidden size, local dimension, real/complex output, probability factor 0.5 or 1, "
        "alone or as amplitude network of a pair) with random parameters, on 1..3 devices. Oracle: sum over all configurations of |psi|^(1/kappa) equals 1, conditionals "
        "are unchanged by later sites, and a chi-square test of direct samples (p < 1e-8 fails) against the enumerated distribution. Non-trivial: the distribution is not uniform.")
ASSUMPTIONS = ["real network parameters (complex parameters: see known findings)", "statistical comparison at significance 1e-8 per case, seeds fixed by the case"]


def shards(tier):
    q = tier == "quick"
    return [{"part": "rnn", "devices": d, "examples": 9 if q else 110} for d in (1, 2, 3, 1, 1, 2, 1, 1)]


def strategy(shard):
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        dim = draw(st.sampled_from([1, 1, 2]))
        ind = draw(st.sampled_from([2, 2, 3, 4]))
        L = draw(st.integers(1, {2: 8, 3: 5, 4: 4}[ind])) if dim == 1 else draw(st.integers(1, 3 if ind == 2 else 2))
        real = draw(st.booleans())
        return {"dim": dim, "L": L, "hid": draw(st.integers(1, 4)), "depth": draw(st.integers(1, 3)), "ind": ind, "kappa": draw(st.sampled_from([0.5, 0.5, 1.0])),
                "real": real, "cell": draw(st.sampled_from(["RNN", "LSTM", "GRU", "RNN", "LSTM", "GRU", "own1", "own2"])),
                "act": draw(st.sampled_from(["elu", "tanh", "relu"])), "two": real and draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
                "scale": draw(st.sampled_from([0.5, 1.0, 1.5])), "mine": draw(st.booleans())}
    return gen()


def corpus(shard):
    b = {"dim": 1, "L": 4, "hid": 3, "depth": 2, "ind": 2, "kappa": 0.5, "real": False, "cell": "RNN", "act": "elu", "two": False, "seed": 3, "scale": 1.0, "mine": False}
    out = [b, dict(b, dim=2, L=3, cell="LSTM", depth=1), dict(b, dim=2, L=2, cell="GRU", ind=3), dict(b, L=3, ind=4, kappa=1.0, real=True, cell="GRU"),
           dict(b, dim=2, L=3, depth=2, mine=True), dict(b, L=5, cell="LSTM", two=True, real=True),
           dict(b, cell="own1"), dict(b, dim=2, L=2, cell="own2"), dict(b, L=3, ind=3, cell="own2", real=True)]
    return out[shard["devices"] - 1::3] if shard["devices"] > 1 else out[0::6]


def check(case, ctx):
    import itertools
    import jax
    import jax.numpy as jnp
    import numpy as np
    import flax.linen as nn
    import jVMC
    from jVMC.vqs import NQS
    from lib import nets, stat
    from lib.harness import rng

    dev = ctx.shard["devices"]
    known = case.get("known", False)
    dim, L, ind, kappa = case["dim"], case["L"], case["ind"], case["kappa"]
    cls = jVMC.nets.RNN1DGeneral if dim == 1 else jVMC.nets.RNN2DGeneral
    kw = dict(L=L, hiddenSize=case["hid"], depth=case["depth"], inputDim=ind, logProbFactor=kappa, realValuedOutput=case["real"], cell=case["cell"],
              actFun={"elu": nn.elu, "tanh": jnp.tanh, "relu": nn.relu}[case["act"]])
    own = case["cell"].startswith("own")
    if own:
        g0 = rng(case["seed"], 5)
        rows = int(case["cell"][-1])
        carry = np.round(g0.standard_normal(((L,) if dim == 2 else ()) + (case["depth"], rows, case["hid"])), 3)

        def cells():
            return [nets.Cell(case["hid"], rows) for _ in range(case["depth"])]
        kw["cell"] = (cells(), jnp.array(carry))
    if known:
        kw["realValuedParams"] = False
    net = cls(**kw)
    if case["two"]:
        net = (net, jVMC.nets.FFN(layers=(2,)))
    n = L**dim
    S = np.array(list(itertools.product(range(ind), repeat=n)), dtype=np.int32)
    M = len(S)
    pad = -M % dev
    Sd = np.concatenate([S, np.zeros((pad, n), dtype=np.int32)]).reshape((dev, -1) + (L,) * dim)
    g = rng(case["seed"], 12)
    with ctx.sut("recurrent network"):
        psi = NQS(net, batchSize=37, seed=case["seed"] % 1000)
        psi(jnp.array(Sd))
        P0 = np.asarray(psi.get_parameters())
        P = case["scale"] * g.standard_normal(len(P0))
        Pset = P if not case["mine"] else P0
        psi.set_parameters(jnp.array(P))
        v = np.asarray(psi(jnp.array(Sd))).ravel()[:M]
        pdict = psi.parameters
        psi.set_parameters(jnp.array(Pset))
    p = np.exp(v.real / kappa)
    ctx.expect(abs(p.sum() - 1) < 1e-8, lambda: "sum over all configurations of |psi|^(1/kappa) is %.12f" % p.sum())
    if case["real"] and not case["two"]:
        ctx.expect(not np.iscomplexobj(v) or np.max(np.abs(v.imag)) == 0, "real-valued output requested, but the network returns a phase")
    if own:
        with ctx.sut("custom cell with another initial carry"):
            phi = NQS(cls(**dict(kw, cell=(cells(), jnp.array(carry)))), batchSize=37, seed=case["seed"] % 1000)
            phi(jnp.array(Sd))
            chi = NQS(cls(**dict(kw, cell=(cells(), jnp.array(carry + 0.5)))), batchSize=37, seed=case["seed"] % 1000)
            chi(jnp.array(Sd))
            n1 = len(np.asarray(phi.get_parameters()))
            P1 = g.standard_normal(n1)
            out = []
            for s in (phi, chi):
                s.set_parameters(jnp.array(P1))
                out.append(np.asarray(s(jnp.array(Sd))).ravel()[:M])
            if not case["two"]:
                phi.set_parameters(jnp.array(P))
                ctx.close(phi(jnp.array(Sd)).ravel()[:M], v, "same custom cell, same parameters")
        ctx.expect(np.max(np.abs(out[0] - out[1])) > 1e-9, "the initial carry of a custom cell has no effect")
    # direct sampling; with parameters handed over explicitly if the state carries others
    N = 3000
    with ctx.sut("sampling"):
        keys = jax.random.split(jax.random.PRNGKey(case["seed"]), dev)
        x = psi.sample(N, keys, parameters=pdict) if case["mine"] else psi.sample(N, keys)
        x = np.asarray(x)
        x2 = psi.sample(N, keys, parameters=pdict)
        y = np.asarray(psi.sample(7, keys, parameters=pdict))
    ctx.expect(x.shape == (dev, N) + (L,) * dim, lambda: "sample shape %s" % (x.shape,))
    ctx.expect(y.shape == (dev, 7) + (L,) * dim, lambda: "sample shape %s" % (y.shape,))
    ctx.expect(np.issubdtype(x.dtype, np.integer) and x.min() >= 0 and x.max() < ind, "samples outside of the local basis")
    ctx.expect(np.array_equal(x, np.asarray(x2)), "same key and parameters give different samples")
    w = ind ** np.arange(n)[::-1]
    for d in range(dev):
        cnt = np.bincount(x[d].reshape(N, n) @ w, minlength=M)
        pv = stat.chi2_p(cnt, p)
        ctx.expect(pv > 1e-8, lambda: "direct samples on device %d do not follow |psi|^(1/kappa): p-value %.1e" % (d, pv))
        if M > 8:
            ctx.expect(d == 0 or not np.array_equal(x[d], x[0]) or p.max() > 0.99, "all devices draw identical samples")
    return p.max() - p.min() > 1e-4, ["%dD" % dim, case["cell"], "kappa%g" % kappa, "real" if case["real"] else "complex", "two" if case["two"] else "single"]
