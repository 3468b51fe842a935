"""C13: sampler bookkeeping: enough samples, truthfully reported, with consistent shapes; proposers are valid symmetric moves."""
ID = "C13"
RULE = ("Part 'book': (chains, requested number, multipleOf, devices 1-3, processes 1-3, MCMC or direct sampling, default or explicit number): returned shapes, reported number, lower bound, divisibility, "
        "bounded excess, normalised weights, reproducibility from the seed, refused constructions. Part 'prop': for every proposer and lattice, all configurations x random keys: the move "
        "stays in the local basis, changes what it should, and the empirical transition matrix is symmetric and connects the sector. Non-trivial: requested number not a multiple of the layout, or lattice with >= 2 sites.")
ASSUMPTIONS = []


def shards(tier):
    q = tier == "quick"
    return [{"part": "book", "devices": d, "examples": 12 if q else 150} for d in (1, 2, 3)] + \
        [{"part": "book", "devices": d, "mpi": m, "examples": 10 if q else 100} for d, m in ((1, 2), (2, 3))] + \
        [{"part": "prop", "devices": 1, "examples": 14 if q else 150}] * 2


def strategy(shard):
    from hypothesis import strategies as st

    @st.composite
    def book(draw):
        return {"chains": draw(st.one_of(st.integers(1, 6), st.sampled_from([7, 25]))), "N": draw(st.one_of(st.integers(1, 40), st.integers(1, 40), st.sampled_from([200, 1001]))), "mult": draw(st.sampled_from([None, 1, 2, 3, 4, 5, 6, 8])), "direct": draw(st.sampled_from([False, False, True])),
                "explicit": draw(st.booleans()), "shape": draw(st.sampled_from([[2], [3], [2, 2]])), "seed": draw(st.integers(0, 10**5)), "twice": draw(st.booleans())}

    @st.composite
    def prop(draw):
        p = draw(st.sampled_from(["flip", "Z2", "zeroMag", "povm"]))
        shapes = {"flip": [[1], [2], [3], [5], [2, 2], [1, 3], [2, 3], [2, 2, 2]], "Z2": [[2], [3], [4], [2, 2], [3, 1], [2, 1, 2]], "zeroMag": [[2], [4], [6], [2, 2], [2, 3], [4, 1], [2, 1, 2]],
                  "povm": [[1], [2], [3], [2, 1]]}[p]
        return {"p": p, "shape": draw(st.sampled_from(shapes)), "seed": draw(st.integers(0, 10**6))}
    return book() if shard["part"] == "book" else prop()


def corpus(shard):
    if shard["part"] == "book":
        b = {"chains": 3, "N": 7, "mult": 4, "direct": False, "explicit": True, "shape": [3], "seed": 1, "twice": True}
        return [b, dict(b, direct=True, mult=3, N=10), dict(b, mult=None, N=1, chains=5), dict(b, direct=True, mult=None, N=7, explicit=False), dict(b, mult=None, N=13, chains=2)]
    return [{"p": "zeroMag", "shape": [4], "seed": 1}, {"p": "povm", "shape": [2], "seed": 1}, {"p": "zeroMag", "shape": [2, 3], "seed": 1}]


def check_prop(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC.sampler as js
    from lib import nets
    p, shape = case["p"], tuple(case["shape"])
    f = {"flip": js.propose_spin_flip, "Z2": js.propose_spin_flip_Z2, "zeroMag": js.propose_spin_flip_zeroMag, "povm": js.propose_POVM_outcome}[p]
    n = int(np.prod(shape))
    ld = 4 if p == "povm" else 2
    B = nets.basis(n, ld)
    if p == "zeroMag":
        B = B[B.sum(axis=1) * 2 == n]
    K = 40000 // len(B) + 50
    with ctx.sut("proposing updates"):
        keys = jax.random.split(jax.random.PRNGKey(case["seed"]), len(B) * K)
        keys = keys.reshape((len(B), K) + keys.shape[1:])
        run = jax.jit(jax.vmap(lambda s, ks: jax.vmap(lambda k: f(k, s, None))(ks)))
        out = np.asarray(run(jnp.array(B.reshape((-1,) + shape)), keys))
    ctx.expect(out.shape == (len(B), K) + shape, lambda: "proposed configurations have shape %s" % (out.shape,))
    out = out.reshape(len(B), K, n)
    ctx.expect(np.issubdtype(out.dtype, np.integer) and out.min() >= 0 and out.max() < ld, lambda: "proposed values %s..%s" % (out.min(), out.max()))
    diff = (out != B[:, None, :]).sum(axis=2)
    if p == "flip":
        ctx.expect(np.all(diff == 1), "a spin-flip proposal does not change exactly one site")
    elif p == "povm":
        ctx.expect(np.all(diff <= 1), "a POVM proposal changes more than one site")
    elif p == "Z2":
        ctx.expect(np.all((diff == 1) | (diff == n - 1)), "a Z2 proposal is neither a single flip nor its global inversion")
    else:
        ctx.expect(np.all(out.sum(axis=2) * 2 == n), "a proposal leaves the zero-magnetisation sector")
        ctx.expect(np.all((diff == 2) | (diff == n - 2)), "a zero-magnetisation proposal is not a pair exchange up to inversion")
    w = ld ** np.arange(n)
    code = {int(k): i for i, k in enumerate(B @ w)}
    lut = np.full(ld**n, -1)
    for k, i in code.items():
        lut[k] = i
    T = np.zeros((len(B), len(B)))
    for i in range(len(B)):
        T[i] = np.bincount(lut[out[i] @ w], minlength=len(B))
    # symmetry of the proposal probability, needed for the acceptance rule
    a, b = T, T.T
    s = a + b
    iu = np.triu_indices(len(B), 1)
    m = s[iu] > 20
    z2 = (a[iu][m] - b[iu][m])**2 / s[iu][m]
    if z2.size:
        from scipy.stats import chi2
        pv = chi2.sf(z2.sum(), z2.size)
        ctx.expect(pv > 1e-9, lambda: "proposal probabilities are not symmetric: p-value %.1e" % pv)
    lonely = (a + b)[iu]
    ctx.expect(np.all((np.minimum(a, b)[iu] > 0) | (lonely < 20)), "a move is proposed whose reverse is never proposed")
    # every configuration of the sector can be reached
    R = np.eye(len(B), dtype=bool)
    A = (T > 0) | np.eye(len(B), dtype=bool)
    for _ in range(12):
        R = (R.astype(int) @ A.astype(int)) > 0
    ctx.expect(n == 0 or np.all(R), "some configurations can never be reached")
    return n > 1, [p, "%dD" % len(shape)]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.sampler as js
    from jVMC.vqs import NQS
    from lib import nets
    from lib.harness import rng
    if ctx.shard["part"] == "prop":
        return check_prop(case, ctx)
    dev, size = ctx.shard["devices"], ctx.size
    shape = tuple(case["shape"])
    if case["direct"]:
        shape = (case["shape"][0],)
    n = int(np.prod(shape))
    mult = case["mult"] or 1

    def make():
        if case["direct"]:
            psi = NQS(jVMC.nets.RNN1DGeneral(L=shape[0], hiddenSize=2, logProbFactor=0.5), batchSize=10)
            return psi, js.MCSampler(psi, shape, case["seed"], numSamples=case["N"] if not case["explicit"] else 3)
        net, _ = nets.make_table(rng(case["seed"], 1), n, 2, "reim")
        psi = NQS(net, batchSize=10)
        return psi, js.MCSampler(psi, shape, case["seed"], updateProposer=js.propose_spin_flip, numChains=case["chains"], numSamples=case["N"] if not case["explicit"] else 3,
                                 thermalizationSweeps=1, sweepSteps=3)
    kw = {}
    if case["explicit"]:
        kw["numSamples"] = case["N"]
    if case["mult"] is not None:
        kw["multipleOf"] = case["mult"]
    with ctx.sut("sampling"):
        psi, sampler = make()
        before = np.asarray(sampler.acceptance_ratio())
        res = [sampler.sample(**kw)]
        rep = [int(sampler.get_last_number_of_samples())]
        if case["twice"]:
            res.append(sampler.sample(**kw))
            rep.append(int(sampler.get_last_number_of_samples()))
        _, s2 = make()
        again = np.asarray(s2.sample(**kw)[0])
    ctx.expect(before.size == 1 and float(before.ravel()[0]) == 0, "acceptance ratio %s before anything was sampled" % before)
    with ctx.sut("acceptance ratio"):
        after = float(np.asarray(sampler.acceptance_ratio()).ravel()[0])
    ctx.expect(after == 0 if case["direct"] else 0 <= after <= 1, lambda: "acceptance ratio %r" % after)
    unit = mult if case["direct"] else int(np.lcm(case["chains"], mult))
    for (c, l, p), r in zip(res, rep):
        c, l, p = np.asarray(c), np.asarray(l), np.asarray(p)
        B = c.shape[1]
        ctx.expect(c.shape == (dev, B) + shape and l.shape == (dev, B) and p.shape == (dev, B), lambda: "shapes %s, %s, %s" % (c.shape, l.shape, p.shape))
        counts = [B * dev] if ctx.comm is None else ctx.comm.allgather(B * dev)
        psum = p.sum() if ctx.comm is None else sum(ctx.comm.allgather(p.sum()))
        tot = sum(counts)
        ctx.expect(tot == r, lambda: "%d samples returned, %d reported" % (tot, r))
        ctx.expect(tot >= case["N"], lambda: "%d samples returned, %d requested" % (tot, case["N"]))
        ctx.expect(tot % mult == 0 and B % mult == 0, lambda: "%d samples (%d per device) is not a multiple of %d" % (tot, B, mult))
        ctx.expect(tot < case["N"] + size * dev * unit, lambda: "%d samples for a request of %d" % (tot, case["N"]))
        ctx.expect(abs(psum - 1) < 1e-9, lambda: "weights sum to %r" % psum)
        # both samplers draw from |psi|^2 here: all samples count the same, whichever process holds them
        ctx.close(p, np.full(p.shape, 1.0 / tot), "weights of samples drawn from |psi|^2")
        ctx.expect(c.size == 0 or (c.min() >= 0 and c.max() <= 1), "values outside of the local basis")
    ctx.expect(np.array_equal(again, np.asarray(res[0][0])), "the same seed does not reproduce the sample")
    if ctx.comm is None and not case["direct"]:
        with ctx.raises((RuntimeError,), "a Markov chain sampler without update proposer"):
            js.MCSampler(psi, shape, 1)
        for mu in (-0.1, 2.5):
            with ctx.raises((ValueError,), "mu=%g" % mu):
                js.MCSampler(psi, shape, 1, updateProposer=js.propose_spin_flip, mu=mu)
    return case["N"] % (unit * dev * size) != 0, ["direct" if case["direct"] else "mcmc", "mult" if mult > 1 else "nomult"]
