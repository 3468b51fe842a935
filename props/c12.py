"""C12: Monte Carlo samples follow the advertised distribution and carry the weights that turn them into |psi|^(1/kappa) averages."""
ID = "C12"
RULE = ("A case is an exactly known ansatz or a (symmetrised) recurrent network, an update proposer (spin flip, Z2, zero magnetisation, POVM outcome, user-defined with argument), "
        "mu, probability factor, chain number, and a history of sample calls interleaved with parameter changes, explicit parameters, new random keys, on 1-3 devices and 1-2 processes. "
        "Oracle: chi-square test of the configurations against |psi|^mu (p < 1e-9 fails), exact formula for the weights, expected acceptance ratio of the Metropolis rule. "
        "Non-trivial: target distribution not uniform and at least 2 sample calls.")
ASSUMPTIONS = ["statistical comparison at significance 1e-9 per call; all random numbers are fixed by the case", "mu > 0 for single-spin-flip chains (mu = 0: known finding)",
               "chains are run long enough for the small lattices used (>= 200 updates before each sample)"]


def shards(tier):
    q = tier == "quick"
    return [{"part": "mc", "devices": d, "examples": 6 if q else 90} for d in (1, 2, 1, 3, 1)] + [{"part": "mc", "devices": 1, "mpi": 2, "examples": 6 if q else 60}] + \
        [{"part": "gen", "devices": d, "examples": 5 if q else 60} for d in (1, 2)]


def strategy(shard):
    from hypothesis import strategies as st

    @st.composite
    def mc(draw):
        prop = draw(st.sampled_from(["flip", "flip", "Z2", "zeroMag", "povm", "custom"]))
        shape = draw(st.sampled_from({"flip": [[2], [3], [4], [2, 2], [2, 1, 2]], "Z2": [[2], [3], [4], [2, 2], [1, 2, 2]], "zeroMag": [[4], [2, 2], [2, 3], [2, 1, 2]], "povm": [[1], [2]], "custom": [[2], [3]]}[prop]))
        ops = draw(st.lists(st.tuples(st.sampled_from(["sample", "sample", "with", "set", "key", "two"]), st.integers(0, 10**6)).map(list), min_size=1, max_size=3))
        return {"prop": prop, "shape": shape, "mu": draw(st.sampled_from([2, 2, 1, 0.5, 1.5])), "kappa": draw(st.sampled_from([0.5, 0.5, 1.0])),
                "kind": draw(st.sampled_from(["cpx", "reim", "real"])), "seed": draw(st.integers(0, 10**6)), "chains": draw(st.sampled_from([1500, 2011])),
                "ops": [["sample", draw(st.integers(0, 10**6))]] + ops, "intkey": draw(st.booleans()), "plain": draw(st.integers(0, 4)) == 0, "sweep": draw(st.sampled_from([50, 57]))}

    @st.composite
    def gen(draw):
        return {"L": draw(st.integers(2, 4)), "cell": draw(st.sampled_from(["RNN", "GRU"])), "kappa": draw(st.sampled_from([0.5, 0.5, 1.0])),
                "sym": draw(st.lists(st.sampled_from(["translation", "reflection", "spinflip"]), unique=True, max_size=2)), "seed": draw(st.integers(0, 10**6)),
                "two": draw(st.booleans()), "N": draw(st.sampled_from([1500, 1501])), "ops": draw(st.lists(st.sampled_from(["sample", "with", "set", "key"]), min_size=1, max_size=3)), "given": draw(st.booleans())}
    return mc() if shard["part"] == "mc" else gen()


def corpus(shard):
    if shard["part"] == "mc":
        b = {"prop": "flip", "shape": [3], "mu": 2, "kappa": 0.5, "kind": "reim", "seed": 2, "chains": 1500, "intkey": True, "sweep": 50,
             "ops": [["sample", 1], ["set", 6], ["with", 3], ["sample", 1], ["with", 8], ["two", 3], ["key", 4], ["set", 15], ["set", 2]]}
        if shard["devices"] == 1 and shard.get("mpi", 1) == 1:
            return [b, dict(b, prop="povm", shape=[2], mu=1, kappa=1.0, kind="real")]
        return [b, dict(b, prop="zeroMag", shape=[2, 2], mu=1.5), dict(b, kind="real", mu=1, plain=True, ops=b["ops"][:3])]
    return [{"L": 3, "cell": "RNN", "kappa": 0.5, "sym": ["translation", "spinflip"], "seed": 5, "two": False, "N": 1501, "ops": ["sample", "with", "set"], "given": False}]


def my_proposer(key, s, info):
    """user-defined symmetric update: flip site info["site"] or a random other site"""
    import jax
    i = jax.random.randint(key, (), 0, s.size + info)
    i = i % s.size
    return s.at[i].set(1 - s[i])


def gather(ctx, x):
    return [x] if ctx.comm is None else ctx.comm.allgather(x)


def check_gen(case, ctx):
    import itertools
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    from jVMC.vqs import NQS
    from jVMC.nets.sym_wrapper import SymNet, avgFun_Coefficients_Sep
    from jVMC.util.symmetries import get_orbit_1D
    from lib import stat
    from lib.harness import rng
    dev, L = ctx.shard["devices"], case["L"]
    kappa = 0.5 if case["sym"] else case["kappa"]       # the probability average is defined for pure states
    S = np.array(list(itertools.product(range(2), repeat=L)), dtype=np.int32)
    rnn = jVMC.nets.RNN1DGeneral(L=L, hiddenSize=3, cell=case["cell"], logProbFactor=kappa, realValuedOutput=case["two"])
    net = jVMC.nets.two_nets_wrapper.TwoNets((rnn, jVMC.nets.FFN(layers=(2,)))) if case["two"] else rnn
    if case["sym"]:
        net = SymNet(orbit=get_orbit_1D(L, *case["sym"]), net=net, avgFun=avgFun_Coefficients_Sep)
    with ctx.sut("constructing"):
        psi = NQS(net, batchSize=50)
        sampler = jVMC.sampler.MCSampler(psi, (L,), case["seed"] if case["given"] else jax.random.PRNGKey(case["seed"]), numSamples=case["N"], logProbFactor=kappa, mu=1.0 / kappa)
    Sd = jnp.array(np.concatenate([S] * dev).reshape(dev, -1, L))
    g = rng(case["seed"], 4)
    cur = g.standard_normal(len(np.asarray(psi.get_parameters())))
    with ctx.sut("set"):
        psi.set_parameters(jnp.array(cur))
    last = None
    for op in case["ops"]:
        with ctx.sut(op):
            new = g.standard_normal(len(cur))
            used = cur
            if op == "set":
                psi.set_parameters(jnp.array(new))
                cur = used = new
            if op == "key":
                sampler.set_random_key(jax.random.PRNGKey(int(g.integers(10**6))))
            if op == "with":
                used = new
                conf, lp, p = sampler.sample(parameters=jnp.array(new))
            else:
                conf, lp, p = sampler.sample()
            conf, lp, p = np.asarray(conf), np.asarray(lp), np.asarray(p)
            ctx.close(psi.get_parameters(), cur, "parameters of the state after sampling")
            psi.set_parameters(jnp.array(used))
            v = np.asarray(psi(Sd))[0]
            psi.set_parameters(jnp.array(cur))
            N = int(sampler.get_last_number_of_samples())
        idx = conf.reshape(-1, L) @ (2 ** np.arange(L)[::-1])
        ctx.expect(len(idx) == N and N >= case["N"], lambda: "%d samples returned, %d reported, %d requested" % (len(idx), N, case["N"]))
        ctx.close(lp.ravel(), v[idx], "returned log amplitudes")
        ctx.close(p, np.full(p.shape, 1.0 / N), "weights of direct samples")
        prob = np.exp(v.real / kappa)
        ctx.expect(abs(prob.sum() - 1) < 1e-8, lambda: "the symmetrised network is not normalised: %r" % prob.sum())
        pv = stat.chi2_p(np.bincount(idx, minlength=2**L), prob)
        ctx.expect(pv > 1e-9, lambda: "direct samples do not follow |Psi|^(1/kappa): p-value %.1e" % pv)
        ctx.expect(last is None or not np.array_equal(idx, last), "consecutive calls return identical samples")
        last = idx
    return len(case["ops"]) > 1, ["direct", case["cell"], "sym" if case["sym"] else "nosym"]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.sampler as js
    from jVMC.vqs import NQS
    from lib import nets, stat
    from lib.harness import rng

    if ctx.shard["part"] == "gen":
        return check_gen(case, ctx)
    dev = ctx.shard["devices"]
    shape, kind, mu, kappa, chains = tuple(case["shape"]), case["kind"], case["mu"], case["kappa"], case["chains"]
    n = int(np.prod(shape))
    ld = 4 if case["prop"] == "povm" else 2
    M = ld**n
    plain = case.get("plain", False)
    net, logpsi = nets.make_table(rng(case["seed"], 1), n, ld, kind, plain)
    basis = nets.basis(n, ld)
    allowed = np.ones(M, dtype=bool)
    kw = {}
    if case["prop"] == "zeroMag":
        allowed = basis.sum(axis=1) * 2 == n
        kw["initState"] = jnp.array(np.array([0, 1] * (n // 2), dtype=np.int32).reshape(shape))
    if case["prop"] == "custom":
        kw["updateProposerArg"] = 1
    proposer = {"flip": js.propose_spin_flip, "Z2": js.propose_spin_flip_Z2, "zeroMag": js.propose_spin_flip_zeroMag, "povm": js.propose_POVM_outcome, "custom": my_proposer}[case["prop"]]
    tot = chains * dev * ctx.size
    with ctx.sut("constructing the sampler"):
        psi = NQS(net, batchSize=100, logarithmic=not plain)
        sampler = js.MCSampler(psi, shape, case["seed"] if case["intkey"] else jax.random.PRNGKey(case["seed"]), updateProposer=proposer, numChains=chains, numSamples=tot,
                               thermalizationSweeps=4, sweepSteps=case["sweep"], mu=mu, logProbFactor=kappa, **kw)
    cur = logpsi.copy()
    last = None
    calls = 0
    keyed = {}
    for (op, sd) in case["ops"]:
        g = rng(sd, 2)
        # the normalisation of the new state is arbitrary
        new = np.round(0.6 * g.standard_normal(M), 4) + ([0.0, -20.0, 20.0, -1.0, 3.0] if plain else [0.0, -900.0, 900.0, -20.0, 20.0, -1.0, 3.0])[sd % (5 if plain else 7)] + 1j * (np.round(g.standard_normal(M), 4) if kind != "real" else 0) + nets.plain_sign(M, kind, plain)
        if (sd // 7) % 4 == 1:       # a small change of the current parameters
            new = cur + 1e-3 * g.standard_normal(M)
        elif (sd // 7) % 4 == 2:     # strongly peaked: almost a product state
            h = 1.7 * g.standard_normal((n, ld))
            new = new - new.real + 0.1 * np.round(g.standard_normal(M), 4) + h[np.arange(n), basis.reshape(M, n)].sum(axis=1)
        used, N = cur, tot
        with ctx.sut(op):
            if op == "set":
                psi.set_parameters(jnp.array(nets.table_vec(new, kind)))
                cur = used = new
                sampler.set_number_of_samples(tot)
                conf, lp, p = sampler.sample()
            elif op == "with":
                used = new
                conf, lp, p = sampler.sample(parameters=jnp.array(nets.table_vec(new, kind)))
            elif op == "two":
                N = 2 * tot
                conf, lp, p = sampler.sample(numSamples=N)
            else:
                if op == "key":
                    sampler.set_random_key(jax.random.PRNGKey(sd))
                conf, lp, p = sampler.sample()
            conf, lp, p = np.asarray(conf), np.asarray(lp), np.asarray(p)
            acc = float(np.asarray(sampler.acceptance_ratio()).ravel()[0])
            rep = int(sampler.get_last_number_of_samples())
            ctx.close(psi.get_parameters(), nets.table_vec(cur, kind), "parameters of the state after sampling", rtol=1e-12)
        calls += 1
        shp = ctx.expect(conf.shape == (dev, N // (dev * ctx.size)) + shape, lambda: "sample shape %s" % (conf.shape,))
        ctx.expect(rep == N, lambda: "reported number of samples %d, drawn %d" % (rep, N))
        rng_ok = ctx.expect(conf.min() >= 0 and conf.max() < ld, lambda: "configurations leave the local basis: values %d..%d" % (conf.min(), conf.max()))
        idx = nets.np_index(conf.reshape((-1,) + shape), ld) if shp and rng_ok else None
        idxs = gather(ctx, idx)
        ps = gather(ctx, p)
        if any(i is None for i in idxs):
            continue
        if plain:
            ctx.close(np.exp(lp.ravel() - used[idx]), np.ones(len(idx)), "returned log amplitudes (up to the branch of the logarithm)")
        else:
            ctx.close(lp.ravel(), used[idx] if kind != "real" else used.real[idx], "returned log amplitudes")
        w = np.exp((1.0 / kappa - mu) * (used.real - used.real.max()))
        Z = sum(w[i].sum() for i in idxs)
        ctx.close(p.ravel(), w[idx] / Z, "sample weights", rtol=1e-9)
        ctx.expect(abs(sum(q.sum() for q in ps) - 1) < 1e-9, "weights are not normalised")
        target = np.exp(mu * (used.real - used.real.max())) * allowed
        target /= target.sum()
        allidx = np.concatenate(idxs)
        ctx.expect(np.all(allowed[allidx]), "samples leave the zero-magnetisation sector")
        cnt = np.bincount(allidx, minlength=M)
        pv = stat.chi2_p(cnt[allowed], target[allowed])
        ctx.expect(pv > 1e-9, lambda: "samples do not follow |psi|^mu (mu=%g, %s): p-value %.1e" % (mu, op, pv))
        # different devices / processes must be independent
        blocks = [b for i in idxs for b in i.reshape(dev, -1)]
        for a in range(1, len(blocks)):
            ctx.expect(not np.array_equal(blocks[a], blocks[0]), "two devices or processes produced identical samples")
        ctx.expect(last is None or not np.array_equal(idx, last), "consecutive calls return identical samples")
        last = idx
        if case["prop"] == "flip":
            e = 0.0
            for k in range(M):
                for j in range(n):
                    b = basis[k].copy()
                    b[j] = 1 - b[j]
                    e += target[k] / n * min(1.0, target[nets.np_index(b[None], ld)[0]] / target[k])
            ctx.expect(abs(acc - e) < 0.04, lambda: "acceptance ratio %.3f, expected %.3f" % (acc, e))
        ctx.expect(0 < acc <= 1, lambda: "acceptance ratio %r" % acc)
    return calls >= 2, ["plain" if plain else "log", case["prop"], "mu%g" % mu, "kappa%g" % kappa, kind]
