"""C11: the exact sampler enumerates every basis state once, with its normalised probability, at any point of any history."""
ID = "C11"
RULE = ("A case is a lattice shape, local dimension 2-4, probability factor, an exactly known ansatz (also with log-amplitudes offset by up to +-2000 and spread over "
        "hundreds) and a history of parameter changes and sample calls (with and without explicit parameters) on 1-7 devices and 1-3 processes. Oracle: the weight of every "
        "basis state equals |psi|^(1/kappa)/Z, returned coefficients equal the ansatz, the state's parameters are untouched. Non-trivial: at least two sample calls with different parameters.")
ASSUMPTIONS = ["at least as many basis states as processes"]


def shards(tier):
    q = tier == "quick"
    e = 22 if q else 200
    return [{"part": "ex", "devices": d, "examples": e} for d in (1, 6, 3, 5, 2, 4, 7)] + [{"part": "ex", "devices": 2, "mpi": 2, "examples": e}, {"part": "ex", "devices": 3, "mpi": 3, "examples": e}]


def strategy(shard):
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        ld = draw(st.sampled_from([2, 2, 2, 3, 4, 4, 5]))
        shape = draw(st.sampled_from({2: [[1], [2], [3], [4], [5], [2, 2], [2, 3], [2, 1, 2], [9]], 3: [[1], [2], [3], [2, 2], [6]], 4: [[1], [2], [3], [5]], 5: [[2]]}[ld]))
        kappa = draw(st.sampled_from([0.5, 0.5, 1.0]))
        ops = draw(st.lists(st.tuples(st.sampled_from(["sample", "sample", "with", "set", "shift"]), st.integers(0, 10**6),
                                      st.sampled_from([0.0, 0.0, 3.0, -40.0, 400.0, 2000.0, -2000.0]), st.sampled_from([0.6, 0.6, 5.0, 300.0, 1e-3, 1e-7])).map(list), min_size=1, max_size=6))
        return {"ld": ld, "shape": shape, "asint": draw(st.booleans()), "kappa": kappa, "kind": draw(st.sampled_from(["cpx", "reim", "real"])), "seed": draw(st.integers(0, 10**6)),
                "ops": ops, "bs": draw(st.integers(1, 9)), "plain": draw(st.integers(0, 4)) == 0}
    return gen()


def corpus(shard):
    return [{"ld": 2, "shape": [2], "asint": True, "kappa": 0.5, "kind": "real", "seed": 5, "bs": 3, "plain": True, "ops": [["sample", 1, 0.0, 0.6], ["with", 3, 3.0, 0.6], ["with", 3, 0.0, 1e-3], ["set", 3, 0.0, 1e-5], ["sample", 1, 0.0, 0.6]]},
            {"ld": 2, "shape": [3], "asint": True, "kappa": 0.5, "kind": "reim", "seed": 5, "bs": 3,
             "ops": [["sample", 1, 0.0, 0.6], ["set", 2, 2000.0, 0.6], ["sample", 1, 0.0, 0.6], ["with", 3, -2000.0, 0.6], ["set", 4, 0.0, 300.0], ["sample", 1, 0.0, 0.6]]},
            {"ld": 3, "shape": [2], "asint": False, "kappa": 1.0, "kind": "real", "seed": 5, "bs": 3, "ops": [["sample", 1, 0.0, 0.6], ["with", 2, 0.0, 0.6]]},
            {"ld": 2, "shape": [2, 2], "asint": False, "kappa": 0.5, "kind": "cpx", "seed": 5, "bs": 3, "ops": [["sample", 1, 0.0, 0.6], ["with", 2, 0.0, 0.6]]},
            {"ld": 2, "shape": [1], "asint": False, "kappa": 0.5, "kind": "cpx", "seed": 5, "bs": 3, "ops": [["sample", 1, 0.0, 0.6], ["with", 2, 0.0, 0.6]]}]


def check(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    from jVMC.vqs import NQS
    from lib import nets
    from lib.harness import rng

    dev = ctx.shard["devices"]
    shape = tuple(case["shape"])
    n, ld, kappa, kind = int(np.prod(shape)), case["ld"], case["kappa"], case["kind"]
    M = ld**n
    plain = case.get("plain", False)
    net, logpsi = nets.make_table(rng(case["seed"], 1), n, ld, kind, plain)
    sgn = nets.plain_sign(M, kind, plain)
    sshape = n if (case["asint"] and len(shape) == 1) else shape
    with ctx.sut("constructing the exact sampler"):
        psi = NQS(net, batchSize=case["bs"], logarithmic=not plain)
        sampler = jVMC.sampler.ExactSampler(psi, sshape, lDim=ld, logProbFactor=kappa)
        sampler.set_number_of_samples(3)
        ctx.expect(np.isinf(float(sampler.get_last_number_of_samples())), "number of samples of an exact enumeration is not infinite")
    cur = logpsi.copy()
    calls = 0
    for (op, sd, off, scale) in case["ops"]:
        g = rng(sd, 2)
        if plain:               # the amplitudes themselves have to be floating point numbers
            off, scale = off if abs(off) < 5 else 0.0, min(scale, 5.0)
        new = np.round(scale * g.standard_normal(M), 4) + off + 1j * (np.round(g.standard_normal(M), 4) if kind != "real" else 0) + sgn
        if scale < 0.1:         # a small change of the current parameters
            new = cur + scale * g.standard_normal(M)
        with ctx.sut(op):
            if op == "set":
                psi.set_parameters(jnp.array(nets.table_vec(new, kind)))
                cur = new
                continue
            if op == "shift":
                psi.update_parameters(jnp.array(nets.table_vec(np.full(M, off), kind)))
                cur = cur + off
                continue
            if op == "with":
                conf, lp, p = sampler.sample(parameters=jnp.array(nets.table_vec(new, kind)), numSamples=5, multipleOf=2)
                used = new
            else:
                conf, lp, p = sampler.sample(numSamples=17)
                used = cur
            conf, lp, p = np.asarray(conf), np.asarray(lp), np.asarray(p)
            after = np.asarray(psi.get_parameters())
        calls += 1
        ctx.close(after, nets.table_vec(cur, kind), "parameters of the state after sampling", rtol=1e-12, atol=1e-12)
        B = conf.shape[1]
        ok = ctx.expect(conf.shape == (dev, B) + shape and lp.shape == (dev, B) and p.shape == (dev, B), lambda: "shapes %s %s %s" % (conf.shape, lp.shape, p.shape))
        idx = nets.np_index(conf.reshape((dev * B,) + shape), ld) if ok else np.zeros(0, dtype=int)
        good = ok and ctx.expect(conf.min() >= 0 and conf.max() < ld, "configuration outside of the local basis")
        if good:
            if plain:
                ctx.close(np.exp(lp.ravel() - used[idx]), np.ones(len(idx)), "returned log amplitudes (up to the branch of the logarithm)", rtol=1e-10)
            else:
                ctx.close(lp.ravel(), used[idx] if kind != "real" else used[idx].real, "returned log amplitudes", rtol=1e-10)
        parts = [(idx if good else None, p.ravel())]
        if ctx.comm is not None:
            parts = ctx.comm.allgather(parts[0])
        if any(a is None for a, _ in parts):
            continue
        idx = np.concatenate([a for a, _ in parts])
        pp = np.concatenate([b for _, b in parts])
        w = used.real / kappa
        w = np.exp(w - w.max())
        w = w / w.sum()
        W = np.zeros(M)
        np.add.at(W, idx, pp)
        ctx.close(W, w, "weights of the basis states", rtol=1e-9, atol=1e-12)
        ctx.expect(abs(pp.sum() - 1) < 1e-9, lambda: "weights sum to %r" % pp.sum())
        seen = np.bincount(idx[pp > 0], minlength=M)
        ctx.expect(seen.max(initial=0) <= 1, "a basis state is enumerated more than once with nonzero weight")
    return calls >= 2, ["plain" if plain else "log", "ld%d" % ld, kind, "kappa%g" % kappa, "calls%d" % calls]
