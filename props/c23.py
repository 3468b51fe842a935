"""C23: the initial parameters are a function of the network and the seed only."""
ID = "C23"
RULE = ("A case is a network of the library (restricted Boltzmann machine, feed-forward, convolutional, amplitude-phase pair, recurrent with every cell type, symmetrised), a seed and a list of "
        "ways to bring a new state into being (evaluation of a batch of any size and content, gradients, exact sampling, Markov chain sampling, direct sampling; any network and sampler "
        "batch size, any selection of the available devices, before or after other states were created). Oracle: the parameter vectors are bitwise identical among all of them and on all "
        "processes, finite, of the documented double precision, give finite amplitudes, and differ between seeds. Non-trivial: at least two different ways.")
ASSUMPTIONS = []

WAYS = ["eval", "eval", "grad", "exact", "mc", "direct", "zeros"]


def shards(tier):
    q = tier == "quick"
    return [{"part": "init", "devices": d, "examples": 7 if q else 90} for d in (1, 2, 3, 1, 4, 1)] + \
        [{"part": "init", "devices": d, "mpi": m, "examples": 6 if q else 50} for d, m in ((1, 2), (2, 3))]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import netgen
    dev = shard["devices"]

    @st.composite
    def gen(draw):
        dim = draw(st.sampled_from([1, 1, 2]))
        kind = draw(st.sampled_from(["net", "net", "rnn", "sym", "pair"]))
        shape = draw(st.sampled_from([[2], [3], [4]] if dim == 1 else [[2, 2]]))
        c = {"shape": shape, "kind": kind, "seed": draw(st.one_of(st.integers(0, 10**6), st.integers(2**30, 2**31 - 2)))}
        if kind in ("rnn", "pair"):
            c["rnn"] = {"hiddenSize": draw(st.integers(1, 3)), "depth": draw(st.integers(1, 2)), "cell": draw(st.sampled_from(["RNN", "LSTM", "GRU"])),
                        "realValuedOutput": kind == "pair" or draw(st.booleans())}
        else:
            c["spec"] = draw(netgen.spec_strategy(st, dim, allow=("RBM", "CpxRBM", "FFN", "CNN", "CpxCNN", "Two") if kind == "net" else ("RBM", "CpxRBM", "FFN")))
        way = st.tuples(st.sampled_from(WAYS), st.integers(0, 10**5), st.one_of(st.integers(1, 5), st.integers(1, 5), st.just(1100)), st.sampled_from([1, 3, 100]), st.integers(1, dev))
        c["ways"] = draw(st.lists(way.map(list), min_size=2, max_size=4))
        return c
    return gen()


def corpus(shard):
    d = shard["devices"]
    ways = [["eval", 1, 3, 2, d], ["grad", 2, 5, 100, 1], ["mc", 3, 2, 1, d], ["exact", 4, 1, 3, d], ["zeros", 5, 1, 3, d]]
    out = [{"shape": [3], "kind": "net", "seed": 5, "spec": ["CpxRBM", 2, True], "ways": ways},
           {"shape": [3], "kind": "rnn", "seed": 6, "rnn": {"hiddenSize": 2, "depth": 2, "cell": "GRU", "realValuedOutput": True}, "ways": ways + [["direct", 1, 1, 1, d]]},
           {"shape": [2, 2], "kind": "net", "seed": 6, "spec": ["Two", ["FFN", [3, 2], True, ["tanh"]], ["CNN", [2, 2], [2], [1, 1], ["elu"], True, True, True]], "ways": ways},
           {"shape": [4], "kind": "sym", "seed": 7, "spec": ["CpxRBM", 2, False], "ways": ways}]
    return out[d % 2::2]


def build(case):
    import jVMC
    import jVMC.util.symmetries as sym
    from lib import netgen
    shape, kw = tuple(case["shape"]), {}
    if case["kind"] in ("rnn", "pair"):
        cls = jVMC.nets.RNN1DGeneral if len(shape) == 1 else jVMC.nets.RNN2DGeneral
        net = cls(L=shape[0], **case["rnn"])
        if case["kind"] == "pair":
            net = (net, jVMC.nets.FFN(layers=(2,)))
    else:
        net = netgen.build(case["spec"])
        if case["kind"] == "sym":
            kw["orbit"] = sym.get_orbit_1D(shape[0], "translation") if len(shape) == 1 else sym.get_orbit_2D_square(shape[0], "translation")
    return net, kw


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    from jVMC import global_defs
    from jVMC.vqs import NQS
    from lib.harness import rng
    shape = tuple(case["shape"])
    net, kw = build(case)
    gen = case["kind"] in ("rnn", "pair")
    ref, names = None, set()
    try:
        for way, sd, B, bs, k in case["ways"]:
            # ranks see different configurations: the parameters must agree all the same
            g = rng(sd, ctx.rank)
            with ctx.sut("initialisation by %s" % way):
                global_defs.set_pmap_devices(jax.devices()[:k])
                psi = NQS(net, batchSize=bs, seed=case["seed"], **kw)
                s = jnp.array(g.integers(0, 2, size=(k, B) + shape).astype(np.int32))
                if way == "zeros":
                    psi(jnp.zeros((k, 1) + shape, dtype=np.int32))
                elif way == "grad":
                    psi.gradients(s)
                elif way == "exact":
                    jVMC.sampler.ExactSampler(psi, shape).sample()
                elif way == "mc" or way == "direct" and not gen:
                    jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(sd), updateProposer=jVMC.sampler.propose_spin_flip, numChains=2, numSamples=4 * B, sweepSteps=2).sample()
                elif way == "direct":
                    jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(sd), numSamples=4 * B).sample()
                else:
                    psi(s)
                p = np.array(psi.get_parameters())
                v = np.asarray(psi(s))
            names.add(way)
            ctx.expect(p.ndim == 1 and len(p) > 0 and np.all(np.isfinite(p)), "initial parameters are not finite")
            ctx.expect(p.dtype == np.float64, lambda: "parameters have type %s" % p.dtype)
            ctx.expect(np.all(np.isfinite(v)), "amplitudes of a new state are not finite")
            if ref is None:
                ref, first = p, way
                if ctx.comm is not None:
                    for r, q in enumerate(ctx.comm.allgather(p)):
                        ctx.close(p, q, "initial parameters of ranks %d and %d" % (ctx.rank, r), rtol=0, atol=0)
            else:
                ctx.close(p, ref, "initial parameters from %s (batch size %d, %d devices) and from %s" % (way, bs, k, first), rtol=0, atol=0)
        off = (1 + case["ways"][0][1], 1000, 65536)[case["seed"] % 3]
        other = case["seed"] + off if case["seed"] < 2**30 else case["seed"] - off
        with ctx.sut("another seed"):
            psi = NQS(net, batchSize=7, seed=other, **kw)
            psi(s)
            p = np.array(psi.get_parameters())
        if np.any(ref != 0):
            ctx.expect(p.shape == ref.shape and np.any(p != ref), "another seed gives the same initial parameters")
    finally:
        global_defs.set_pmap_devices(jax.devices())
    return len(names) > 1, sorted(names) + [case["kind"], case["spec"][0] if "spec" in case else case["rnn"]["cell"]]
