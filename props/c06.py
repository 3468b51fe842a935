"""C06: a variational state returns the log-amplitude its network defines, for every batch and device layout."""
ID = "C06"
RULE = ("A case is a library network (RBMs, FFN, CNNs with any filters/strides/activations/boundary, amplitude+phase pairs, a user-defined "
        "complex net), random parameters, a lattice (1D/2D), and several evaluation calls (sample number, batch size incl. remainders) on 1..4 "
        "devices. Oracle: independent numpy forward pass from the parameters, plus bitwise-stable agreement across batch/device layouts. "
        "Non-trivial: at least 2 distinct amplitudes.")
ASSUMPTIONS = ["log amplitudes are compared modulo 2 pi i for RBMs (log cosh is multivalued)"]


def shards(tier):
    q = tier == "quick"
    return [{"part": "eval", "devices": d, "k": k, "examples": 18 if q else 220} for k, d in enumerate((1, 2, 3, 4, 1, 2, 1, 1))]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import netgen

    @st.composite
    def gen(draw):
        shape = draw(st.sampled_from([[1], [2], [3], [4], [5], [2, 2], [2, 3], [3, 3], [2, 1, 2]]))
        c = {"shape": shape, "spec": draw(netgen.spec_strategy(st, len(shape))), "seed": draw(st.integers(0, 10**6)),
             "scale": draw(st.sampled_from([0.3, 1.0, 1.0, 2.0, 2.0, 500.0])), "astuple": draw(st.booleans()), "style": draw(st.sampled_from(["any", "any", "grid", "imag"]))}
        calls = []
        bss = [draw(st.one_of(st.integers(1, 11), st.sampled_from([64, 1000]))), draw(st.integers(1, 4))]
        for _ in range(draw(st.integers(1, 4))):      # calls with the same batch size use the same state
            calls.append([draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.sampled_from([40, 130]))), draw(st.sampled_from(bss)), draw(st.integers(0, 10**6))])
        c["calls"] = calls
        return c
    return gen()


def corpus(shard):
    mk = lambda shape, spec, scale=1.0: {"shape": shape, "spec": spec, "seed": 1, "scale": scale, "astuple": True, "calls": [[5, 2, 1], [3, 2, 2], [6, 7, 2]]}
    out = [mk([4], ["CNN", [3], [2, 3], [1], ["elu", "tanh"], True, True, True]),
           mk([5], ["CNN", [3], [2, 2, 2], [2], ["tanh", "square"], True, False, True]),
           mk([5], ["CNN", [3], [2, 2], [1], ["tanh"], True, False, False]),
           mk([4], ["CNN", [2], [1, 3, 2], [1], ["square", "tanh"], False, True, False], 0.5),
           mk([5], ["CNN", [2], [2, 1, 2], [1], ["poly5", "elu", "square"], True, True, True], 0.5),
           mk([3, 4], ["CNN", [3, 2], [2, 2], [2, 1], ["elu"], True, True, True]),
           mk([4, 3], ["CNN", [2, 1], [2, 2], [1, 2], ["tanh", "poly6"], False, False, False], 0.5),
           mk([2, 3], ["CNN", [2, 3], [3], [1, 1], ["poly6"], True, True, False], 0.5),
           mk([3, 3], ["CpxCNN", [2, 3], [2, 2], [1, 1], ["poly6", "poly5"], True, True, True], 0.5),
           mk([3, 2], ["CpxCNN", [2, 3], [2], [1, 1], ["poly6"], False, False, False]),
           mk([4], ["CpxCNN", [2], [2, 2, 1], [1], ["poly6", "poly5"], True, False, True], 0.3),
           mk([5], ["CpxCNN", [3], [2, 1, 2], [1], ["square", "tanh"], True, True, False], 0.3),
           mk([5], ["CpxCNN", [2], [1, 2, 2], [2], ["poly5", "square", "tanh"], False, True, True], 0.3),
           mk([4, 3], ["CpxCNN", [3, 2], [2, 1], [2, 1], ["square"], True, False, False], 0.3),
           mk([3, 4], ["CpxCNN", [1, 3], [2, 2], [1, 2], ["tanh", "poly6"], True, True, True], 0.3),
           mk([4], ["FFN", [3, 2], True, ["elu", "tanh", "square"]]), mk([4], ["FFN", [3, 2, 2], True, ["tanh", "square"]]),
           mk([2, 3], ["FFN", [2, 3], False, ["square", "poly5", "elu"]], 0.5), mk([3], ["FFN", [3, 2, 1], False, ["relu", "elu"]]),
           mk([4], ["RBM", 3, True]), mk([5], ["RBM", 2, False], 2.0), mk([4], ["CpxRBM", 3, True], 2.0), mk([2, 3], ["CpxRBM", 2, False]),
           mk([2, 2], ["CpxRBMns", 3, True]), mk([4], ["CpxRBMns", 2, False]),
           mk([4], ["Two", ["RBM", 2, True], ["FFN", [3], True, ["tanh"]]]),
           mk([4], ["Two", ["CNN", [2], [2, 2], [1], ["tanh", "elu"], True, True, True], ["CNN", [3], [2], [1], ["square"], False, True, False]]),
           mk([4], ["RBM", 3, True], 60.0), mk([4], ["CpxRBM", 3, True], 60.0), mk([3, 2], ["NonHolo"]),
           mk([4], ["RBM", 3, True], 900.0), mk([4], ["CpxRBM", 3, True], 900.0), mk([2, 3], ["RBM", 3, True]), mk([2, 3], ["CpxRBMns", 2, True], 900.0), mk([2, 2], ["Two", ["RBM", 2, False], ["RBM", 3, True]])]
    out += [dict(mk([4], spec), style=style, seed=sd) for spec in (["CpxRBM", 3, True], ["CpxRBMns", 2, False], ["RBM", 3, False], ["RBM", 2, True]) for style in ("imag", "grid") for sd in (1, 2)]
    out += [mk([2, 1, 2], ["RBM", 3, True]), mk([2, 2, 2], ["CpxRBM", 3, True]), mk([1, 2, 2], ["FFN", [3, 2], True, ["elu", "tanh", "square"]])]
    return out[shard["k"]::8]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from jVMC.vqs import NQS
    from lib import netgen
    from lib.harness import rng

    dev = ctx.shard["devices"]
    shape = tuple(case["shape"])
    spec = case["spec"]
    g = rng(case["seed"], 77)
    net = netgen.build(spec)
    if spec[0] == "Two" and case["astuple"]:
        mk = lambda b: NQS((netgen.build(spec[1]), netgen.build(spec[2])), batchSize=b, seed=case["seed"])
    else:
        mk = lambda b: NQS(net, batchSize=b, seed=case["seed"])
    P = None
    vals = set()
    cache = {}
    states = {}
    for (B, bs, cs) in case["calls"]:
        s = rng(cs, 3).integers(0, 2, size=(dev, B) + shape).astype(np.int32)
        with ctx.sut("evaluating the state"):
            if bs not in states:
                states[bs] = mk(bs)
            psi = states[bs]
            out = np.asarray(psi(jnp.array(s)))
        ctx.expect(out.shape == (dev, B), lambda: "result shape %s for input %s" % (out.shape, s.shape))
        if P is None:
            with ctx.sut("parameters"):
                P = case["scale"] * g.standard_normal(len(np.asarray(psi.get_parameters()))) * 0.7
                if case.get("style") == "grid":      # pre-activations that are exactly zero
                    P = np.round(P)
                elif case.get("style") == "imag":    # complex parameters without real part
                    psi.set_parameters(jnp.arange(1., len(P) + 1.))
                    for leaf in jax.tree_util.tree_leaves(psi.parameters["params"]):
                        if np.iscomplexobj(leaf):
                            P[np.asarray(leaf).real.ravel().round().astype(int) - 1] = 0.
        with ctx.sut("evaluating the state"):
            psi.set_parameters(jnp.array(P))
            out = np.asarray(psi(jnp.array(s)))
            params = jax.tree_util.tree_map(np.asarray, psi.parameters["params"])
            f, p = psi.get_sampler_net()
            re = np.asarray(jax.vmap(lambda x: f(p, x))(jnp.array(s[0])))
        params = dict(params)
        want = np.array([[netgen.forward(spec, params, s[d, i]) for i in range(B)] for d in range(dev)])
        if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e12:
            continue            # overflow of the chosen parameters
        diff = out - want
        if spec[0] in ("CpxRBM", "CpxRBMns"):
            diff = diff.real + 1j * (np.angle(np.exp(1j * diff.imag)))
        # activation polynomials are implemented with 9-digit coefficients
        ctx.close(diff, np.zeros_like(diff), "log amplitude vs. independent forward pass of %s" % spec[0], atol=2e-7 * (1 + np.max(np.abs(want))))
        ctx.close(re, out[0].real, "real part used for sampling", rtol=1e-10)
        for d in range(dev):
            for i in range(B):
                key = s[d, i].tobytes()
                if key in cache:
                    ctx.expect(abs(cache[key] - out[d, i]) <= 1e-10 * (1 + abs(out[d, i])),
                               lambda: "amplitude of a configuration depends on its place in the batch: %r vs %r" % (cache[key], out[d, i]))
                cache[key] = out[d, i]
                vals.add(complex(np.round(out[d, i], 8)))
    return len(vals) > 1, [spec[0], "%dD" % len(shape), "dev%d" % dev]
