"""C08: the flat parameter vector is the state: what is set or added is what is read, evaluated and differentiated afterwards."""
ID = "C08"
RULE = ("A case is a network and a history of operations on one or two states (get before initialisation, set/update before initialisation, "
        "set from vector / from frozen dictionary / via params, update, evaluate, gradients, clone by vector, evaluate on other shapes). The model is a plain "
        "vector of reals; after every step the read-back vector, the evaluation (against a fresh state carrying the model vector) and the other state are compared. "
        "Non-trivial: at least two modifying operations on an initialised state.")
ASSUMPTIONS = []


def shards(tier):
    q = tier == "quick"
    return [{"part": "hist", "devices": d, "examples": 14 if q else 160} for d in (1, 2, 1, 3, 1, 2, 1, 1)]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import netgen

    @st.composite
    def gen(draw):
        shape = draw(st.sampled_from([[2], [3], [4], [2, 2]]))
        spec = draw(netgen.spec_strategy(st, len(shape), smooth=True))
        op = st.one_of(
            st.tuples(st.sampled_from(["set", "update", "update", "setfrozen", "setdict", "setparams", "fail"]), st.integers(0, 1), st.integers(0, 10**6)),
            st.tuples(st.sampled_from(["eval", "grad", "get", "copy", "samplernet", "evalshape", "mutate", "npset"]), st.integers(0, 1), st.integers(0, 10**6)))
        return {"shape": shape, "spec": spec, "seed": draw(st.integers(0, 10**6)), "seed2": draw(st.integers(0, 2)),
                "ops": draw(st.lists(op.map(list), min_size=2, max_size=9)), "pre": draw(st.booleans())}
    return gen()


def corpus(shard):
    ops = [["update", 0, 1], ["set", 0, 2], ["eval", 1, 1], ["setfrozen", 0, 3], ["setdict", 1, 7], ["update", 1, 3], ["copy", 0, 0], ["update", 0, 4], ["setparams", 1, 4],
           ["grad", 0, 1], ["mutate", 0, 9], ["npset", 0, 5], ["evalshape", 0, 3], ["update", 0, 8]]
    mk = lambda shape, spec: {"shape": shape, "spec": spec, "seed": 1, "seed2": 1, "ops": ops, "pre": True}
    out = [mk([3], ["CpxRBM", 2, True]), mk([3], ["RBM", 2, True]), mk([2, 2], ["Two", ["FFN", [3, 2], True, ["tanh"]], ["CNN", [2, 2], [2], [1, 1], ["elu"], True, True, True]]),
           mk([3], ["NonHolo"])]
    return [out[(shard["devices"] - 1) % 4]]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from flax.core.frozen_dict import freeze, unfreeze
    from jVMC.vqs import NQS
    from lib import netgen
    from lib.harness import rng

    dev = ctx.shard["devices"]
    shape = tuple(case["shape"])
    spec = case["spec"]
    cpx = netgen.is_complex(spec)
    net = netgen.build(spec)
    s = jnp.array(rng(case["seed"], 1).integers(0, 2, size=(dev, 3) + shape).astype(np.int32))
    seeds = [case["seed"], case["seed"] + case["seed2"]]
    psis = [NQS(net, batchSize=2, seed=sd) for sd in seeds]
    if case["pre"]:
        with ctx.sut("get_parameters"):
            ctx.expect(psis[0].get_parameters() is None, "parameters of an uninitialised state are not None")
        with ctx.raises((RuntimeError,), "setting parameters of an uninitialised state"):
            psis[0].set_parameters(jnp.ones(5))
        with ctx.raises((RuntimeError,), "updating parameters of an uninitialised state"):
            psis[0].update_parameters(jnp.ones(5))
    models = []
    with ctx.sut("initialising"):
        for psi in psis:
            psi(s)
            models.append(np.array(psi.get_parameters()))
    n = len(models[0])
    ctx.expect(n == int(psis[0].numParameters) * (2 if cpx else 1), "length of the parameter vector")
    if case["seed2"] == 0:
        ctx.close(models[1], models[0], "parameters initialised with the same seed", rtol=0, atol=0)
    elif n > 2 and np.any(models[0] != 0):
        ctx.expect(np.any(models[0] != models[1]), "different seeds give the same initial parameters")
    mods = 0
    labels = set([spec[0]])

    def apply_ref(vec, conf):
        """independent of set_parameters: unflatten by the documented layout (leaf order, real parts before imaginary parts of each leaf)"""
        leaves, td = jax.tree_util.tree_flatten(psis[0].params)
        out, k = [], 0
        for l in leaves:
            m = l.size
            if cpx:
                out.append((vec[k:k + m] + 1j * vec[k + m:k + 2 * m]).reshape(l.shape))
                k += 2 * m
            else:
                out.append(vec[k:k + m].reshape(l.shape))
                k += m
        p = jax.tree_util.tree_unflatten(td, [jnp.array(x) for x in out])
        return np.asarray(jax.vmap(jax.vmap(lambda c: net.apply({"params": p}, c)))(conf)), p

    for (o, i, sd) in case["ops"]:
        psi, g = psis[i], rng(sd, 5)
        labels.add(o)
        v = np.round(0.6 * g.standard_normal(n), 5)
        with ctx.sut(o):
            if o == "set":
                psi.set_parameters(jnp.array(v))
                models[i] = v
                mods += 1
            elif o == "npset":
                psi.set_parameters(v.copy())
                models[i] = v
                mods += 1
            elif o == "update":
                psi.update_parameters(jnp.array(v))
                models[i] = models[i] + v
                mods += 1
            elif o in ("setfrozen", "setdict", "setparams"):
                _, p = apply_ref(v, s)
                if o == "setfrozen":
                    psi.set_parameters(freeze(p))
                elif o == "setdict":
                    psi.set_parameters(unfreeze(p))
                else:
                    psi.params = p
                models[i] = v
                mods += 1
            elif o == "eval":
                psi(s)
            elif o == "grad":
                psi.gradients(s)
            elif o == "get":
                psi.get_parameters()
            elif o == "copy":
                psis[1 - i].set_parameters(psi.get_parameters())
                models[1 - i] = models[i].copy()
                mods += 1
            elif o == "samplernet":
                f, p = psi.get_sampler_net()
                r = np.asarray(jax.vmap(lambda c: f(p, c))(s[0]))
                ref = apply_ref(models[i], s)[0][0].real
                ctx.close(r, ref, "sampler network after the history", rtol=1e-9)
            elif o == "evalshape":
                s2 = jnp.array(g.integers(0, 2, size=(dev, 1 + sd % 5) + shape).astype(np.int32))
                r = np.asarray(psi(s2))
                ctx.close(r, apply_ref(models[i], s2)[0], "evaluation on another batch shape", rtol=1e-9)
            elif o == "mutate":
                a = np.array(psi.get_parameters())
                a += 1.0
            elif o == "fail":
                # failed calls must not change anything
                try:
                    psi.set_parameters(jnp.ones(n + 1).reshape(1, -1) if n % 2 else "nonsense")
                except Exception:
                    pass
                else:
                    models[i] = np.array(psi.get_parameters())
        for j in (0, 1):
            with ctx.sut("reading parameters"):
                got = np.asarray(psis[j].get_parameters())
            ctx.close(got, models[j], "parameter vector of state %d after %s on state %d" % (j, o, i), rtol=1e-13, atol=1e-13)
        if o not in ("get", "mutate"):
            with ctx.sut("evaluating"):
                got = np.asarray(psi(s))
            want = apply_ref(models[i], s)[0]
            ctx.close(got, want, "evaluation after %s" % o, rtol=1e-9)
    # gradient sees the final parameters
    with ctx.sut("gradients"):
        a = np.asarray(psis[0].gradients(s))
        fresh = NQS(net, batchSize=5, seed=99)
        fresh(s)
        fresh.set_parameters(jnp.array(models[0]))
        b = np.asarray(fresh.gradients(s))
    ctx.close(a, b, "gradients after the history vs a fresh state with the same parameters", rtol=1e-8)
    return mods >= 2, sorted(labels)
