"""C15: sample statistics (SampledObs) equal their weighted definition through every chain of derived observables."""
ID = "C15"
RULE = ("Part 'stat': weighted observations (scalar/vector, real/complex, uniform/random/partly vanishing weights) on 1-4 devices x 1-3 processes; a random chain of transform / linear "
        "transform / select / subset / covariance-data steps, with mean, variance, covariance (self and with another observable), variance of the covariance and tangent kernel compared with numpy after every step. "
        "Part 'est': estimator observables; mean at several parameter sets and mean_and_grad compared with the exact expectation value and its finite differences. "
        "Non-trivial: at least one derived step on >= 3 samples; or a gradient of an off-diagonal operator.")
ASSUMPTIONS = ["non-linear transformations are elementwise (they are applied to batches)"]
FUNS = ["sq", "cos", "aff", "conj", "abs2"]


def shards(tier):
    q = tier == "quick"
    e, g = (13, 5) if q else (220, 70)
    return [{"part": "stat", "devices": 1, "examples": e}, {"part": "stat", "devices": 3, "examples": e}, {"part": "stat", "devices": 2, "examples": e},
            {"part": "stat", "devices": 2, "mpi": 2, "examples": e}, {"part": "stat", "devices": 1, "mpi": 3, "examples": e},
            {"part": "est", "devices": 1, "examples": g}, {"part": "est", "devices": 3, "examples": g}, {"part": "est", "devices": 1, "mpi": 2, "examples": g}]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import opgen
    size = shard.get("mpi", 1)

    @st.composite
    def stat(draw):
        ops = []
        for _ in range(draw(st.integers(0, 4))):
            k = draw(st.sampled_from(["fun", "lin", "select", "subset", "covdata", "subset"]))
            if k == "fun":
                ops.append([k, draw(st.sampled_from(FUNS))])
            elif k == "lin":
                ops.append([k, draw(st.sampled_from(FUNS + [None, None])), draw(st.integers(1, 3)), draw(st.booleans())])
            elif k == "select":
                ops.append([k, draw(st.lists(st.integers(0, 5), min_size=1, max_size=3))])
            elif k == "subset":
                ops.append([k, draw(st.sampled_from([None, 0, 1, 2, -3])), draw(st.sampled_from([None, None, 2, 4, -1])), draw(st.sampled_from([None, 1, 2, 3]))])
            else:
                ops.append([k])
        return {"B": draw(st.one_of(st.lists(st.integers(2, 8), min_size=size, max_size=size), st.lists(st.integers(2, 8), min_size=size, max_size=size), st.lists(st.integers(50, 130), min_size=size, max_size=size))), "n": draw(st.sampled_from([0, 1, 2, 3, 4, 4, 12])), "m": draw(st.sampled_from([0, 1, 2, 3])),
                "cpx": [draw(st.booleans()), draw(st.booleans())], "w": draw(st.sampled_from(["uniform", "random", "random", "sparse"])), "seed": draw(st.integers(0, 10**6)),
                "off": draw(st.sampled_from([0.0, 3.0])), "ops": ops}

    @st.composite
    def est(draw):
        net = draw(st.sampled_from(["cpx", "reim", "real", "CpxRBM", "RBM", "Two"]))
        n = draw(st.sampled_from([2, 3]))
        return {"net": net, "n": n, "seed": draw(st.integers(0, 10**6)), "terms": draw(st.lists(opgen.term(2, n, False, max_ops=2, small=False), min_size=1, max_size=3)),
                "args": draw(opgen.args(2)), "batch": draw(st.sampled_from([2, 100]))}
    return stat() if shard["part"] == "stat" else est()


def corpus(shard):
    if shard["part"] == "est":
        t = [["S", [["o", "Sx", 0]]], ["scal", ["n", 0.5, 0.0], ["T", [["o", "Sy", 0], ["o", "Sz", 1]]]]]
        return [{"net": k, "n": 2, "seed": 4, "terms": t, "args": [0.0, 0.0], "batch": 100} for k in ("cpx", "CpxRBM")]
    s = shard.get("mpi", 1)
    base = {"B": [5, 4, 7][:s], "n": 3, "m": 1, "cpx": [True, True], "w": "random", "seed": 3, "off": 1.0}
    return [dict(base, ops=[["subset", 1, None, 2], ["covdata"], ["lin", "aff", 3, True], ["subset", None, -1, None]]),
            dict(base, w="sparse", ops=[["fun", "sq"], ["select", [2, 0]], ["lin", None, 2, True], ["covdata"]]),
            dict(base, n=0, m=2, cpx=[False, True], ops=[["lin", "cos", 2, False], ["subset", None, None, 2]])]


def check(case, ctx):
    return (check_stat if ctx.shard["part"] == "stat" else check_est)(case, ctx)


def check_stat(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    from jVMC.stats import SampledObs
    from lib.harness import rng
    dev, B = ctx.shard["devices"], case["B"][ctx.rank]
    ag = (lambda x: [x]) if ctx.comm is None else ctx.comm.allgather
    g = rng(case["seed"], 11, ctx.rank)

    def draw(n, cpx):
        t = () if n == 0 else (n,)
        x = g.standard_normal((dev, B) + t) + case["off"]
        return x + 1j * g.standard_normal((dev, B) + t) if cpx else x
    x, y = draw(case["n"], case["cpx"][0]), draw(case["m"], case["cpx"][1])
    w = {"uniform": np.ones((dev, B)), "random": g.random((dev, B)) + 0.02, "sparse": (g.random((dev, B)) < 0.6) * (0.1 + g.random((dev, B)))}[case["w"]]
    if sum(ag(w.sum())) == 0:
        w = np.ones((dev, B))
    w = w / sum(ag(w.sum()))
    with ctx.sut("SampledObs"):
        O, P = SampledObs(jnp.array(x), jnp.array(w)), SampledObs(jnp.array(y), jnp.array(w))
    if x.ndim == 2:
        x = x[..., None]
    if y.ndim == 2:
        y = y[..., None]
    F = {"sq": lambda a, m: a * a, "cos": lambda a, m: m.cos(a), "aff": lambda a, m: 2.0 * a - (0.5 + 1j), "conj": lambda a, m: m.conj(a), "abs2": lambda a, m: m.abs(a)**2}

    def gl(a):
        return np.concatenate([b.reshape((-1,) + b.shape[2:]) for b in ag(a)])

    def stats(tag):
        X, Y, W = gl(x), gl(y), gl(w)
        sc = dict(rtol=1e-9, atol=1e-9)
        mx, my = np.tensordot(W, X, (0, 0)), np.tensordot(W, Y, (0, 0))
        dx, dy = X - mx, Y - my
        with ctx.sut(tag + ": statistics"):
            got_m, got_v = O.mean(), O.var()
            got_c, got_co = O.covar(), O.covar(P)
        ctx.close(got_m, mx, tag + ": mean", **sc)
        ctx.close(got_v, np.tensordot(W, np.abs(dx)**2, (0, 0)), tag + ": variance", **sc)
        ctx.close(got_c, np.tensordot(W[(slice(None),) + (None,) * (dx.ndim - 1)] * dx.conj(), dx, (0, 0)), tag + ": covariance with itself", **sc)
        ctx.close(got_co, np.tensordot(W[(slice(None),) + (None,) * (dx.ndim - 1)] * dx.conj(), dy, (0, 0)), tag + ": covariance", **sc)
        if dx.ndim == 2:
            cd = np.einsum("si,sj->sij", dx.conj(), dy)
            cov = np.tensordot(W, cd, (0, 0))
            with ctx.sut(tag + ": covar_var, covar_data, tangent_kernel"):
                cv, cdo = O.covar_var(P), O.covar_data(P)
                cvs, cdm, cdv = O.covar_var(), cdo.mean(), cdo.var()
                T = O.tangent_kernel()
                cdd = O.covar_data().mean()
            ctx.close(cv, np.tensordot(W, np.abs(cd)**2, (0, 0)) - np.abs(cov)**2, tag + ": variance of the covariance", **sc)
            ctx.close(cdm, cov, tag + ": mean of the covariance data", **sc)
            ctx.close(cdv, np.tensordot(W, np.abs(cd - cov)**2, (0, 0)), tag + ": variance of the covariance data", **sc)
            cds = np.einsum("si,sj->sij", dx.conj(), dx)
            ctx.close(cvs, np.tensordot(W, np.abs(cds - np.tensordot(W, cds, (0, 0)))**2, (0, 0)), tag + ": variance of the covariance with itself", **sc)
            ctx.close(cdd, np.tensordot(W, cds, (0, 0)), tag + ": mean of the covariance data with itself", **sc)
            D = np.sqrt(W)[:, None] * dx
            ctx.close(T, D @ D.conj().T, tag + ": tangent kernel", **sc)
        return len(X)
    N = stats("sample")
    first = (O, P, x, y, w)
    done = []
    for i, op in enumerate(case["ops"]):
        tag = "step %d %s" % (i, op)
        k = op[0]
        if k == "fun" and np.max(np.abs(gl(x))) < 20:
            f = F[op[1]]
            with ctx.sut(tag):
                O = O.transform(nonLinearFun=lambda a: f(a, jnp))
            x = f(x, np)
        elif k == "lin" and np.max(np.abs(gl(x))) < 20:
            v = rng(case["seed"], i).standard_normal((op[2], x.shape[2]))
            if op[3]:
                v = v + 1j * rng(case["seed"], i, 1).standard_normal(v.shape)
            if op[1] is None:
                with ctx.sut(tag):
                    O = O.transform(linearFun=jnp.array(v))
            else:
                f = F[op[1]]
                with ctx.sut(tag):
                    O = O.transform(linearFun=jnp.array(v), nonLinearFun=lambda a: f(a, jnp))
                x = f(x, np)
            x = np.moveaxis(np.tensordot(v, x, axes=(1, 2)), 0, 2)
        elif k == "select":
            ix = np.array(op[1]) % x.shape[2]
            with ctx.sut(tag):
                O = O.select(jnp.array(ix))
            x = x[:, :, ix]
        elif k == "subset":
            sl = slice(*op[1:])
            ww = w[:, sl]
            if min(ag(ww.size)) == 0 or sum(ag(ww.sum())) < 1e-6:
                continue
            with ctx.sut(tag):
                O, P = O.subset(*op[1:]), P.subset(start=op[1], end=op[2], step=op[3])
            x, y, w = x[:, sl], y[:, sl], ww / sum(ag(ww.sum()))
        elif k == "covdata" and x.ndim == 3 and np.max(np.abs(gl(x))) < 20:
            X, Y, W = gl(x), gl(y), gl(w)
            with ctx.sut(tag):
                O = O.covar_data(P)
            x = np.einsum("abi,abj->abij", (x - np.tensordot(W, X, (0, 0))).conj(), y - np.tensordot(W, Y, (0, 0)))
        else:
            continue
        done.append(k)
        stats(tag)
    if done:
        O, P, x, y, w = first           # deriving observables does not change the ones they are derived from
        stats("original sample afterwards")
    return bool(done) and N >= 3, ["w_" + case["w"]] + ["op_" + k for k in done]


def check_est(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.operator as op
    from jVMC.stats import SampledObs
    from lib import nets, netgen, opmodel
    from lib.harness import rng
    n, dev = case["n"], ctx.shard["devices"]
    if case["net"] in ("cpx", "reim", "real"):
        net, _ = nets.make_table(rng(case["seed"]), n, 2, case["net"])
    else:
        net = netgen.build({"CpxRBM": ["CpxRBM", 2, True], "RBM": ["RBM", 2, True], "Two": ["Two", ["RBM", 2, True], ["FFN", [2], True, ["tanh", "tanh"]]]}[case["net"]])
    basis = nets.basis(n, 2)
    args = case["args"]
    A = np.zeros((2**n, 2**n), dtype=complex)
    for i, c in enumerate(basis):
        for d, v in opmodel.row(case["terms"], 2, tuple(int(z) for z in c), args).items():
            A[i, nets.np_index(np.array([d]), 2)[0]] += v
    with ctx.sut("setup"):
        H = op.BranchFreeOperator()
        for t in case["terms"]:
            H.add(opmodel.build_id(t, op, jnp, 2))
        psi = jVMC.vqs.NQS(net, batchSize=case["batch"], seed=7)
        psi(jnp.zeros((dev, 1, n), dtype=np.int32))
        p0 = np.asarray(psi.get_parameters())
        p0 = np.round(p0 + 0.4 * rng(case["seed"], 2).standard_normal(p0.shape), 4)
        smp = jVMC.sampler.ExactSampler(psi, (n,))
        big = jnp.array(np.broadcast_to(basis, (dev,) + basis.shape).astype(np.int32))

        def amps(p):
            psi.set_parameters(jnp.array(p))
            return np.asarray(psi(big))[0]
        l0 = amps(p0)
        cfg, _, w = smp.sample()
        est = H.get_estimator_function(psi, *args)
        obs = SampledObs(cfg, w, estimator=est, params=psi.parameters)
        obs2 = SampledObs(cfg, w, estimator=est)

    def eloc(l):
        return np.array([A[i] @ np.exp(l - l[i]) for i in range(len(l))])

    def probs(l):
        p = np.exp(2 * (l - l.real.max()).real)
        return p / p.sum()

    pr = probs(l0)
    e0 = eloc(l0)
    with ctx.sut("mean"):
        ctx.close(obs.mean(), [pr @ e0], "mean of the estimator", rtol=1e-8)
        ctx.close(obs.var(), [pr @ np.abs(e0 - pr @ e0)**2], "variance of the estimator", rtol=1e-8)
    p1 = p0 + 0.3 * rng(case["seed"], 3).standard_normal(p0.shape)
    l1 = amps(p1)
    tree1 = psi.parameters
    psi.set_parameters(jnp.array(p0))
    for q, l in ((tree1, l1), (psi.parameters, l0), (tree1, l1)):
        with ctx.sut("mean at given parameters"):
            m = obs2.mean(q)
        ctx.close(m, [pr @ eloc(l)], "mean of the estimator at given parameters", rtol=1e-8)
        ctx.close(obs2.var(), [pr @ np.abs(eloc(l) - pr @ eloc(l))**2], "variance after evaluation at given parameters", rtol=1e-8)
    with ctx.sut("mean_and_grad"):
        m, gr = obs2.mean_and_grad(psi, psi.parameters)
    ctx.close(m, [pr @ e0], "mean returned with gradient", rtol=1e-8)
    ctx.close(obs2.var(), [pr @ np.abs(e0 - pr @ e0)**2], "variance after mean_and_grad", rtol=1e-8)
    gr = np.asarray(gr)
    ctx.expect(gr.shape == p0.shape, lambda: "gradient of shape %s for %s parameters" % (gr.shape, p0.shape))
    if gr.shape == p0.shape:
        for k in range(3):
            u = rng(case["seed"], 4, k).standard_normal(p0.shape)
            h = 1e-4
            val = [probs(l) @ eloc(l) for l in (amps(p0 + s * h * u) for s in (2, 1, -1, -2))]
            fd = (-val[0] + 8 * val[1] - 8 * val[2] + val[3]) / (12 * h)
            ctx.close(gr @ u, fd, "directional derivative of the expectation value", rtol=1e-6, atol=1e-6 * (1 + np.abs(A).sum()))
    psi.set_parameters(jnp.array(p0))
    return np.any(np.abs(A - np.diag(np.diag(A))) > 1e-9), ["est_" + case["net"]]
