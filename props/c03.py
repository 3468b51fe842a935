"""C03: the local estimator equals the full sum over connected configurations, however it is batched."""
import math

ID = "C03"
RULE = ("A case is an operator (operator strings incl. fermions and time arguments, a custom operator whose compile() "
        "returns one function or a pair, a POVM operator), an exactly known ansatz (complex/real, log or plain amplitudes), "
        "and several estimator calls with different sample numbers, estimator batch sizes (incl. remainders, sizes above the "
        "sample number), network batch sizes, with and without given log-amplitudes, on 1..4 devices. Oracle: dense sum. "
        "Non-trivial: some O_loc involves an off-diagonal element and at least 2 samples.")
ASSUMPTIONS = []


def shards(tier):
    q = tier == "quick"
    return [{"part": "oloc", "devices": d, "examples": 14 if q else 160} for d in (1, 2, 3, 1, 4, 1)] + \
        [{"part": "est", "devices": d, "examples": 22 if q else 200} for d in (1, 2)]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import opgen

    @st.composite
    def gen(draw):
        fam = draw(st.sampled_from(["spin", "spin", "fermi", "custom", "custom2", "povm"]))
        shape = draw(st.sampled_from([[2], [3], [4], [5], [2, 2], [2, 3], [2, 1, 2]]))
        if fam == "povm":
            shape = draw(st.sampled_from([[2], [3]]))
        n = math.prod(shape)
        c = {"fam": fam, "shape": shape, "seed": draw(st.integers(0, 10**6)), "nargs": draw(st.integers(0, 2)),
             "args": draw(opgen.args(2)), "args2": draw(opgen.args(2)),
             "kind": draw(st.sampled_from(["cpx", "reim", "real"])), "plain": draw(st.sampled_from([False, False, True])),
             "netBatch": draw(st.sampled_from([1, 3, 7, 1000]))}
        if fam in ("spin", "fermi"):
            c["terms"] = draw(st.lists(opgen.term(2, n, fam == "fermi", max_ops=3, small=False), min_size=1, max_size=5))
        calls = []
        for _ in range(draw(st.integers(1, 4))):
            N = draw(st.sampled_from([1, 2, 3, 4, 5, 5, 7, 7, 8, 11, 120]))
            calls.append({"na": draw(st.integers(0, 2)) if fam in ("custom", "custom2") else c["nargs"], "N": N, "bs": draw(st.one_of(st.just(-1), st.integers(1, N + 2), st.sampled_from([37, 1000]))),
                          "log": draw(st.booleans()), "cseed": draw(st.integers(0, 10**6)), "alt": draw(st.integers(0, 3)), "par": draw(st.booleans()),
                          "direct": draw(st.booleans())})
        c["calls"] = calls
        return c
    return gen()


def corpus(shard):
    if shard["part"] == "est":
        E = {"fam": "custom", "shape": [3], "seed": 1, "nargs": 1, "args": [0.3, 0.0], "args2": [1.0, 0.0], "kind": "cpx", "plain": False, "netBatch": 3, "calls": []}
        return [E, dict(E, fam="custom2"), dict(E, fam="povm", shape=[2], nargs=0, kind="real"),
                dict(E, fam="spin", nargs=2, terms=[["*", ["f", "diff", [1.0, 0.5]], ["*", ["o", "Sx", 0], ["o", "Sz", 2]]], ["S", [["o", "Sy", 1]]]])]
    Z = {"fam": "spin", "shape": [3], "seed": 1, "nargs": 0, "args": [0.0, 0.0], "args2": [1.0, 0.0], "kind": "cpx",
         "plain": False, "netBatch": 1000, "terms": [["S", [["o", "Sm", 0], ["o", "Sm", 0]]]],
         "calls": [{"N": 3, "bs": -1, "log": True, "cseed": 1, "alt": 0, "par": False, "direct": False},
                   {"N": 5, "bs": 2, "log": False, "cseed": 1, "alt": 0, "par": False, "direct": False}]}
    P = {"fam": "spin", "shape": [4], "seed": 3, "nargs": 1, "args": [0.3, 0.0], "args2": [1.0, 0.0], "kind": "cpx",
         "plain": True, "netBatch": 3, "terms": [["*", ["f", "diff", [1.0, 0.0]], ["*", ["o", "Sx", 0], ["o", "Sz", 2]]], ["S", [["o", "Sy", 3]]]],
         "calls": [{"N": 5, "bs": 2, "log": True, "cseed": 1, "alt": 0, "par": False, "direct": False},
                   {"N": 7, "bs": 3, "log": False, "cseed": 4, "alt": 1, "par": False, "direct": True},
                   {"N": 4, "bs": -1, "log": False, "cseed": 5, "alt": 1, "par": True, "direct": False}]}
    # arguments and parameters change one at a time between otherwise equal calls
    cl = {"N": 5, "bs": -1, "log": True, "cseed": 1, "alt": 0, "par": False, "direct": False}
    A = dict(P, plain=False, nargs=2, args=[0.3, -0.7], args2=[1.0, 2.5], netBatch=1000,
             calls=[cl, cl, dict(cl, alt=2), dict(cl, alt=1), dict(cl, alt=3), dict(cl, alt=3, par=True), dict(cl, bs=2, alt=2), dict(cl, log=False, alt=2), dict(cl, log=False, alt=2, par=True)])
    # the number of arguments changes between calls
    C = {"fam": "custom", "shape": [3], "seed": 8, "nargs": 1, "args": [0.3, -0.7], "args2": [1.0, 2.5], "kind": "cpx", "plain": False, "netBatch": 3,
         "calls": [dict(cl, na=0), dict(cl, na=1), dict(cl, na=2, log=False), dict(cl, na=1, alt=1), dict(cl, na=0, bs=2)]}
    return [Z, P, A, C, dict(C, fam="custom2")]


def rows_for(case, n, args):
    """function config -> {config': weight} for the operator of the case"""
    import numpy as np
    from lib import opmodel
    fam = case["fam"]
    if fam in ("spin", "fermi"):
        return lambda c: opmodel.row(case["terms"], 2, c, args)
    t = (args[0] if args else 0.5)
    if fam in ("custom", "custom2"):
        # sum_i (1+i+t) X_i  + (c_0 - 0.5*c_{n-1}) ; real matrix elements
        def row(c):
            r = {}
            for i in range(n):
                d = list(c)
                d[i] = 1 - d[i]
                r[tuple(d)] = 1.0 + i + (t if fam == "custom2" or args else 0.5)
            r[tuple(c)] = c[0] - 0.5 * c[-1]
            return r
        return row
    raise ValueError(fam)


def make_operator(case, n, ctx):
    import functools
    import jax.numpy as jnp
    import numpy as np
    import jVMC.operator as op
    from lib import opmodel
    fam = case["fam"]
    if fam in ("spin", "fermi"):
        H = op.BranchFreeOperator()
        for t in case["terms"]:
            H.add(opmodel.build_id(t, op, jnp, 2))
        return H
    if fam in ("custom", "custom2"):
        def f(s, t=0.5):
            shape = s.shape
            v = s.ravel()
            sp = jnp.concatenate([jnp.array([v.at[i].set(1 - v[i]) for i in range(n)]), v[None]])
            m = jnp.concatenate([1.0 + jnp.arange(n) + t, jnp.array([v[0] - 0.5 * v[-1]])])
            return sp.reshape((-1,) + shape), m

        class Custom(op.Operator):
            def __init__(self):
                super().__init__()

            def compile(self):
                if fam == "custom":
                    return lambda s, *a: f(s, *(a[:1]))
                return (lambda s, t2: f(s, t2 / 2.0)), (lambda *a: (2.0 * (a[0] if a else 0.5),))
        return Custom()


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.operator as op
    from jVMC.vqs import NQS
    from lib import nets
    from lib.harness import rng

    dev = ctx.shard["devices"]
    shape = tuple(case["shape"])
    n = int(np.prod(shape))
    labels = [case["fam"], case["kind"], "plain" if case["plain"] else "log"]
    offd = 0
    if case["fam"] == "povm":
        ldim = 4
        import itertools
        with ctx.sut("POVM operator"):
            povm = op.POVM({"dim": "1D", "L": n}, theta=0.3, phi=0.7)
            H = op.POVMOperator(povm)
            strengths = {}
            r = rng(case["seed"], 5)
            descr = []
            for i in range(n):
                descr.append(("X", (i,), float(np.round(r.uniform(0.5, 2), 3))))
                descr.append(("decaydown", (i,), float(np.round(r.uniform(0.5, 2), 3))))
                descr.append(("ZZ", (i, (i + 1) % n), float(np.round(r.uniform(0.5, 2), 3))))
            for name, sites, a in descr:
                H.add({"name": name, "strength": a, "sites": sites})
            mats = {k: np.array(v) for k, v in povm.operators.items()}
        D = np.zeros((4 ** n, 4 ** n))
        B = nets.basis(n, 4)
        idx = {tuple(b): k for k, b in enumerate(B)}
        for name, sites, a in descr:
            M = mats[name]
            m = len(sites)
            for k, b in enumerate(B):
                x = 0
                for s_ in sites:
                    x = 4 * x + b[s_]
                for y in range(4 ** m):
                    d = b.copy()
                    yy = y
                    for s_ in reversed(sites):
                        d[s_] = yy % 4
                        yy //= 4
                    D[k, idx[tuple(d)]] += a * M[x, y]
        def rowf(args):
            return lambda c: {tuple(B[j]): D[idx[tuple(c)], j] for j in np.nonzero(np.abs(D[idx[tuple(c)]]) > 1e-12)[0]}
    else:
        ldim = 2
        with ctx.sut("building operator"):
            H = make_operator(case, n, ctx)
        def rowf(args):
            return rows_for(case, n, args)

    net, logtab = nets.make_table(rng(case["seed"]), n, ldim, case["kind"], case["plain"])
    with ctx.sut("NQS"):
        psi = NQS(net, logarithmic=not case["plain"], batchSize=case["netBatch"])
        psi(jnp.zeros((dev, 1) + shape, dtype=np.int32))
    amp = np.exp(logtab)
    # the norm of the state is arbitrary: logarithmic amplitudes may be far outside of the range of exp
    off = [0.0, -900.0, 900.0, 0.0][case["seed"] % 4] if not case["plain"] and ctx.shard["part"] == "oloc" else 0.0
    tabs = [logtab, nets.make_table(rng(case["seed"], 77), n, ldim, case["kind"], case["plain"])[1]]

    def want_oloc(cfgs, args):
        nonlocal offd
        out = []
        rf = rowf(args)
        for c in cfgs:
            row = rf(tuple(int(x) for x in c))
            if any(k != tuple(c) for k in row):
                offd += 1
            keys = list(row)
            if keys:
                i = nets.np_index(np.array(keys), ldim)
                out.append(np.sum(np.array([row[k] for k in keys]) * amp[i]) / amp[nets.np_index(c[None], ldim)[0]])
            else:
                out.append(0.0)
        return np.array(out)

    if ctx.shard["part"] == "est":
        # estimator function O_loc(theta, s) for a single configuration
        r = rng(case["seed"], 9)
        cfgs = r.integers(0, ldim, size=(6, n)).astype(np.int32)
        args = case["args"][:case["nargs"]]
        with ctx.sut("get_estimator_function"):
            psi(jnp.array(np.repeat(cfgs[None, :1], dev, axis=0).reshape((dev, 1) + shape)))
            est = H.get_estimator_function(psi, *args)
            got = np.array(jax.jit(jax.vmap(est, in_axes=(None, 0)))(psi.parameters, jnp.array(cfgs.reshape((6,) + shape))))
        want = want_oloc(cfgs, args)
        ctx.close(got, want, "estimator function", rtol=1e-9, atol=1e-9)
        # different parameters than the ones stored in psi
        scale = 0.5
        with ctx.sut("estimator with other parameters"):
            p2 = jax.tree_util.tree_map(lambda x: scale * x, psi.parameters)
            got2 = np.array(jax.vmap(est, in_axes=(None, 0))(p2, jnp.array(cfgs.reshape((6,) + shape))))
        amp = np.exp(scale * (logtab - nets.plain_sign(len(logtab), case["kind"], case["plain"])) + nets.plain_sign(len(logtab), case["kind"], case["plain"]))
        ctx.close(got2, want_oloc(cfgs, args), "estimator function, scaled parameters", rtol=1e-9, atol=1e-9)
        return offd > 0, labels

    for k, call in enumerate(case["calls"]):
        args = [(case["args2"] if call["alt"] >> j & 1 else case["args"])[j] for j in range(call.get("na", case["nargs"]))]
        logtab = tabs[int(call["par"])]
        amp = np.exp(logtab)
        logtab = logtab + off
        with ctx.sut("set_parameters"):
            psi.set_parameters(jnp.array(nets.table_vec(logtab, case["kind"])))
        if case["fam"] == "povm":
            args = []
        N = call["N"]
        cfgs = rng(call["cseed"]).integers(0, ldim, size=(dev * N, n)).astype(np.int32)
        s = jnp.array(cfgs.reshape((dev, N) + shape))
        logPsi = jnp.array(logtab[nets.np_index(cfgs, ldim)].reshape(dev, N))
        if case["kind"] == "real" and not case["plain"]:
            logPsi = jnp.real(logPsi)
        with ctx.sut("get_O_loc call %d" % k):
            if call["direct"] and call["bs"] > 0:
                got = H.get_O_loc_batched(s, psi, logPsi, call["bs"], *args)
            else:
                H.ElocBatchSize = call["bs"]
                if call["log"] or args:
                    got = H.get_O_loc(s, psi, logPsi if call["log"] else None, *args)
                else:
                    got = H.get_O_loc(s, psi)
            got = np.array(got)
        want = want_oloc(cfgs, args)
        if not np.iscomplexobj(got):
            ctx.expect(np.max(np.abs(want.imag)) < 1e-9 if np.iscomplexobj(want) else True, "call %d: real result for complex estimator" % k)
            want = want.real
        ctx.close(got, want.reshape(dev, N), "O_loc, call %d (batch size %s, %d samples per device)" % (k, call["bs"], N), rtol=1e-9, atol=1e-9)
        if call["bs"] > 0 and N % call["bs"]:
            labels.append("remainder")
        labels.append("given logPsi" if call["log"] else "computed logPsi")
    return offd > 0 and any(c["N"] > 1 for c in case["calls"]), labels
