"""C17: MinSR returns the minimum-norm least-squares update."""
ID = "C17"
RULE = ("A case is an ansatz (holomorphic, real, or with real parameters and complex output), a random operator, an exact or Monte Carlo sampler in all layouts, and a history of solver calls with different "
        "parameters, times, tolerances and stages. Oracle: minimum-norm solution of the real-parameter least-squares problem (numpy, from the very samples used), applied through the library's own parameter format. "
        "Non-trivial: the update does not vanish.")
ASSUMPTIONS = ["calls with an eigenvalue of the tangent kernel within a factor 1.3 of the truncation threshold are skipped (the truncation is discontinuous)"]
BASE = {"net": "Two", "n": 2, "seed": 1, "terms": [["S", [["o", "Sx", 0]]], ["S", [["o", "Sy", 1]]]], "N": 12, "mu": 2,
         "calls": [{"tol": 1e-8, "t": 0.0, "move": False, "new": True, "stage": 0}]}


def shards(tier):
    q = tier == "quick"
    e = 6 if q else 80
    return [{"part": "exact", "devices": 1, "examples": e}, {"part": "exact", "devices": 3, "examples": e}, {"part": "exact", "devices": 2, "mpi": 2, "examples": e}, {"part": "exact", "devices": 1, "mpi": 3, "examples": e},
            {"part": "mc", "devices": 1, "examples": e}, {"part": "mc", "devices": 2, "examples": e}, {"part": "mc", "devices": 1, "mpi": 2, "examples": e}, {"part": "exact", "devices": 1, "examples": e}]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import opgen

    @st.composite
    def gen(draw):
        net = draw(st.sampled_from(["cpx", "reim", "real", "CpxRBM", "RBM", "Two", "NonHolo", "FFN"]))
        n = draw(st.sampled_from([2, 3]))
        term = opgen.term(2, n, False, max_ops=2, small=False)
        calls = [{"tol": draw(st.sampled_from([1e-10, 1e-8, 1e-5, 1e-2, 0.1, 0.4] + ["gap", "gap2", "gap"] * (shard["part"] == "exact"))), "t": draw(st.sampled_from([0.0, 0.5])), "move": draw(st.booleans()), "new": draw(st.booleans()),
                  "stage": draw(st.sampled_from([0, 0, 1, None]))} for _ in range(draw(st.integers(1, 4)))]
        return {"net": net, "n": n, "seed": draw(st.integers(0, 10**6)), "terms": [["S", [["o", "Sx", 0]]]] + draw(st.lists(term, min_size=1, max_size=3)), "calls": calls,
                "N": draw(st.sampled_from([6, 12, 30])), "mu": draw(st.sampled_from([2, 2, 1]))}
    return gen()


def corpus(shard):
    return [dict(BASE, net=k, n=3, calls=[dict(BASE["calls"][0]), dict(BASE["calls"][0], move=True, stage=1, new=False, tol=1e-5), dict(BASE["calls"][0], new=False, tol="gap" if shard["part"] == "exact" else 0.2),
                                       dict(BASE["calls"][0], new=False, tol=1e-8)]) for k in ("CpxRBM", "reim")]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    from jVMC.util.minsr import MinSR
    from lib import vmc
    from lib.harness import rng
    part, n = ctx.shard["part"], case["n"]
    with ctx.sut("setup"):
        P = vmc.Problem(case["net"], n, case["terms"], case["seed"], ctx.shard["devices"])
        psi = P.psi
        if part == "mc":
            smp = jVMC.sampler.MCSampler(psi, (n,), jax.random.PRNGKey(case["seed"]), updateProposer=jVMC.sampler.propose_spin_flip, numChains=2, sweepSteps=n,
                                         numSamples=case["N"] + 20, thermalizationSweeps=5, mu=case["mu"])
        else:
            smp = jVMC.sampler.ExactSampler(psi, (n,))
    rec = vmc.spy(smp, ctx)
    eq, theta, stored, nontrivial, labels = None, P.p0, None, False, [part, case["net"]]
    for i, c in enumerate(case["calls"]):
        tag = "call %d" % i
        if c["move"]:
            theta = theta + 0.2 * rng(case["seed"], 20 + i).standard_normal(theta.shape)
        l, O = P.dense(theta)
        tol = c["tol"]
        if isinstance(tol, str):
            # a tolerance that cuts the spectrum (exact sampling: known in advance) in one of its largest gaps
            pr = P.probs(l)
            A = np.sqrt(pr)[:, None] * (O - pr @ O)
            A = np.concatenate([A.real, A.imag])
            ev = np.linalg.eigvalsh(A @ A.T)[::-1]
            ev = ev[ev > 1e-8 * ev[0]] / ev[0]
            gaps = np.argsort(ev[:-1] / ev[1:])[::-1]
            gi = 0 if tol == "gap" else 1
            tol = float(np.sqrt(ev[gaps[gi]] * ev[gaps[gi] + 1])) if len(gaps) > gi else 1e-6
        with ctx.sut(tag + ": MinSR()"):
            if eq is None or c["new"]:
                eq, stored = MinSR(smp, pinvTol=tol, makeReal="real"), None
            else:
                eq.set_pinv_tol(tol)
        psi.set_parameters(jnp.array(P.p0))
        kw = {} if c["stage"] is None else {"intStep": c["stage"]}
        if part == "mc":
            kw["numSamples"] = case["N"]
        with ctx.sut(tag):
            upd = np.asarray(eq(jnp.array(theta), c["t"], psi=psi, hamiltonian=P.H, **kw))
        ctx.close(psi.get_parameters(), P.p0, tag + ": parameters of the state after the call", rtol=0, atol=0)
        E = P.eloc(P.matrix(c["t"]), l)
        ix, w = vmc.gathered(ctx, *rec[-1])
        if part != "mc":
            ctx.close(np.bincount(ix, weights=w, minlength=2**n), P.probs(l), tag + ": distribution used", rtol=1e-8)
        else:
            ctx.expect(case["N"] <= len(ix) < case["N"] + 2 * ctx.shard["devices"] * ctx.size, lambda: tag + ": %d samples used instead of %d" % (len(ix), case["N"]))
        ctx.expect(upd.shape == theta.shape and np.all(np.isfinite(upd)), lambda: tag + ": update %s" % (upd[:4],))
        dO, dE, _, _, var = vmc.stat_terms(O[ix], E[ix], w)
        if c["stage"] == 0:
            with ctx.sut(tag + ": energy"):
                stored = (float(eq.get_energy_mean()), float(eq.get_energy_variance()))
            ctx.close(stored[0], (w @ E[ix]).real, tag + ": energy", rtol=1e-8, atol=1e-9 * (1 + np.abs(E).max()))
            ctx.close(stored[1], var, tag + ": energy variance", rtol=1e-8, atol=1e-9 * (1 + np.abs(E).max()**2))
        elif stored is not None:
            with ctx.sut(tag + ": energy"):
                ctx.close([float(eq.get_energy_mean()), float(eq.get_energy_variance())], stored, tag + ": energy recorded at the first stage", rtol=0, atol=0)
        Ob, Eb = np.sqrt(w)[:, None] * dO, np.sqrt(w) * dE
        # real-parameter least squares problem (stochastic reconfiguration)
        R = np.concatenate([Ob.real, Ob.imag])
        e2, V2 = np.linalg.eigh(R @ R.T)
        rel = e2 / max(e2[-1], 1e-300)
        if e2[-1] < 1e-12 or np.any((rel > tol / 1.3) & (rel < tol * 1.3)):
            labels.append("skipped")
            continue
        k2 = rel > tol
        q2 = V2[:, k2]
        uR = -R.T @ (q2 @ ((q2.T @ np.concatenate([Eb.real, Eb.imag])) / e2[k2]))
        tolr = 1e-13 / tol + 1e-7
        with ctx.sut(tag + ": applying the update"):
            psi.set_parameters(jnp.array(theta) + upd)
            new = np.asarray(psi.get_parameters())
            kinds = [str(z.dtype) for z in jax.tree_util.tree_leaves(psi.parameters)]
            psi.set_parameters(jnp.array(P.p0))
        if case["net"] not in ("cpx", "CpxRBM", "NonHolo"):
            ctx.expect(np.isrealobj(new) and not any("complex" in k for k in kinds), tag + ": the update turns real parameters into complex ones")
        ctx.close(new - theta, uR, tag + ": change of the parameters", rtol=tolr, atol=tolr)
        if not np.all(k2[e2 > 1e-10 * e2[-1]]):
            labels.append("truncating")
        if np.abs(uR).max() > 1e-6:
            nontrivial = True
        labels.append("tol%s" % c["tol"])
    return nontrivial, labels
