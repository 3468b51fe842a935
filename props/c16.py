"""C16: the TDVP equation and its regularised solution."""
ID = "C16"
RULE = ("A case is an ansatz (complete amplitude tables with holomorphic/real parameters, RBM, complex RBM, two-network and non-holomorphic nets), a random (time-dependent) operator, an exact or Monte Carlo sampler "
        "(all layouts), and a history of solver calls with different prefactors, real/imaginary projections, diagonal shifts, regularisation parameters, parameters, times and integration stages. Oracle: dense "
        "numpy S, F, spectrum, regularised pseudo-inverse, signal-to-noise ratios and error measures from the very samples used; for complete ansaetze the exact derivative of the state. "
        "Non-trivial: the force vector does not vanish.")
ASSUMPTIONS = ["for Monte Carlo samplers the regularised update is compared only if the relevant part of the spectrum is not degenerate (the SNR is basis dependent otherwise)"]


def shards(tier):
    q = tier == "quick"
    e = 5 if q else 70
    return [{"part": "exact", "devices": 1, "examples": e}, {"part": "exact", "devices": 3, "examples": e}, {"part": "exact", "devices": 1, "mpi": 2, "examples": e},
            {"part": "full", "devices": 1, "examples": e}, {"part": "full", "devices": 3, "examples": e},
            {"part": "mc", "devices": 1, "examples": e}, {"part": "mc", "devices": 2, "examples": e}, {"part": "mc", "devices": 1, "mpi": 2, "examples": e}]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import opgen
    part = shard["part"]
    netnames = {"full": ["cpx", "reim"], "exact": ["CpxRBM", "RBM", "Two", "NonHolo", "real", "reim"], "mc": ["RBM", "Two", "NonHolo", "FFN"]}[part]

    @st.composite
    def gen(draw):
        n = draw(st.sampled_from([2, 3] if part == "full" else [2, 3, 3]))
        net = draw(st.sampled_from(netnames))
        calls = []
        for _ in range(draw(st.integers(2, 4))):
            calls.append({"q": draw(st.sampled_from(["real", "imag"] if net not in ("RBM", "FFN", "real") else ["real"])), "x": draw(st.sampled_from([[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0], [0.6, 0.8]])),
                          "shift": draw(st.sampled_from([0.0, 0.0, 0.1, 10.0, 1e-3, 5e-3])), "tol": draw(st.sampled_from([0.0, 1e-8, 1e-4, 1e-2])), "cut": draw(st.sampled_from([1e-6, 1e-6, 1e-4, 1e-3])),
                          "snr": draw(st.sampled_from([0.5, 2.0])), "dev": draw(st.booleans()), "cv": draw(st.sampled_from([False, False, True])),
                          "move": draw(st.booleans()), "t": draw(st.sampled_from([0.0, 0.5, -1.0])), "new": draw(st.booleans()), "stage": draw(st.sampled_from([0, 0, 0, 1, None]))})
        return {"net": net, "n": n, "seed": draw(st.integers(0, 10**6)), "terms": [["S", [["o", "Sx", 0]]]] + draw(st.lists(opgen.term(2, n, False, max_ops=2, small=False), min_size=1, max_size=4)),
                "calls": calls, "N": draw(st.sampled_from([12, 40, 100])), "mu": draw(st.sampled_from([2, 2, 1])), "chains": draw(st.sampled_from([1, 5]))}
    return gen()


def corpus(shard):
    t = [["S", [["o", "Sx", 0]]], ["*", ["f", "lin", [1.0, 0.5]], ["*", ["o", "Sz", 0], ["o", "Sz", 1]]], ["scal", ["n", 0.5, 0.0], ["T", [["o", "Sx", 1]]]]]
    call = {"q": "imag", "x": [0.0, 1.0], "shift": 0.0, "tol": 0.0, "cut": 1e-6, "snr": 1.0, "dev": True, "cv": False, "move": False, "t": 0.5, "new": True, "stage": 0}
    net = {"full": "cpx", "exact": "RBM", "mc": "Two"}[shard["part"]]
    idle = [{"net": "RBM", "n": 2, "seed": 1, "terms": [["S", [["o", "Id", 0]]]], "N": 12, "mu": 2, "chains": 1, "calls": [dict(call, q="real", x=[1.0, 0.0])]}] if shard["part"] != "full" else []
    return idle + [{"net": net, "n": 3, "seed": 5, "terms": t, "N": 40, "mu": 2, "chains": 5,
             "calls": [dict(call), dict(call, q="real", x=[1.0, 0.0], shift=0.1, cut=1e-3, tol=1e-2, move=True, cv=True), dict(call, q="real", stage=1, new=False, t=-1.0, move=True), dict(call, q="real", cv=True, tol=1e-2), dict(call, shift=2e-3, cut=1e-4)]}]


def solve_ref(S, F, tol, cutmin):
    """regularised solution; second value: False if the choice of the cutoff is numerically undecided"""
    import numpy as np
    ev, V = np.linalg.eigh(S)
    VtF = V.conj().T @ F
    if np.abs(ev).max() < 1e-9 or np.linalg.norm(F) < 1e-7:
        return np.zeros(len(F)), False
    rel = np.abs(ev / ev[-1])
    cut, res, sharp = 1e-2, 1.0, True
    while res > tol and cut > cutmin:
        cut *= 0.8
        with np.errstate(all="ignore"):
            p = np.where(rel > 1e-12, 1.0 / ((1.0 + (max(cut, cutmin) / rel)**6) * ev), 0.0)
        res = np.linalg.norm((p * ev - 1) * VtF) / np.linalg.norm(F)
        sharp = sharp and abs(res - tol) > 1e-3 * tol + 1e-10
    return np.real(V @ (p * VtF)), sharp


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    from jVMC.util.tdvp import TDVP
    from lib import vmc
    from lib.harness import rng
    part, n = ctx.shard["part"], case["n"]
    full = part == "full"
    if full:
        for c in case["calls"]:
            c.update(shift=0.0, tol=0.0, cut=1e-6, cv=False)
    with ctx.sut("setup"):
        P = vmc.Problem(case["net"], n, case["terms"], case["seed"], ctx.shard["devices"])
        psi = P.psi
        if part == "mc":
            smp = jVMC.sampler.MCSampler(psi, (n,), jax.random.PRNGKey(case["seed"]), updateProposer=jVMC.sampler.propose_spin_flip, numChains=case["chains"],
                                         sweepSteps=n, numSamples=case["N"] + 30, thermalizationSweeps=5, mu=case["mu"])
        else:
            smp = jVMC.sampler.ExactSampler(psi, (n,))
    rec = vmc.spy(smp, ctx)
    nontrivial, labels = False, [part, case["net"]]
    tdvp, cfg, stored, theta = None, None, None, P.p0
    for i, c in enumerate(case["calls"]):
        tag = "call %d" % i
        if tdvp is None or c["new"]:
            cfg = dict(c)
            x = complex(*cfg["x"])
            x = x.real if x.imag == 0 else x
            with ctx.sut(tag + ": TDVP()"):
                tdvp = TDVP(smp, snrTol=cfg["snr"], pinvTol=cfg["tol"], pinvCutoff=cfg["cut"], makeReal=cfg["q"], rhsPrefactor=x, diagonalShift=cfg["shift"],
                            crossValidation=cfg["cv"], diagonalizeOnDevice=cfg["dev"])
            stored = None
        else:
            cfg["shift"], cfg["cv"] = c["shift"], c["cv"]
            with ctx.sut(tag + ": setters"):
                tdvp.set_diagonal_shift(c["shift"])
                tdvp.set_cross_validation(c["cv"])
        if c["move"]:
            theta = theta + 0.2 * rng(case["seed"], 20 + i).standard_normal(theta.shape)
        psi.set_parameters(jnp.array(P.p0))
        kw = {} if c["stage"] is None else {"intStep": c["stage"]}
        Nreq = case["N"]
        if part == "mc":
            kw["numSamples"] = Nreq
        with ctx.sut(tag):
            upd = np.asarray(tdvp(jnp.array(theta), c["t"], psi=psi, hamiltonian=P.H, **kw))
        ctx.close(psi.get_parameters(), P.p0, tag + ": parameters of the state after the call", rtol=0, atol=0)
        l, O = P.dense(theta)
        A = P.matrix(c["t"])
        E = P.eloc(A, l)
        cw = rec[-1]
        ix, w = vmc.gathered(ctx, *cw)
        if part != "mc":
            ctx.close(np.bincount(ix, weights=w, minlength=2**n), P.probs(l), tag + ": distribution used", rtol=1e-8)
        else:
            ctx.expect(Nreq <= len(ix) < Nreq + case["chains"] * ctx.shard["devices"] * ctx.size, lambda: tag + ": %d samples used instead of %d" % (len(ix), Nreq))
        # weights belong to the given parameters, even though the state has others
        dO, dE, S0, C, var = vmc.stat_terms(O[ix], E[ix], w)
        q = vmc.q_of(cfg["q"])
        F0 = -x * C
        S, F = q(S0), q(F0)
        S = S + np.diag(cfg["shift"] * np.diag(S))
        sc = max(1.0, np.abs(S0).max(), np.abs(C).max())
        with ctx.sut(tag + ": accessors"):
            gS = tdvp.get_S()
            gSd = tdvp.S_dot(jnp.array(theta))
        ctx.close(gS, S, tag + ": S", rtol=1e-8, atol=1e-9 * sc)
        ctx.close(gSd, S0 @ theta, tag + ": S_dot", rtol=1e-8, atol=1e-9 * sc)
        ctx.expect(upd.shape == theta.shape and np.isrealobj(upd) and np.all(np.isfinite(upd)), lambda: tag + ": update %s" % upd[:4])
        if np.linalg.norm(F) < 1e-7 * sc or np.abs(S).max() < 1e-9:
            labels.append("no force")
            continue
        nontrivial = True
        ev, V = np.linalg.eigh(S)
        rel = np.abs(ev / ev[-1])
        VtF = V.conj().T @ F
        # Monte Carlo noise of the projected forces
        D = np.einsum("ki,sk->si", V.conj(), q(-x * dO.conj() * dE[:, None]))
        rv = w @ np.abs(D - w @ D)**2
        with np.errstate(all="ignore"):
            snr = np.sqrt(len(ix) * np.abs(VtF)**2 / rv)

        def pinv(cut, mc=part == "mc"):
            with np.errstate(all="ignore"):
                r = 1.0 / (1.0 + (cut / rel)**6)
                if mc:
                    r = r / (1.0 + (cfg["snr"] / snr)**6)
                p = np.where(rel > 1e-14, r / ev, 0.0)
            p[rel < 1e-12] = 0.0
            return p, np.linalg.norm((p * ev - 1) * VtF) / np.linalg.norm(F)
        gap = np.min(np.diff(ev)) / ev[-1] if len(ev) > 1 else 1.0
        imp = (rel > cfg["cut"] * 1e-2) | (np.abs(VtF) > 1e-9 * np.linalg.norm(F))
        d = np.abs(ev[:, None] - ev[None, :]) / ev[-1] + 10 * np.eye(len(ev)) + 10 * ~(imp[:, None] & imp[None, :])
        ok_mc = d.min() > 1e-6 and (np.all(rv[imp] > 1e-12 * var * np.abs(S0).max()))
        if c["stage"] == 0:
            with ctx.sut(tag + ": metadata"):
                md = dict(tdvp.get_metadata())
                err, res = tdvp.get_residuals()
                stored = (float(tdvp.get_energy_mean()), float(tdvp.get_energy_variance()), np.asarray(tdvp.get_spectrum()))
                gsnr = np.asarray(tdvp.get_snr())
            ctx.close(stored[0], (w @ E[ix]).real, tag + ": energy", rtol=1e-8, atol=1e-9 * sc)
            ctx.close(stored[1], var, tag + ": energy variance", rtol=1e-8, atol=1e-9 * sc**2)
            ctx.close(np.sort(stored[2]), ev, tag + ": spectrum", rtol=1e-8, atol=1e-9 * sc)
            cut = float(md["pinv_cutoff"])
            if part == "mc" and not ok_mc:
                labels.append("degenerate")
                continue
            p, r = pinv(cut)
            ref = np.real(V @ (p * VtF))
            amp = np.linalg.norm(F) / np.abs(ev).max()
            ctx.close(upd, ref, tag + ": update", rtol=1e-5, atol=1e-12 * (1 + amp) / cut + 1e-9)
            ctx.close(float(res), r, tag + ": residual of the solution", rtol=1e-5, atol=1e-8)
            ctx.expect(cut >= cfg["cut"] * (1 - 1e-12) and cut <= 1e-2, lambda: tag + ": cutoff %g" % cut)
            ctx.expect(r <= cfg["tol"] * 1.01 + 1e-9 or cut <= cfg["cut"] * (1 + 1e-9), lambda: tag + ": residual %g above the tolerance %g although the cutoff %g can be lowered" % (r, cfg["tol"], cut))
            if cut < 0.0079:
                r2 = pinv(cut / 0.8)[1]
                ctx.expect(r2 > cfg["tol"] * 0.99 - 1e-9, lambda: tag + ": cutoff %g is smaller than required by the tolerance" % cut)
            dev2 = float(w @ np.abs(dO @ ref + x * dE)**2 / var)
            ctx.close(float(err), dev2, tag + ": TDVP error", rtol=1e-5, atol=1e-7 * (1 + np.linalg.norm(ref)))
            if part == "mc":
                # the smooth suppression of noisy directions uses these ratios
                m = imp & (np.abs(VtF) > 1e-7 * np.linalg.norm(F))
                o = np.argsort(stored[2])
                ctx.close(gsnr[o][m], snr[m], tag + ": signal-to-noise ratios", rtol=1e-4, atol=1e-6)
            if full:
                ctx.close(dO @ upd, -x * dE, tag + ": derivative of the complete ansatz", rtol=1e-4, atol=1e-5 * (1 + np.abs(dE).max()))
            if cfg["cv"] and cw[0].shape[1] >= 4 and part == "exact":
                parts = []
                for k in (0, 1):
                    ik, wk = vmc.gathered(ctx, *cw, sub=slice(k, None, 2))
                    _, _, S0k, Ck, _ = vmc.stat_terms(O[ik], E[ik], wk)
                    Sk = q(S0k)
                    parts.append((Sk + np.diag(cfg["shift"] * np.diag(Sk)), q(-x * Ck), S0k, -x * Ck))
                u1, sharp = solve_ref(parts[0][0], parts[0][1], cfg["tol"], cfg["cut"])
                if sharp and r > 1e-5 and dev2 > 1e-4 and np.linalg.norm(parts[1][1]) > 1e-3 * np.linalg.norm(F):
                    S2, F2, S02, F02 = parts[1]
                    ctx.close(float(md["tdvp_residual_cross_validation_ratio"]), np.linalg.norm(S2 @ u1 - F2) / np.linalg.norm(F2) / r, tag + ": residual of the solution of one half on the other half", rtol=1e-3)
                    ctx.close(float(md["tdvp_error_cross_validation_ratio"]), abs(1 + (u1 @ S02 @ u1 - 2 * (u1 @ F02).real).real / var) / dev2, tag + ": TDVP error of the solution of one half on the other half", rtol=1e-3, atol=1e-4)
                    labels.append("cv ratio")
                labels.append("cv")
        elif stored is not None:
            with ctx.sut(tag + ": accessors"):
                ctx.close(float(tdvp.get_energy_mean()), stored[0], tag + ": energy recorded at the first stage", rtol=0, atol=0)
                ctx.close(float(tdvp.get_energy_variance()), stored[1], tag + ": variance recorded at the first stage", rtol=0, atol=0)
                ctx.close(np.asarray(tdvp.get_spectrum()), stored[2], tag + ": spectrum recorded at the first stage", rtol=0, atol=0)
            labels.append("later stage")
        labels += ["q_" + cfg["q"], "shift" if cfg["shift"] else "noshift"]
    # the SR equation is the same with prefactor 1
    with ctx.sut("get_sr_equation"):
        from jVMC.stats import SampledObs
        c_, w_ = (jnp.array(a) for a in rec[-1])
        Eo = SampledObs(jnp.array(E[np.asarray(vmc.nets.np_index(rec[-1][0].reshape(-1, n), 2))].reshape(rec[-1][1].shape)), w_)
        Oo = SampledObs(jnp.array(O[np.asarray(vmc.nets.np_index(rec[-1][0].reshape(-1, n), 2))].reshape(rec[-1][1].shape + O.shape[1:])), w_)
        Ssr, Fsr = tdvp.get_sr_equation(Eo, Oo)
    ctx.close(Ssr, S, "S of the SR equation", rtol=1e-8, atol=1e-9 * sc)
    ctx.close(Fsr, q(-C), "F of the SR equation", rtol=1e-8, atol=1e-9 * sc)
    return nontrivial, labels
