"""C22: the selection of devices decides where computations run, never what they compute."""
ID = "C22"
RULE = ("A case is a history of device selections (subsets of the available devices in any order, single devices, selections equal up to order, returning to an earlier selection), and after each selection a set of "
        "tasks: reductions, statistics, network evaluation and gradients, local estimators, exact sampling, Monte Carlo sampling, TDVP equations, POVM evaluation. Oracle: device_count()/devices() report the selection, "
        "batched results are laid out over exactly the selected devices, and every result equals the dense numpy reference, which does not know about devices. Non-trivial: at least 2 different selections.")
ASSUMPTIONS = ["networks, operators and samplers are built after the selection they are used with (the reductions and statistics follow the selection at any time)"]
TASKS = ["reduce", "stats", "net", "eloc", "exact", "mc", "tdvp", "povm"]


def shards(tier):
    e = 4 if tier == "quick" else 40
    return [{"part": "sel", "devices": d, "examples": e} for d in (4, 3, 4, 2, 5, 4, 3)] + [{"part": "sel", "devices": 3, "mpi": 2, "examples": e}]


def strategy(shard):
    from hypothesis import strategies as st
    D = shard["devices"]

    @st.composite
    def sel(draw):
        k = draw(st.integers(1, D))
        s = list(draw(st.permutations(list(range(D)))))[:k]
        return s[0] if k == 1 and draw(st.booleans()) else s

    @st.composite
    def case(draw):
        n = draw(st.integers(1, 3))
        steps = [[draw(sel()), draw(st.lists(st.sampled_from(TASKS), unique=True, min_size=1, max_size=3))] for _ in range(n)]
        if n > 1 and draw(st.integers(0, 3)) == 0:
            s = steps[0][0]
            steps[1][0] = list(reversed(s)) if isinstance(s, list) else s
        return {"steps": steps, "seed": draw(st.integers(0, 10**6)), "n": draw(st.integers(1, 3)), "kind": draw(st.sampled_from(["cpx", "reim"])), "B": draw(st.integers(1, 4))}
    return case()


def corpus(shard):
    D = shard["devices"]
    return [{"steps": [[list(range(D)), ["reduce", "stats"]], [D - 1, ["reduce", "stats", "mc", "net"]], [list(range(D))[::-1], ["reduce", "eloc", "tdvp", "stats"]]], "seed": 3, "n": 2, "kind": "cpx", "B": 3},
            {"steps": [[[D - 1, 0], ["exact", "reduce"]], [[0, D - 1], ["reduce", "stats", "povm"]]], "seed": 4, "n": 2, "kind": "reim", "B": 2}]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.mpi_wrapper as mpi
    import jVMC.operator as op
    import jVMC.sampler as js
    from jVMC.stats import SampledObs
    from lib import nets, stat
    from lib.harness import rng
    full = jax.devices()
    ag = (lambda x: [x]) if ctx.comm is None else ctx.comm.allgather
    n, kind, M = case["n"], case["kind"], 2**case["n"]
    basis = nets.basis(n, 2)
    names = {"Sx": np.array([[0, 1], [1, 0]]), "Sz": np.diag([-1.0, 1.0])}

    def dense(name, i):
        A = np.eye(1)
        for j in range(n):
            A = np.kron(names[name] if i == j else np.eye(2), A)      # site 0 is the fastest index of nets.basis
        return A
    Hd = sum(-0.7 * dense("Sx", i) for i in range(n)) + sum(dense("Sz", i) @ dense("Sz", (i + 1) % n) for i in range(n))

    def build_H():
        h = op.BranchFreeOperator()
        for i in range(n):
            h.add(op.scal_opstr(-0.7, (op.Sx(i),)))
            h.add(op.scal_opstr(1.0, (op.Sz(i), op.Sz((i + 1) % n))))
        return h
    seen, labels = set(), set()

    def where(x, used, what):
        got = set(x.devices()) if hasattr(x, "devices") else None
        if got is not None:
            ctx.expect(got == set(used), lambda: "%s lives on %s, selected are %s" % (what, sorted(map(str, got)), sorted(map(str, used))))

    try:
        for k, (selection, tasks) in enumerate(case["steps"]):
            g = rng(case["seed"], k)                                # identical on all processes
            gl = rng(case["seed"], k, 77 + ctx.rank)                # different
            used = [full[selection]] if isinstance(selection, int) else [full[i] for i in selection]
            dev = len(used)
            seen.add(str(selection))
            with ctx.sut("selecting devices"):
                jVMC.set_pmap_devices(full[selection] if isinstance(selection, int) else used)
                ctx.expect(jVMC.global_defs.device_count() == dev and list(jVMC.global_defs.devices()) == used, lambda: "selected %s, reported %s" % (used, jVMC.global_defs.devices()))

            def state():
                net, l = nets.make_table(rng(case["seed"], k, 5), n, 2, kind)
                return jVMC.vqs.NQS(net, batchSize=3), l
            for t in tasks:
                labels.add(t)
                if t == "reduce":
                    B = case["B"] + ctx.rank
                    x = gl.standard_normal((dev, B, 2)) + 1j * gl.standard_normal((dev, B, 2))
                    w = gl.random((dev, B)) + 0.1
                    w = w / sum(ag(w.sum()))
                    X, W = np.concatenate([a.reshape(-1, 2) for a in ag(x)]), np.concatenate([a.ravel() for a in ag(w)])
                    m = W @ X
                    with ctx.sut("reductions"):
                        r = [mpi.global_sum(jnp.array(x)), mpi.global_mean(jnp.array(x), jnp.array(w)), mpi.global_variance(jnp.array(x), jnp.array(w)), mpi.global_covariance(jnp.array(x), jnp.array(w))]
                    for a, b, nm in zip(r, [X.sum(axis=0), m, W @ np.abs(X - m)**2, (X.T * W) @ X.conj() - np.outer(m, m.conj())], ["sum", "mean", "variance", "covariance"]):
                        ctx.close(a, b, "global " + nm)
                elif t == "stats":
                    B = case["B"] + 1
                    x = gl.standard_normal((dev, B, 2)) + 1j * gl.standard_normal((dev, B, 2))
                    y = gl.standard_normal((dev, B))
                    w = gl.random((dev, B)) + 0.1
                    w = w / sum(ag(w.sum()))
                    X, Y, W = np.concatenate([a.reshape(-1, 2) for a in ag(x)]), np.concatenate([a.ravel() for a in ag(y)]), np.concatenate([a.ravel() for a in ag(w)])
                    dX, dY = X - W @ X, Y - W @ Y
                    with ctx.sut("statistics"):
                        a, b = SampledObs(jnp.array(x), jnp.array(w)), SampledObs(jnp.array(y), jnp.array(w))
                        r = [a.mean(), a.var(), a.covar(b), a.covar(), a.covar_var(b), a.tangent_kernel(), a.transform(lambda z: z * z).mean(), a.select(jnp.array([1])).mean(), a.covar_data(b).mean()]
                    C = np.einsum("s,si,s->i", W, dX.conj(), dY)[:, None]
                    D2 = np.einsum("s,si,s->i", W, np.abs(dX)**2, np.abs(dY)**2)[:, None] - np.abs(C)**2
                    Z = np.sqrt(W)[:, None] * dX
                    want = [W @ X, W @ np.abs(dX)**2, C, np.einsum("s,si,sj->ij", W, dX.conj(), dX), D2, Z @ Z.conj().T, W @ X**2, (W @ X)[1:], C]
                    for i, (u, v) in enumerate(zip(r, want)):
                        u = np.asarray(u)
                        ctx.expect(u.size == v.size, lambda: "statistics result %d has shape %s" % (i, u.shape))
                        if u.size == v.size:
                            ctx.close(u.reshape(v.shape), v, "statistics result %d" % i)
                elif t == "net":
                    idx = gl.integers(0, M, (dev, case["B"]))
                    with ctx.sut("evaluating the network"):
                        psi, l = state()
                        s = jnp.array(basis[idx])
                        v = psi(s)
                        gr = psi.gradients(s)
                    where(v, used, "network output")
                    where(gr, used, "gradients")
                    ctx.close(v, l[idx], "log amplitudes")
                    e = np.eye(M)[idx]
                    ctx.close(gr, np.concatenate([e, 1j * e], axis=-1), "gradients")
                elif t == "eloc":
                    idx = gl.integers(0, M, (dev, case["B"]))
                    with ctx.sut("local estimator"):
                        psi, l = state()
                        h = build_H()
                        s = jnp.array(basis[idx])
                        e1 = h.get_O_loc(s, psi)
                        e2 = h.get_O_loc_batched(s, psi, psi(s), 2)
                    E = np.array([Hd[i] @ np.exp(l - l[i]) for i in range(M)])
                    where(e1, used, "local estimator")
                    ctx.close(e1, E[idx], "local estimator")
                    ctx.close(e2, E[idx], "batched local estimator")
                elif t == "exact":
                    with ctx.sut("exact sampling"):
                        psi, l = state()
                        c, lp, p = js.ExactSampler(psi, (n,)).sample()
                    where(c, used, "configurations of the exact sampler")
                    c, p = np.asarray(c), np.asarray(p)
                    Wt = np.zeros(M)
                    for i, q in ag((nets.np_index(c.reshape(-1, n), 2), p.ravel())):
                        np.add.at(Wt, i, q)
                    w = np.exp(2 * l.real)
                    ctx.close(Wt, w / w.sum(), "weights of the basis states")
                elif t == "mc":
                    with ctx.sut("Monte Carlo sampling"):
                        psi, l = state()
                        sm = js.MCSampler(psi, (n,), 11 + k, updateProposer=js.propose_spin_flip, numChains=300, numSamples=1200, thermalizationSweeps=4, sweepSteps=50)
                        c, lp, p = sm.sample()
                        N = int(sm.get_last_number_of_samples())
                    where(c, used, "Monte Carlo configurations")
                    parts = ag(np.asarray(nets.np_index(np.asarray(c).reshape(-1, n), 2)))
                    idx = np.concatenate(parts)
                    ctx.expect(np.asarray(c).shape[0] == dev and len(idx) == N >= 1200, lambda: "%d samples, %d reported, on %d devices" % (len(idx), N, np.asarray(c).shape[0]))
                    w = np.exp(2 * l.real)
                    pv = stat.chi2_p(np.bincount(idx, minlength=M), w / w.sum())
                    ctx.expect(pv > 1e-9, lambda: "samples do not follow |psi|^2: p-value %.1e" % pv)
                    cc = np.asarray(c)
                    rows = [tuple(cc[d].ravel()) for d in range(cc.shape[0])]
                    if n > 1:
                        ctx.expect(len(set(rows)) == len(rows), "two devices produce identical chains")
                elif t == "tdvp":
                    with ctx.sut("TDVP equations"):
                        psi, l = state()
                        sm = js.ExactSampler(psi, (n,))
                        eq = jVMC.util.tdvp.TDVP(sm, rhsPrefactor=1.0, makeReal="real", pinvTol=1e-8, diagonalizeOnDevice=False)
                        dt = np.asarray(eq(psi.get_parameters(), 0.0, psi=psi, hamiltonian=build_H(), intStep=0))
                        e0 = float(np.real(np.asarray(eq.get_energy_mean())))
                    w = np.exp(2 * l.real)
                    w = w / w.sum()
                    E = np.array([Hd[i] @ np.exp(l - l[i]) for i in range(M)])
                    dl = dt[:M] + 1j * dt[M:]
                    # complete ansatz: imaginary-time flow up to a change of norm and phase, d log psi = -(E_loc - <E>)
                    r = dl + E
                    ctx.close(r - w @ r, np.zeros(M), "flow of the log amplitudes", atol=1e-4)
                    ctx.close(e0, (w @ E).real, "energy")
                elif t == "povm":
                    with ctx.sut("POVM evaluation"):
                        pv_ = op.POVM({"dim": "1D", "L": n})
                        idx = gl.integers(0, 4, (dev, case["B"], n))
                        m1, _ = pv_.evaluate_observable(pv_.observables["Z"], jnp.array(idx))
                        ob = np.asarray(pv_.observables["Z"])
                    where(m1, used, "POVM observables")
                    ctx.close(m1, ob[idx].mean(axis=-1), "POVM magnetisation")
    finally:
        jVMC.global_defs.set_pmap_devices(full)
    return len(seen) > 1, sorted(labels) + ["selections%d" % len(seen)]
