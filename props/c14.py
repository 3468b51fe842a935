"""C14: distributed reductions and work distribution equal their serial definition for every layout of processes and devices."""
ID = "C14"
RULE = ("Part 'red': data of any rank and dtype with weights, split unevenly over 1-4 processes x 1-4 devices, compared with numpy on the gathered data (sum, mean, variance, covariance, gather), "
        "also after switching the set of used devices. Part 'dist': for requested sample numbers, devices and chains, the union of the process shares; first_sample_id partitions the range; "
        "broadcast of arrays of unknown size from any root. Non-trivial: complex or rank>=3 data with at least 3 samples; or shares that differ between processes.")
ASSUMPTIONS = []


def shards(tier):
    q = tier == "quick"
    e = 60 if q else 500
    return [{"part": "red", "devices": 1, "examples": e}, {"part": "red", "devices": 3, "examples": e}, {"part": "red", "devices": 4, "examples": e},
            {"part": "red", "devices": 2, "mpi": 2, "examples": e}, {"part": "red", "devices": 1, "mpi": 3, "examples": e},
            {"part": "dist", "devices": 1, "mpi": 3, "examples": 4 * e}, {"part": "dist", "devices": 2, "mpi": 4, "examples": 2 * e}, {"part": "dist", "devices": 1, "examples": 4 * e}]


def strategy(shard):
    from hypothesis import strategies as st
    size = shard.get("mpi", 1)

    @st.composite
    def red(draw):
        return {"B": draw(st.one_of(st.lists(st.integers(1, 6), min_size=size, max_size=size), st.lists(st.integers(1, 6), min_size=size, max_size=size), st.lists(st.integers(60, 130), min_size=size, max_size=size))), "tail": draw(st.sampled_from([[1], [2], [3], [5], [2, 3], [2, 1, 2], [40], []])),
                "dtype": draw(st.sampled_from(["real", "cpx", "int"])), "w": draw(st.sampled_from(["uniform", "random", "sparse"])), "seed": draw(st.integers(0, 10**6)),
                "off": draw(st.sampled_from([0.0, 0.0, 10.0])), "use": draw(st.integers(1, shard["devices"]))}

    @st.composite
    def dist(draw):
        return {"N": draw(st.one_of(st.integers(1, 20), st.integers(1, 5000))), "dev": draw(st.sampled_from([None, 1, 2, 3, 8])), "ch": draw(st.integers(1, 9)),
                "len": draw(st.integers(0, 9)), "root": draw(st.integers(0, size - 1)), "seed": draw(st.integers(0, 10**6))}
    return red() if shard["part"] == "red" else dist()


def corpus(shard):
    if shard["part"] == "red":
        s = shard.get("mpi", 1)
        return [{"B": [3, 1, 4][:s], "tail": t, "dtype": "cpx", "w": "random", "seed": 2, "off": 1.0, "use": u} for t, u in (([3], shard["devices"]), ([2, 2], 1), ([], shard["devices"]), ([1], shard["devices"]))]
    return [{"N": n, "dev": d, "ch": c, "len": 4, "root": 0, "seed": 1} for n in (1, 5, 12) for d, c in ((None, 1), (2, 3))]


def check(case, ctx):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.mpi_wrapper as mpi
    from lib.harness import rng
    size, rank = ctx.size, ctx.rank
    ag = (lambda x: [x]) if ctx.comm is None else ctx.comm.allgather
    if ctx.shard["part"] == "dist":
        N = case["N"]
        with ctx.sut("distribute_sampling"):
            if case["dev"] is None:
                mine, glob = mpi.distribute_sampling(N)
                first = int(mpi.first_sample_id())
            else:
                mine, glob = mpi.distribute_sampling(N, localDevices=case["dev"], numChainsPerDevice=case["ch"])
        mines, globs = ag(int(mine)), ag(int(glob))
        ctx.expect(len(set(globs)) == 1, "processes disagree about the total number of samples: %s" % globs)
        if case["dev"] is None:
            firsts = ag(first)
            ctx.expect(globs[0] == N and sum(mines) == N, "shares %s of %d samples (reported %d)" % (mines, N, globs[0]))
            ctx.expect(max(mines) - min(mines) <= 1, "unbalanced shares %s" % mines)
            cov = np.zeros(N, dtype=int)
            for f, m in zip(firsts, mines):
                cov[f:f + m] += 1
            ctx.expect(np.all(cov == 1), "sample ids starting at %s with shares %s do not partition 0..%d" % (firsts, mines, N - 1))
        else:
            unit = case["dev"] * case["ch"]
            tot = sum(mines) * unit
            ctx.expect(tot == globs[0], "shares %s x %d, reported total %d" % (mines, unit, globs[0]))
            ctx.expect(N <= tot < N + size * unit, "%d samples for a request of %d" % (tot, N))
            ctx.expect(max(mines) - min(mines) <= 1, "unbalanced shares %s" % mines)
        data = rng(case["seed"], 1).standard_normal(case["len"])
        with ctx.sut("bcast_unknown_size"):
            got = np.asarray(mpi.bcast_unknown_size(data if rank == case["root"] else np.array([float(rank)]), root=case["root"]))
        ctx.close(got, data, "broadcast array", rtol=0, atol=0)
        if ctx.comm is None:
            with ctx.raises((TypeError,), "broadcast of an array which is not float64"):
                mpi.bcast_unknown_size(np.arange(3))
        return len(set(mines)) > 1 or size == 1 and N > 1, ["dist", "chains" if case["dev"] else "plain"]

    full = jax.devices()
    use = min(case["use"], len(full))
    try:
        with ctx.sut("selecting devices"):
            jVMC.set_pmap_devices(full[:use]) if hasattr(jVMC, "set_pmap_devices") else jVMC.global_defs.set_pmap_devices(full[:use])
            ctx.expect(jVMC.global_defs.device_count() == use, "device count")
        B, tail = case["B"][rank], tuple(case["tail"])
        g = rng(case["seed"], rank)
        x = g.standard_normal((use, B) + tail) + case["off"]
        if case["dtype"] == "cpx":
            x = x + 1j * g.standard_normal((use, B) + tail)
        elif case["dtype"] == "int":
            x = np.round(3 * x).astype(np.int64)
        w = {"uniform": np.ones((use, B)), "random": g.random((use, B)) + 0.01, "sparse": (g.random((use, B)) < 0.5) + 0.0}[case["w"]]
        tot = sum(ag(w.sum()))
        p = w / tot if tot > 0 else w
        X = np.concatenate([a.reshape((-1,) + tail) for a in ag(x)])
        P = np.concatenate([a.reshape(-1) for a in ag(p)])
        xj, pj = jnp.array(x), jnp.array(p)
        m = np.tensordot(P, X, axes=(0, 0))
        with ctx.sut("global_sum"):
            r = mpi.global_sum(xj)
        ctx.close(r, X.sum(axis=0), "global sum", rtol=1e-11)
        with ctx.sut("global_mean"):
            r = mpi.global_mean(xj, pj)
        ctx.close(r, m, "global mean", rtol=1e-11)
        with ctx.sut("global_variance"):
            r = mpi.global_variance(xj, pj)
        ctx.close(r, np.tensordot(P, np.abs(X - m)**2, axes=(0, 0)), "global variance", rtol=1e-10)
        if len(tail) == 1:
            with ctx.sut("global_covariance"):
                r = mpi.global_covariance(xj, pj)
            ctx.close(r, np.einsum("s,si,sj->ij", P, X, np.conj(X)) - np.outer(m, np.conj(m)), "global covariance", rtol=1e-10)
        if tail:
            with ctx.sut("gather"):
                r = np.asarray(mpi.gather(xj))
            ctx.close(r, X, "gathered data", rtol=0, atol=0)
        with ctx.sut("get_communication_time"):
            t = mpi.get_communication_time()
            t2 = mpi.get_communication_time()
        ctx.expect(t > 0 and t2 == 0, "communication time %r, then %r" % (t, t2))
    finally:
        jVMC.global_defs.set_pmap_devices(full)
    return len(X) >= 3 and (case["dtype"] == "cpx" or len(tail) >= 1), [case["dtype"], "rank%d" % (2 + len(tail)), case["w"], "use%d" % use]
