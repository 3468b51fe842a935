"""C24: a simulation resumed from its checkpoints continues as if it had not been interrupted."""
ID = "C24"
RULE = ("A case is a small simulation (network, operator, real or imaginary time, Euler or Heun, exact sampling) that writes observables, metadata and a network checkpoint after each step, and a list "
        "of interruptions: the step after which the run dies, the step whose checkpoint the next run starts from (the last one, or an earlier one into a new group), and how the new run is set up "
        "(checkpoint by index, by time or by default, other seed, batch size and number of devices, all objects new). Oracle: the uninterrupted run; all parameters, times, observables and metadata "
        "recorded after a resumption, and the sequence in the file, equal it. Non-trivial: at least one interruption and parameters that move by more than 1e-4 per run.")
ASSUMPTIONS = ["exact sampling (Markov chains restart with new keys)"]


def shards(tier):
    q = tier == "quick"
    e = 5 if q else 60
    return [{"part": "resume", "devices": d, "examples": e} for d in (1, 2, 3, 1, 1, 4)] + [{"part": "resume", "devices": d, "mpi": m, "examples": e} for d, m in ((1, 2), (2, 2))]


def strategy(shard):
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        n = draw(st.sampled_from([2, 3]))
        K = draw(st.integers(2, 6))
        string = st.lists(st.tuples(st.sampled_from(["Sx", "Sy", "Sz"]), st.integers(0, n - 1)), min_size=1, max_size=2, unique_by=lambda z: z[1])
        term = st.tuples(string, st.sampled_from([-1.0, 0.5, 0.8]), st.booleans())
        cut = st.tuples(st.integers(1, K - 1), st.sampled_from(["default", "idx", "time", "time-off", "neg"]), st.integers(0, 2), st.integers(1, shard["devices"]), st.sampled_from([1, 3, 100]))
        return {"n": n, "net": draw(st.sampled_from(["cpx", "reim", "CpxRBM", "RBM", "Two", "NonHolo", "FFN"])), "seed": draw(st.integers(0, 10**5)), "steps": K,
                "strings": [[[list(o) for o in s], a, f] for s, a, f in draw(st.lists(term, min_size=1, max_size=3))], "mode": draw(st.sampled_from(["real", "imag"])),
                "stepper": draw(st.sampled_from(["Euler", "Heun"])), "dt": draw(st.sampled_from([0.01, 0.003])), "t0": draw(st.sampled_from([0.0, 1.25])),
                "cuts": [list(c) for c in draw(st.lists(cut, min_size=1, max_size=3))]}
    return gen()


def corpus(shard):
    d = shard["devices"]
    s = [[[["Sx", 0]], -1.0, True], [[["Sz", 0], ["Sz", 1]], 0.8, False]]
    b = {"n": 3, "net": "CpxRBM", "seed": 1, "steps": 5, "strings": s, "mode": "real", "stepper": "Heun", "dt": 0.01, "t0": 0.0, "cuts": [[1, "default", 0, d, 100], [2, "time", 0, 1, 3], [4, "idx", 2, d, 1]]}
    return [b] if d != 2 else [dict(b, net="reim", n=2, mode="imag", t0=1.25, cuts=[[3, "time-off", 1, 1, 3], [4, "neg", 0, d, 1]])]


def check(case, ctx):
    import contextlib
    import io
    import os
    import h5py
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.util.stepper as stp
    from jVMC import global_defs
    from jVMC.util import OutputManager, TDVP, measure
    from lib import vmc
    from lib.harness import scratch
    n, K, dt = case["n"], case["steps"], case["dt"]
    terms = [["scal", (["f", "lin", [a, 0.5]] if f else ["n", a, 0.0]), ["T", [["o", o, i] for o, i in s]]] for s, a, f in case["strings"]]
    path = os.path.join(scratch(), "resume.h5")

    def barrier():
        if ctx.comm is not None:
            ctx.comm.barrier()

    def setup(k, batch, seed):
        global_defs.set_pmap_devices(jax.devices()[:k])
        P = vmc.Problem(case["net"], n, terms, case["seed"], k, batch=batch, scale=0.3)
        if seed:        # a different state to begin with
            P.psi.set_parameters(jnp.array(P.p0 + 0.1 * seed))
        smp = jVMC.sampler.ExactSampler(P.psi, (n,))
        eq = TDVP(smp, rhsPrefactor=1j if case["mode"] == "real" else 1.0, makeReal="imag" if case["mode"] == "real" else "real", pinvTol=0.0, pinvCutoff=1e-8, diagonalShift=1e-3)
        return P, smp, eq, (stp.Heun if case["stepper"] == "Heun" else stp.Euler)(timeStep=dt)

    def run(objs, out, t, first, last):
        """steps first+1..last; returns the time"""
        P, smp, eq, s = objs
        for j in range(first, last):
            new, h = s.step(t, eq, P.psi.get_parameters(), hamiltonian=P.H, psi=P.psi, numSamples=None)
            P.psi.set_parameters(new)
            t += float(h)
            m = measure({"energy": [(P.H, t)]}, P.psi, smp)
            if out is not None:
                out.write_observables(t, **m)
                out.write_metadata(t, dt=h, step=j + 1)
                out.write_network_checkpoint(t, P.psi.get_parameters())
            rec.append((t, np.array(P.psi.get_parameters()), np.asarray(m["energy"]["mean"])))
        return t

    try:
        with ctx.sut("uninterrupted run"):
            objs = setup(ctx.shard["devices"], 100, 0)
            rec = []
            run(objs, None, case["t0"], 0, K)
            p0, ref = objs[0].p0, rec
        if not all(np.all(np.isfinite(r[1])) and np.abs(r[1]).max() < 20 for r in ref):
            return False, ["undecided"]
        if ctx.rank == 0 and os.path.exists(path):
            os.unlink(path)
        barrier()
        # records: group -> steps in the order of writing
        written, group, alive = {"run": []}, "run", []
        with ctx.sut("first run"), contextlib.redirect_stdout(io.StringIO()):
            objs = setup(ctx.shard["devices"], 100, 0)
            out = OutputManager(path, group=group, append=False)
            rec, step, t = [], 0, case["t0"]
            for i, (upto, how, back, k, batch) in enumerate(case["cuts"] + [[K, None, 0, 1, 1]]):
                if upto > step:
                    t = run(objs, out, t, step, upto)
                    written[group] += list(range(step + 1, upto + 1))
                    step = upto
                if how is None:
                    break
                if not written[group]:
                    continue
                alive.append((objs, out))       # a run that dies does not clean up
                barrier()
                out = OutputManager(path, group=group, append=True)
                idx = max(len(written[group]) - 1 - back, 0)
                st_ = written[group][idx]
                kw = {"default": {}, "idx": {"idx": idx}, "neg": {"idx": idx - len(written[group])}, "time": {"time": ref[st_ - 1][0]}, "time-off": {"time": ref[st_ - 1][0] + 0.3 * dt}}[how]
                if how == "default":
                    st_ = written[group][-1]
                t, w = out.get_network_checkpoint(**kw)
                t = float(t)
                ctx.close(t, ref[st_ - 1][0], "time of the checkpoint of step %d (%s)" % (st_, how), rtol=0, atol=1e-12)
                ctx.close(np.asarray(w), ref[st_ - 1][1], "checkpoint of step %d (%s)" % (st_, how), rtol=1e-6, atol=1e-6)
                if st_ != step or i % 2:        # going back: continue in a new group
                    group = "resumed%d" % i
                    out.set_group(group)
                    written[group] = []
                step = st_
                objs = setup(k, batch, 1 + i)
                objs[0].psi.set_parameters(jnp.array(w))
        barrier()
        for (tt, p, e), st_ in zip(rec, [x for g in written.values() for x in g]):
            ctx.close(p, ref[st_ - 1][1], "parameters after step %d of the resumed run" % st_, rtol=1e-6, atol=1e-6)
        with h5py.File(path, "r") as f:
            for g, steps in written.items():
                if not steps:
                    continue
                T = np.array([ref[s_ - 1][0] for s_ in steps])
                for name in ("observables", "metadata", "network_checkpoints"):
                    ctx.expect(name in f[g], "no %s in group %s" % (name, g))
                    ctx.close(f[g][name]["times"][...], T, "times of the %s in group %s" % (name, g), rtol=0, atol=1e-12)
                ctx.close(f[g]["network_checkpoints/checkpoints"][...], np.array([ref[s_ - 1][1] for s_ in steps]), "checkpoints in group %s" % g, rtol=1e-6, atol=1e-6)
                ctx.close(f[g]["observables/energy/mean"][...], np.array([ref[s_ - 1][2] for s_ in steps]), "energies in group %s" % g, rtol=1e-6, atol=1e-6)
                ctx.close(f[g]["metadata/step"][...], np.array(steps, dtype=float), "steps in group %s" % g, rtol=0, atol=0)
                ctx.close(f[g]["metadata/dt"][...], np.full(len(steps), dt), "step sizes in group %s" % g, rtol=0, atol=1e-15)
        barrier()
    finally:
        global_defs.set_pmap_devices(jax.devices())
    return np.abs(ref[-1][1] - p0).max() > 1e-4, [case["net"], case["mode"], case["stepper"]] + sorted(set(c[1] for c in case["cuts"]))
