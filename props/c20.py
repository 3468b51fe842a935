"""C20: high-level workflows (init_net, measure, ground_state_search) do what their building blocks define."""
ID = "C20"
RULE = ("Part 'measure': dictionaries of operators (single, lists, tuples with arguments) with exact and Monte Carlo samplers in all layouts; oracle: statistics of the very samples used. "
        "Part 'gs': ground state searches with TDVP or MinSR, diagonal shift, stopping tolerance, observables and output file, possibly continued; oracle: dense numpy trajectory. "
        "Part 'init': network descriptions; oracle: the network assembled by hand, and the description is unchanged and reusable. Non-trivial: non-vanishing variance; at least two search steps; symmetry or two networks.")
ASSUMPTIONS = []


def shards(tier):
    q = tier == "quick"
    e = 5 if q else 60
    return [{"part": "measure", "devices": 1, "examples": e}, {"part": "measure", "devices": 3, "examples": e}, {"part": "measure", "devices": 1, "mpi": 2, "examples": e},
            {"part": "gs", "devices": 1, "examples": e}, {"part": "gs", "devices": 2, "examples": e}, {"part": "gs", "devices": 1, "mpi": 2, "examples": e},
            {"part": "init", "devices": 1, "examples": e}, {"part": "init", "devices": 2, "examples": e}]


NETS_1D = [["RBM", {"numHidden": 2, "bias": True}], ["CpxRBM", {"numHidden": 2, "bias": True}], ["FFN", {"layers": [3, 2], "bias": True, "actFun": ["tanh", "elu", "tanh"]}],
           ["CNN", {"F": [2], "channels": [2], "strides": [1], "actFun": ["elu"]}], ["CpxCNN", {"F": [2], "channels": [2], "strides": [1], "actFun": ["poly6"]}],
           ["RNN", {"hiddenSize": 2, "depth": 1, "cell": "RNN", "actFun": "elu", "logProbFactor": 0.5}], ["RNN", {"hiddenSize": 2, "depth": 2, "cell": "GRU", "actFun": "elu", "logProbFactor": 0.5}]]
NETS_2D = [["CNN", {"F": [2, 2], "channels": [2], "strides": [1, 1], "actFun": ["elu"]}], ["CpxCNN", {"F": [2, 2], "channels": [1], "strides": [1, 1], "actFun": ["poly5"]}],
           ["RNN2D", {"hiddenSize": 2, "depth": 1, "cell": "RNN", "actFun": "tanh", "logProbFactor": 0.5}]]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import opgen
    part = shard["part"]

    @st.composite
    def meas(draw):
        n = draw(st.sampled_from([2, 3]))
        obs = []
        for i in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(["single", "list", "tuple", "args", "mixed", "mixed"]))
            m = 1 if k == "single" else draw(st.integers(2, 3)) if k == "mixed" else draw(st.integers(1, 2))
            obs.append([k, [draw(st.lists(opgen.term(2, n, False, max_ops=2, small=False, functions=(k in ("args", "mixed"))), min_size=1, max_size=3)) for _ in range(m)],
                        draw(opgen.args(2)) if k != "mixed" else [draw(opgen.args(draw(st.integers(0, 2)))) for _ in range(m)]])
        return {"net": draw(st.sampled_from(["cpx", "RBM", "CpxRBM"])), "n": n, "seed": draw(st.integers(0, 10**6)), "obs": obs, "mc": draw(st.booleans()), "mu": draw(st.sampled_from([2, 1])),
                "N": draw(st.sampled_from([None, 7, 20]))}

    @st.composite
    def gs(draw):
        n = draw(st.sampled_from([2, 3]))
        return {"net": draw(st.sampled_from(["cpx", "RBM", "CpxRBM", "Two", "real"])), "n": n, "seed": draw(st.integers(0, 10**6)), "field": draw(st.sampled_from([-1.0, -0.4, 0.7])), "zz": draw(st.sampled_from([-1.0, 0.5])),
                "eq": draw(st.sampled_from(["TDVP", "TDVP", "MinSR"])), "shift": draw(st.sampled_from([0.0, 0.1, 5.0])), "steps": draw(st.integers(1, 5)), "size": draw(st.sampled_from([1e-2, 5e-2])),
                "stop": draw(st.sampled_from([None, 1, 2])), "outp": draw(st.booleans()), "obs": draw(st.booleans()), "twice": draw(st.booleans())}

    @st.composite
    def init(draw):
        two = draw(st.sampled_from([False, False, True]))
        d2 = draw(st.integers(0, 2)) == 0
        dims = draw(st.sampled_from([[2, 2], [2, 2], [3, 3]])) if d2 else draw(st.sampled_from([[3], [4], [4], [6]]))
        ns = NETS_2D if d2 else NETS_1D
        sy = draw(st.lists(st.sampled_from(["translation", "reflection"] + (["rotation"] if d2 else []) + ["spinflip"]), max_size=4, unique=True))
        return {"dims": dims, "net1": draw(st.sampled_from(ns)), "net2": draw(st.sampled_from(ns)) if two else None, "sym": sy, "fac": draw(st.booleans()), "batch": draw(st.sampled_from([3, 50])), "seed": draw(st.integers(0, 1000))}
    return {"measure": meas(), "gs": gs(), "init": init()}[part]


def corpus(shard):
    if shard["part"] == "init":
        return [{"dims": [4], "net1": NETS_1D[2], "net2": NETS_1D[2], "sym": ["translation"], "fac": False, "batch": 50, "seed": 3},
                {"dims": [3], "net1": NETS_1D[5], "net2": NETS_1D[0], "sym": ["reflection"], "fac": False, "batch": 50, "seed": 3},
                {"dims": [4], "net1": NETS_1D[1], "net2": None, "sym": ["translation", "spinflip"], "fac": True, "batch": 50, "seed": 3},
                {"dims": [2, 2], "net1": NETS_2D[1], "net2": None, "sym": ["translation", "reflection", "rotation", "spinflip"], "fac": False, "batch": 50, "seed": 3}]
    if shard["part"] == "gs":
        return [{"net": "CpxRBM", "n": 3, "seed": 2, "field": -0.4, "zz": -1.0, "eq": "TDVP", "shift": 5.0, "steps": 3, "size": 5e-2, "stop": 1, "outp": True, "obs": True, "twice": True}]
    t = [["S", [["o", "Sx", 0]]], ["scal", ["n", 0.5, 0.0], ["T", [["o", "Sy", 1], ["o", "Sz", 0]]]]]
    return [{"net": "cpx", "n": 2, "seed": 2, "obs": [["single", [t], [0.0, 0.0]], ["list", [t, t[:1]], [0.0, 0.0]], ["args", [[["*", ["f", "diff", [1.0, 0.5]], ["o", "Sz", 0]]]], [0.3, 1.0]],
                                              ["mixed", [[["*", ["f", "diff", [1.0, 0.5]], ["o", "Sx", 0]]]] * 3, [[0.3, 1.0], [], [2.5]]]], "mc": m, "mu": 1, "N": 7} for m in (False, True)]


def check(case, ctx):
    return {"measure": check_measure, "gs": check_gs, "init": check_init}[ctx.shard["part"]](case, ctx)


def make_sampler(case, psi, n):
    import jax
    import jVMC
    if case.get("mc"):
        return jVMC.sampler.MCSampler(psi, (n,), jax.random.PRNGKey(case["seed"]), updateProposer=jVMC.sampler.propose_spin_flip, numChains=2, sweepSteps=n, numSamples=11, thermalizationSweeps=3, mu=case["mu"])
    return jVMC.sampler.ExactSampler(psi, (n,))


def check_measure(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC.operator as op
    from jVMC.util import measure
    from lib import opmodel, vmc
    n = case["n"]
    with ctx.sut("setup"):
        P = vmc.Problem(case["net"], n, [["S", [["o", "Sx", 0]]]], case["seed"], ctx.shard["devices"])
        smp = make_sampler(case, P.psi, n)
        rec = vmc.spy(smp, ctx)
        obs, mats = {}, {}
        for i, (k, opts, args) in enumerate(case["obs"]):
            ops = []
            for terms in opts:
                H = op.BranchFreeOperator()
                for t in terms:
                    H.add(opmodel.build_id(t, op, jnp, 2))
                ops.append(H)
            # every operator of a list has its own arguments (none: the operator itself is listed)
            argl = args if k == "mixed" else [args if k == "args" else []] * len(ops)
            obs["o%d" % i] = ops[0] if k == "single" else (ops if k == "list" else (tuple(ops) if k == "tuple" else [o if len(a) == 0 else (o,) + tuple(a) for o, a in zip(ops, argl)]))
            P_terms = P.terms
            mats["o%d" % i] = []
            for terms, a in zip(opts, argl):
                P.terms = terms
                mats["o%d" % i].append(P.matrix(*a))
            P.terms = P_terms
    with ctx.sut("measure"):
        res = measure(obs, P.psi, smp) if case["N"] is None else measure(obs, P.psi, smp, numSamples=case["N"])
    l, _ = P.dense(P.p0)
    ctx.expect(len(rec) == 1, lambda: "%d samples drawn for one measurement" % len(rec))
    ix, w = vmc.gathered(ctx, *rec[-1])
    if not case["mc"]:
        ctx.close(np.bincount(ix, weights=w, minlength=2**n), P.probs(l), "distribution used", rtol=1e-8)
    else:
        N = case["N"] or 11
        ctx.expect(N <= len(ix) < N + 2 * ctx.shard["devices"] * ctx.size, lambda: "%d samples used instead of %d" % (len(ix), N))
    ctx.expect(set(res) == set(obs), lambda: "keys %s" % list(res))
    nt = False
    for k in obs:
        if not ctx.expect(set(res[k]) >= {"mean", "variance", "MC_error"}, lambda: "entries %s" % list(res[k])):
            continue
        E = [P.eloc(A, l)[ix] for A in mats[k]]
        m = np.array([w @ e for e in E])
        v = np.array([w @ np.abs(e - a)**2 for e, a in zip(E, m)])
        sc = 1 + max(np.abs(e).max() for e in E)
        ctx.close(res[k]["mean"], m.real, "mean of " + k, rtol=1e-8, atol=1e-9 * sc)
        ctx.close(res[k]["variance"], v, "variance of " + k, rtol=1e-7, atol=1e-9 * sc**2)
        ctx.close(res[k]["MC_error"], np.sqrt(v / len(ix)) if case["mc"] else np.zeros(len(v)), "error of " + k, rtol=1e-5, atol=1e-6 * sc)
        nt = nt or v.max() > 1e-6
    return nt, ["mc" if case["mc"] else "exact"] + [o[0] for o in case["obs"]]


def check_gs(case, ctx):
    import contextlib
    import io
    import os
    import h5py
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    from jVMC.util import OutputManager, ground_state_search
    from lib import vmc
    from lib.harness import scratch
    from props.c16 import solve_ref
    n = case["n"]
    terms = [["scal", ["n", case["field"], 0.0], ["T", [["o", "Sx", i]]]] for i in range(n)] + [["scal", ["n", case["zz"], 0.0], ["T", [["o", "Sz", i], ["o", "Sz", (i + 1) % n]]]] for i in range(n)]
    cut = 1e-4
    with ctx.sut("setup"):
        P = vmc.Problem(case["net"], n, terms, case["seed"], ctx.shard["devices"])
        smp = make_sampler({}, P.psi, n)
        eq = jVMC.util.TDVP(smp, rhsPrefactor=1.0, makeReal="real", pinvTol=0.0, pinvCutoff=cut, diagonalShift=case["shift"]) if case["eq"] == "TDVP" else jVMC.util.MinSR(smp, pinvTol=1e-6)
    A = P.matrix()
    theta, shift = P.p0.copy(), case["shift"]
    path = os.path.join(scratch(), "gs.h5")
    if ctx.rank == 0 and os.path.exists(path):
        os.unlink(path)
    if ctx.comm is not None:
        ctx.comm.barrier()
    edge = False
    runs = 2 if case["twice"] else 1
    energies = []
    for r in range(runs):
        # reference trajectory
        traj, vars_, ens = [theta], [], []
        for k in range(case["steps"]):
            l, O = P.dense(theta)
            w = P.probs(l)
            dO, dE, S0, C, var = vmc.stat_terms(O, P.eloc(A, l), w)
            vars_.append(var)
            ens.append(float((w @ P.eloc(A, l)).real))
            if case["eq"] == "TDVP":
                S = S0.real
                S = S + np.diag(shift * 0.95**k * np.diag(S)) if shift * 0.95**k > 1e-10 else S
                u, _ = solve_ref(S, -C.real, 0.0, cut)
            else:
                R = np.sqrt(w)[:, None] * dO
                R = np.concatenate([R.real, R.imag])
                e2, V2 = np.linalg.eigh(R @ R.T)
                rel = e2 / e2[-1]
                edge = edge or bool(np.any((rel > 1e-7) & (rel < 1e-5)))
                k2 = rel > 1e-6
                b = np.sqrt(w) * dE
                u = -R.T @ (V2[:, k2] @ ((V2[:, k2].T @ np.concatenate([b.real, b.imag])) / e2[k2]))
            theta = theta + case["size"] * u
            traj.append(theta)
        vtol, want = 1e-10, case["steps"]
        if case["stop"] is not None and case["stop"] < case["steps"] and vars_[case["stop"]] * 1.001 < 0.9:
            vtol = vars_[case["stop"]] * 1.001
        for k, v in enumerate(vars_):
            if v <= vtol:
                want = k + 1
                break
        if any(abs(v - vtol) < 1e-5 * vtol and vtol > 1e-9 for v in vars_) or edge or not np.all(np.isfinite(traj[-1])) or np.abs(traj[-1]).max() > 50 or min(vars_) < 1e-9:
            return False, ["undecided"]
        theta = traj[want]
        kw = {}
        out = None
        if case["outp"]:
            with ctx.sut("OutputManager"):
                out = OutputManager(path, group="run%d" % r, append=r > 0)
            kw["outp"] = out
        if case["obs"]:
            kw["observables"] = {"energy": P.H}
        with ctx.sut("ground_state_search"), contextlib.redirect_stdout(io.StringIO()):
            ground_state_search(P.psi, P.H, eq, smp, numSteps=case["steps"], varianceTol=vtol, stepSize=case["size"], **kw)
        ctx.close(P.psi.get_parameters(), theta, "run %d: parameters after %d steps" % (r, want), rtol=1e-5, atol=1e-6)
        with ctx.sut("energy"):
            ctx.close(float(eq.get_energy_mean()), ens[want - 1], "run %d: energy of the last step" % r, rtol=1e-6, atol=1e-6)
            ctx.close(float(eq.get_energy_variance()), vars_[want - 1], "run %d: variance of the last step" % r, rtol=1e-5, atol=1e-6)
        shift *= 0.95**want
        if case["outp"] and case["obs"]:
            if ctx.comm is not None:
                ctx.comm.barrier()
            with h5py.File(path, "r") as f:
                g = f["run%d/observables" % r]
                tt, ee = g["times"][...], g["energy/mean"][...]
            ref = []
            for th in traj[:want + 1]:
                l, _ = P.dense(th)
                ref.append([(P.probs(l) @ P.eloc(A, l)).real])
            ctx.close(tt, np.arange(want + 1.0), "times of the recorded observables", rtol=0, atol=0)
            ctx.close(ee, np.array(ref), "recorded energies", rtol=1e-6, atol=1e-6)
            if ctx.comm is not None:
                ctx.comm.barrier()
    return case["steps"] > 1, [case["eq"], case["net"], "stopped" if want < case["steps"] else "all steps", "outp" if case["outp"] else "silent"]


def check_init(case, ctx):
    import copy
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jVMC
    import jVMC.util.symmetries as sym
    from jVMC.nets.sym_wrapper import SymNet, avgFun_Coefficients_Exp, avgFun_Coefficients_Sep
    from jVMC.util.util import init_net
    from lib import netgen, nets
    from lib.harness import rng
    dims, dev = tuple(case["dims"]), ctx.shard["devices"]
    cls = {"RBM": jVMC.nets.RBM, "CpxRBM": jVMC.nets.CpxRBM, "FFN": jVMC.nets.FFN, "CNN": jVMC.nets.CNN, "CpxCNN": jVMC.nets.CpxCNN, "RNN": jVMC.nets.RNN1DGeneral, "RNN2D": jVMC.nets.RNN2DGeneral}
    tup = lambda p: {k: (tuple(v) if isinstance(v, list) and k != "actFun" else v) for k, v in p.items()}
    descs, mods = {}, []
    gen = case["net1"][0].startswith("RNN")
    # real and complex parameters cannot be mixed; the phase network is no generator
    if case["net2"] is not None and (case["net2"][0].startswith("RNN") or case["net1"][0].startswith("Cpx") != case["net2"][0].startswith("Cpx")):
        case["net2"] = case["net1"] if not gen else (NETS_2D[0] if len(dims) == 2 else NETS_1D[0])
    names = ["net1"] + (["net2"] if case["net2"] else [])
    cpx = any(case[k][0].startswith("Cpx") for k in names)
    for k in names:
        par = tup(case[k][1])
        if case[k][0] == "RNN":
            par["L"] = dims[0]
        if case[k][0] == "RNN2D":
            par["L"] = dims[0]
        descs[k] = {"type": case[k][0], "parameters": par}
        hp = dict(par)
        if "actFun" in hp:
            hp["actFun"] = netgen.acts(hp["actFun"]) if isinstance(hp["actFun"], list) else netgen.acts([hp["actFun"]])[0]
        mods.append(cls[case[k][0]](**hp))
    descr = dict(descs, batch_size=case["batch"])
    facs = {}
    for s in case["sym"]:
        descr[s] = True
    order = [s for s in ("translation", "rotation", "reflection", "spinflip") if s in case["sym"]]
    if case["fac"] and cpx and case["sym"] and not (dims[0] % 2 and "translation" in case["sym"]):
        descr[case["sym"][0] + "_factor"] = -1
        facs[case["sym"][0] + "_factor"] = -1
    snapshot = copy.deepcopy(descr)
    with ctx.sut("init_net"):
        psi = init_net(descr, dims, seed=case["seed"])
    ctx.expect(repr(snapshot) == repr(descr), lambda: "init_net changes the description from %r to %r" % (snapshot, descr))
    with ctx.sut("init_net with the same description"):
        psi2 = init_net(descr, dims, seed=case["seed"])
    orbit = sym.get_orbit_2D_square(dims[0], *order, **facs) if len(dims) == 2 else sym.get_orbit_1D(dims[0], *order, **facs)
    model = mods[0] if len(mods) == 1 else jVMC.nets.two_nets_wrapper.TwoNets(tuple(mods))
    ref = jVMC.vqs.NQS(SymNet(orbit=orbit, net=model, avgFun=avgFun_Coefficients_Sep if gen else avgFun_Coefficients_Exp), batchSize=case["batch"], seed=case["seed"])
    n = int(np.prod(dims))
    s = rng(case["seed"], 5).integers(0, 2, size=(dev, 5) + dims).astype(np.int32)
    sj = jnp.array(s)
    ref(sj[:, :1])
    with ctx.sut("evaluation"):
        ctx.close(psi.get_parameters(), ref.get_parameters(), "initial parameters", rtol=1e-12)
        ctx.close(psi2.get_parameters(), ref.get_parameters(), "initial parameters of the second network", rtol=1e-12)
        th = np.asarray(psi.get_parameters())
        th = jnp.array(th + 0.3 * rng(case["seed"], 6).standard_normal(th.shape))
        for p in (psi, psi2, ref):
            p.set_parameters(th)
        want = np.exp(np.asarray(ref(sj)))
        ctx.close(np.exp(np.asarray(psi(sj))), want, "amplitudes", rtol=1e-9)
        ctx.close(np.exp(np.asarray(psi2(sj))), want, "amplitudes of the second network", rtol=1e-9)
        # symmetry of the result
        if "translation" in order and not facs:
            ctx.close(np.exp(np.asarray(psi(jnp.array(np.roll(s, 1, axis=2))))), want, "amplitudes of translated configurations", rtol=1e-8)
        if "spinflip" in order and not facs:
            ctx.close(np.exp(np.asarray(psi(jnp.array(1 - s)))), want, "amplitudes of flipped configurations", rtol=1e-8)
        if "reflection" in order and not facs:
            ctx.close(np.exp(np.asarray(psi(jnp.array(s[:, :, ::-1])))), want, "amplitudes of reflected configurations", rtol=1e-8)
    ctx.expect(psi.is_generator == gen, "generator property")
    if gen and not order:
        with ctx.sut("direct sampling"):
            c, _, p = jVMC.sampler.MCSampler(psi, dims, case["seed"], numSamples=4).sample()
        ctx.expect(np.asarray(c).shape[2:] == dims, "shape of directly sampled configurations")
    return len(mods) > 1 or len(order) > 0, [case["net1"][0], "two" if len(mods) > 1 else "one"] + order + (["factor"] if facs else [])
