"""C21: complete simulations (unitary, imaginary-time and Lindblad dynamics) follow the exact equation of motion."""
ID = "C21"
RULE = ("A case is a complete simulation: ansatz, (time-dependent) Hamiltonian or Lindbladian, exact sampler, TDVP equation, integrator, number of steps and time. For complete ansaetze the final state is compared "
        "with the exact solution of the Schroedinger, imaginary-time or Lindblad equation; for a restricted Boltzmann machine real-time evolution must conserve the energy and imaginary-time evolution must lower it. "
        "Non-trivial: the exact state changes noticeably during the evolution.")
ASSUMPTIONS = ["the deviation allowed is three times that of a dense Heun integration with the same steps (plus 1e-6)"]


def shards(tier):
    q = tier == "quick"
    e = 3 if q else 40
    return [{"part": "exact", "devices": 1, "examples": e + 1}, {"part": "exact", "devices": 3, "examples": e}, {"part": "exact", "devices": 1, "mpi": 2, "examples": e},
            {"part": "povm", "devices": 1, "examples": e + 1}, {"part": "povm", "devices": 3, "examples": e}, {"part": "povm", "devices": 1, "mpi": 2, "examples": e},
            {"part": "rbm", "devices": 1, "examples": e}, {"part": "rbm", "devices": 2, "examples": e}]


def strategy(shard):
    from hypothesis import strategies as st
    part = shard["part"]

    @st.composite
    def gen(draw):
        n = draw(st.sampled_from([2, 2, 3])) if part != "povm" else draw(st.sampled_from([1, 2]))
        c = {"n": n, "seed": draw(st.integers(0, 10**6)), "stepper": draw(st.sampled_from(["AdaptiveHeun", "Heun"])), "T": draw(st.sampled_from([0.05, 0.15, 0.25])), "t0": draw(st.sampled_from([0.0, 1.0]))}
        if part == "povm":
            one = st.tuples(st.sampled_from(["X", "Y", "Z", "decayup", "decaydown", "dephasing", "cu", "cd"]), st.integers(0, n - 1).map(lambda i: [i]), st.sampled_from([-1.0, 0.5, 1.0, 2.0]))
            two = st.tuples(st.sampled_from(["XX", "YY", "ZZ", "cu2", "cd2"]), st.sampled_from([[0, 1], [1, 0]]), st.sampled_from([0.5, -1.0, 1.5]))
            terms = draw(st.lists(st.one_of(one, two) if n > 1 else one, min_size=1, max_size=4))
            c["terms"] = [[a, b, (abs(s) if a in ("decayup", "decaydown", "dephasing", "cd", "cd2") else s)] for a, b, s in terms]
            c.update(theta=draw(st.sampled_from([0.0, 0.7])), phi=draw(st.sampled_from([0.0, -0.4])))
            return c
        c["net"] = draw(st.sampled_from(["cpx", "reim"] if part == "exact" else ["CpxRBM"]))
        string = st.lists(st.tuples(st.sampled_from(["Sx", "Sy", "Sz"]), st.integers(0, n - 1)), min_size=1, max_size=2, unique_by=lambda z: z[1])
        term = st.tuples(string, st.sampled_from([-1.0, 0.5, 0.8]), st.booleans())
        c["strings"] = [[[list(o) for o in s], a, f] for s, a, f in draw(st.lists(term, min_size=1, max_size=4))]
        c["mode"] = draw(st.sampled_from(["real", "real", "imag"]))
        c["q"] = draw(st.sampled_from(["real", "imag"]))
        return c
    return gen()


def corpus(shard):
    b = {"n": 2, "seed": 1, "stepper": "AdaptiveHeun", "T": 0.15, "t0": 1.0}
    if shard["part"] == "povm":
        return [dict(b, terms=[["X", [0], 1.0], ["ZZ", [1, 0], 1.5], ["decaydown", [1], 0.5], ["cu2", [1, 0], 0.5], ["cd", [0], 1.0]], theta=0.7, phi=-0.4)]
    s = [[[["Sx", 0]], -1.0, True], [[["Sz", 0], ["Sz", 1]], 0.8, False], [[["Sy", 1]], 0.5, True]]
    b = dict(b, net="cpx" if shard["part"] == "exact" else "CpxRBM", strings=s, mode="real", q="imag")
    return [b, dict(b, stepper="Heun", T=0.05)]


def evolve(case, stepper_tol, tdvp, psi, H, extra=None):
    """the documented propagation loop; returns final time and number of steps"""
    import jVMC.util.stepper as stp
    s = stp.AdaptiveHeun(timeStep=5e-3, tol=stepper_tol, maxStep=0.05) if case["stepper"] == "AdaptiveHeun" else stp.Heun(timeStep=5e-3)
    t, n = case["t0"], 0
    dts = []
    while t < case["t0"] + case["T"] - 1e-9 and n < 60:
        dp, dt = s.step(t, tdvp, psi.get_parameters(), hamiltonian=H, psi=psi, numSamples=None)
        psi.set_parameters(dp)
        dts.append(float(dt))
        t += float(dt)
        n += 1
    return t, n, dts


def heun_path(f, y, t, dts, dist):
    """Heun integration with the given steps; returns the sum of the local errors (full step against two half steps), which
    bounds the integration error to be expected without cancellations between steps"""
    def one(y, t, dt):
        k0 = f(t, y)
        k1 = f(t + dt, y + dt * k0)
        return y + 0.5 * dt * (k0 + k1)
    err = 0.0
    for dt in dts:
        z = one(one(y, t, 0.5 * dt), t + 0.5 * dt, 0.5 * dt)
        y = one(y, t, dt)
        err += dist(y, z)
        t += dt
    return y, err


def distance(a, b):
    """distance of two pure states (global phase and norm removed)"""
    import numpy as np
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    z = np.vdot(a, b)
    return float(np.linalg.norm(b - a * z / abs(z)))


def check(case, ctx):
    if ctx.shard["part"] == "povm":
        return check_povm(case, ctx)
    import jax.numpy as jnp
    import numpy as np
    from scipy.integrate import solve_ivp
    import jVMC
    from jVMC.util import measure
    from lib import vmc
    n = case["n"]
    rbm = ctx.shard["part"] == "rbm"
    terms = []
    for s, a, f in case["strings"]:
        T = ["T", [["o", o, i] for o, i in s]]
        terms.append(["scal", (["f", "lin", [a, 0.5]] if f and not rbm else ["n", a, 0.0]), T])
    with ctx.sut("setup"):
        P = vmc.Problem(case["net"], n, terms, case["seed"], ctx.shard["devices"], scale=0.2)
        smp = jVMC.sampler.ExactSampler(P.psi, (n,))
        x = 1j if case["mode"] == "real" else 1.0
        q = case["q"] if case["net"] != "reim" or True else "real"
        tdvp = jVMC.util.TDVP(smp, rhsPrefactor=x, makeReal=q, pinvTol=0.0, pinvCutoff=1e-6)
    l0, _ = P.dense(P.p0)
    psi0 = np.exp(l0 - l0.real.max())
    psi0 /= np.linalg.norm(psi0)
    tol = 1e-5
    A0 = P.matrix(case["t0"])

    def rhs(t, v):
        return -x * (P.matrix(t) @ v)
    with ctx.sut("evolution"):
        t, steps, dts = evolve(case, tol, tdvp, P.psi, P.H)
        m = measure({"E": [(P.H, t)]}, P.psi, smp)
    l, _ = P.dense(np.asarray(P.psi.get_parameters()))
    ctx.expect(np.all(np.isfinite(l)), "amplitudes are not finite after the evolution")
    v = np.exp(l - l.real.max())
    v /= np.linalg.norm(v)
    A1 = P.matrix(t)
    sc = 1 + np.abs(A1).sum()
    ctx.close(np.asarray(m["E"]["mean"])[0], np.vdot(v, A1 @ v).real, "measured energy", rtol=1e-7, atol=1e-8 * sc)
    E0 = np.vdot(psi0, A0 @ psi0).real
    if not rbm:
        w = solve_ivp(rhs, (case["t0"], t), psi0, rtol=1e-10, atol=1e-12, method="DOP853").y[:, -1]
        w /= np.linalg.norm(w)
        moved = 1 - abs(np.vdot(psi0, w))**2
        # error of a Heun integration of the equation of motion of the log-amplitudes with the same steps
        th, ref = heun_path(lambda t_, th_: -x * (P.matrix(t_) @ np.exp(th_)) / np.exp(th_), np.log(psi0), case["t0"], dts, lambda a, b: distance(np.exp(a), np.exp(b)))
        ref = max(2 * ref, distance(w, np.exp(th - th.real.max())))
        got = distance(w, v)
        ctx.expect(got <= 3 * ref + 1e-6, lambda: "distance %g from the exact solution after %d steps, integration error %g (the exact state moved by %g)" % (got, steps, ref, np.sqrt(moved)))
        return moved > 1e-4, [case["mode"], case["net"], case["stepper"], "q_" + q]
    E1 = np.vdot(v, A1 @ v).real
    if case["mode"] == "real":
        ctx.expect(abs(E1 - E0) <= 2e-3 * sc, lambda: "the energy changes from %g to %g during unitary evolution" % (E0, E1))
    else:
        ctx.expect(E1 <= E0 + 1e-6 * sc, lambda: "imaginary-time evolution raises the energy from %g to %g" % (E0, E1))
    return np.abs(l - l0).max() > 1e-3, [case["mode"], "rbm", case["stepper"]]


def check_povm(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    from scipy.linalg import expm
    import jVMC
    import jVMC.operator as op
    from jVMC.operator.povm import matrix_to_povm, measure_povm
    from lib import nets
    from lib.harness import rng
    from props.c04 import paulis, randm, ref_M, rho_
    n, dev = case["n"], ctx.shard["devices"]
    r = rng(case["seed"], 5)
    X = paulis()
    loc = {"X": X[0], "Y": X[1], "Z": X[2], "XX": np.kron(X[0], X[0]), "YY": np.kron(X[1], X[1]), "ZZ": np.kron(X[2], X[2]), "decayup": (X[0] + 1j * X[1]) / 2, "decaydown": (X[0] - 1j * X[1]) / 2, "dephasing": X[2],
           "cu": 0.5 * randm(r, 2, True), "cd": 0.5 * randm(r, 2, False), "cu2": 0.5 * randm(r, 4, True), "cd2": 0.3 * randm(r, 4, False)}
    diss = ("decayup", "decaydown", "dephasing", "cd", "cd2")
    d = 2**n
    with ctx.sut("setup"):
        povm = op.POVM({"dim": "1D", "L": n}, theta=case["theta"], phi=case["phi"])
        M = np.array(povm.M)
        M2 = np.array([np.kron(M[i], M[j]) for i in range(4) for j in range(4)])
        T2i = np.linalg.inv(np.einsum("aij,bji->ab", M2, M2).real)
        for k in ("cu", "cd"):
            f = povm.add_unitary if k == "cu" else povm.add_dissipator
            f(k, matrix_to_povm(jnp.array(loc[k]), povm.M, povm.T_inv, mode="uni" if k == "cu" else "dis"))
            f(k + "2", matrix_to_povm(jnp.array(loc[k + "2"]), jnp.array(M2), jnp.array(T2i), mode="uni" if k == "cu" else "dis"))
        L = op.POVMOperator(povm)
        for name, sites, a in case["terms"]:
            L.add({"name": name, "strength": a, "sites": tuple(sites)})
    # density matrix equation (row-major vectorisation: A rho B -> kron(A, B^T)); site 0 is the leftmost factor
    sup = np.zeros((d * d, d * d), dtype=complex)
    I = np.eye(d)
    for name, sites, a in case["terms"]:
        A = loc[name]
        if len(sites) == 1:
            A = A if n == 1 else (np.kron(A, np.eye(2)) if sites[0] == 0 else np.kron(np.eye(2), A))
        elif sites == [1, 0]:
            S = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
            A = S @ A @ S
        if name in diss:
            Ad = A.conj().T
            sup += a * (np.kron(A, A.conj()) - 0.5 * (np.kron(Ad @ A, I) + np.kron(I, (Ad @ A).T)))
        else:
            sup += -1j * a * (np.kron(A, I) - np.kron(I, A.T))
    R = ref_M(case["theta"], case["phi"])
    els = R if n == 1 else np.array([np.kron(R[i], R[j]) for i in range(4) for j in range(4)])       # index a0*4 + a1
    rho0 = 0.6 * np.eye(d) / d + 0.4 * rho_(r, d)
    prob = lambda rho: np.einsum("ij,aji->a", rho, els).real
    B = nets.basis(n, 4)
    pos = B[:, 0] if n == 1 else B[:, 0] * 4 + B[:, 1]
    p0 = prob(rho0)[pos]
    net = nets.Table(re=tuple(np.log(p0).tolist()), im=tuple([0.0] * 4**n), ldim=4, kind="real")
    with ctx.sut("setup"):
        psi = jVMC.vqs.NQS(net, batchSize=100)
        psi(jnp.zeros((dev, 1, n), dtype=np.int32))
        smp = jVMC.sampler.ExactSampler(psi, (n,), lDim=4, logProbFactor=1)
        tdvp = jVMC.util.TDVP(smp, rhsPrefactor=-1.0, makeReal="real", pinvTol=0.0, pinvCutoff=1e-8)
    with ctx.sut("evolution"):
        t, steps, dts = evolve(case, 1e-5, tdvp, psi, L)
        res = measure_povm(povm, smp)
        lp = np.asarray(psi.get_parameters())
    rho = (expm(sup * (t - case["t0"])) @ rho0.reshape(-1)).reshape(d, d)
    want = prob(rho)[pos]
    got = np.exp(lp)
    got = got / got.sum()
    moved = np.abs(want - p0).max()
    # the same integration of the log-probabilities with the dense equation, to know the integration error
    Lm = np.zeros((d * d, d * d))
    Tinv = np.linalg.inv(np.einsum("aij,bji->ab", els, els).real)
    dual = np.einsum("ab,bij->aij", Tinv, els)
    for b_ in range(d * d):
        Lm[:, b_] = prob((sup @ dual[b_].reshape(-1)).reshape(d, d))
    Lm = Lm[np.ix_(pos, pos)]
    ly, ref = heun_path(lambda t_, y_: (Lm @ np.exp(y_)) / np.exp(y_), np.log(p0), case["t0"], dts, lambda a, b: np.abs(np.exp(a) - np.exp(b)).max())
    pr = np.exp(ly)
    pr /= pr.sum()
    ref = max(2 * ref, np.abs(pr - want).max())
    ctx.expect(np.abs(got - want).max() <= 3 * ref + 1e-7, lambda: "outcome probabilities deviate by %g from the density matrix equation after %d steps, integration error %g (they changed by %g)" % (np.abs(got - want).max(), steps, ref, moved))
    for k, nm in enumerate("XYZ"):
        O = X[k] if n == 1 else (np.kron(X[k], np.eye(2)) + np.kron(np.eye(2), X[k])) / 2
        ctx.close(np.asarray(res[nm]["mean"]), np.trace(rho @ O).real, "observable " + nm, rtol=0, atol=30 * ref + 1e-6)
    return moved > 1e-4, ["lindblad", case["stepper"]] + ["diss" if t_[0] in diss else "unitary" for t_ in case["terms"][:1]]
