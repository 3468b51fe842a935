"""C04: the POVM representation reproduces density-matrix quantum mechanics for every angle and operator."""
ID = "C04"
RULE = ("A case is a pair of Bloch-sphere angles (over several periods), an arbitrary matrix on 1 or 2 qubits (Hermitian for "
        "generators/observables, arbitrary complex for dissipators), a random mixed state and a conversion mode, or a history of "
        "registrations of named operators. Oracle: probabilities Tr(rho M) of the density-matrix equation of motion. "
        "Non-trivial: generic angles/matrix (not the default POVM with a single Pauli matrix).")


def shards(tier):
    q = tier == "quick"
    return [{"part": "maps", "devices": 1, "examples": 250 if q else 2500} for _ in range(5)] + \
        [{"part": "class", "devices": d, "examples": 40 if q else 300} for d in (1, 2, 1)]


def angles(st):
    return st.one_of(st.just(0.0), st.floats(-7, 7, allow_nan=False, width=32),
                     st.sampled_from([3.141592653589793, 1.5707963267948966, -1.5707963267948966, 0.7853981633974483]))


def strategy(shard):
    from hypothesis import strategies as st

    @st.composite
    def maps(draw):
        return {"theta": draw(angles(st)), "phi": draw(angles(st)), "seed": draw(st.integers(0, 10**6)),
                "n": draw(st.sampled_from([1, 1, 2])),
                "mode": draw(st.sampled_from(["unitary", "uni", "dissipative", "dis", "observable", "obs", "imaginary", "imag", "bogus"]))}

    @st.composite
    def cls(draw):
        names = ["A", "B", "X", "decayup", "ZZ", "C"]
        hist = draw(st.lists(st.tuples(st.sampled_from(["unitary", "dissipator", "imaginary"]), st.sampled_from(names),
                                       st.integers(0, 99)), min_size=0, max_size=6))
        return {"theta": draw(angles(st)), "phi": draw(angles(st)), "hist": [list(h) for h in hist],
                "dim": draw(st.sampled_from(["1D", "2D"])), "L": draw(st.integers(1, 4)), "bad": draw(st.sampled_from(["", "SIC2", "sic"]))}
    return maps() if shard["part"] == "maps" else cls()


def corpus(shard):
    if shard["part"] == "maps":
        return [{"theta": t, "phi": p, "seed": 3, "n": n, "mode": m} for t, p in ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (2.0, -1.0))
                for n in (1, 2) for m in ("uni", "dis", "obs", "imag")]
    return [{"theta": 0.4, "phi": 1.1, "hist": [["unitary", "A", 1], ["dissipator", "A", 2], ["imaginary", "A", 3], ["imaginary", "C", 4],
                                               ["unitary", "C", 5], ["dissipator", "B", 6], ["dissipator", "B", 7]], "dim": "1D", "L": 2, "bad": "x"}]


def paulis():
    import numpy as np
    return np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]], dtype=complex)


def ref_M(theta, phi):
    """tetrahedron, rotated about y by theta and then about z by phi"""
    import numpy as np
    s = np.array([[0, 0, 1.0], [2 * np.sqrt(2) / 3, 0, -1 / 3], [-np.sqrt(2) / 3, np.sqrt(2 / 3), -1 / 3], [-np.sqrt(2) / 3, -np.sqrt(2 / 3), -1 / 3]])
    Ry = np.array([[np.cos(theta), 0, np.sin(theta)], [0, 1, 0], [-np.sin(theta), 0, np.cos(theta)]])
    Rz = np.array([[np.cos(phi), -np.sin(phi), 0], [np.sin(phi), np.cos(phi), 0], [0, 0, 1]])
    v = (Rz @ Ry @ s.T).T
    return np.array([(np.eye(2) + np.einsum("k,kij->ij", x, paulis())) / 4 for x in v])


def check_M(ctx, M, theta, phi):
    import numpy as np
    ctx.close(M.sum(axis=0), np.eye(2), "sum of POVM elements", atol=1e-10)
    for a in range(4):
        ctx.close(M[a], M[a].conj().T, "hermiticity of M[%d]" % a, atol=1e-12)
        ctx.expect(np.min(np.linalg.eigvalsh((M[a] + M[a].conj().T) / 2)) > -1e-12, "M[%d] is not positive" % a)
    T = np.einsum("aij,bji->ab", M, M)
    ctx.close(T, (np.ones((4, 4)) + 2 * np.eye(4)) / 12, "overlap matrix (informational completeness)", atol=1e-10)
    ctx.close(M, ref_M(theta, phi), "POVM elements for angles %s, %s" % (theta, phi), atol=1e-9)


def randm(r, d, hermitian):
    import numpy as np
    A = np.round(r.standard_normal((d, d)), 3) + 1j * np.round(r.standard_normal((d, d)), 3)
    return (A + A.conj().T) / 2 if hermitian else A


def rho_(r, d):
    import numpy as np
    A = r.standard_normal((d, d)) + 1j * r.standard_normal((d, d))
    R = A @ A.conj().T
    return R / np.trace(R)


def check(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC.operator.povm as pv
    from lib.harness import rng

    th, ph = case["theta"], case["phi"]
    if "mode" in case:
        with ctx.sut("get_M"):
            M1 = np.array(pv.get_M(th, ph, "SIC"))
        check_M(ctx, M1, th, ph)
        r = rng(case["seed"], 1)
        n, mode = case["n"], case["mode"]
        d = 2 ** n
        M = M1 if n == 1 else np.array([np.kron(M1[i], M1[j]) for i in range(4) for j in range(4)])
        T = np.einsum("aij,bji->ab", M, M).real
        Ti = np.linalg.inv(T)
        if mode == "bogus":
            with ctx.raises(ValueError, "unknown mode"):
                pv.matrix_to_povm(jnp.array(randm(r, d, True)), jnp.array(M), jnp.array(Ti), mode="bogus")
            return False, ["unknown mode"]
        A = randm(r, d, mode[:3] != "dis")
        with ctx.sut("matrix_to_povm"):
            Om = np.array(pv.matrix_to_povm(jnp.array(A), jnp.array(M), jnp.array(Ti), mode=mode))
        for _ in range(2):
            rho = rho_(r, d)
            prob = lambda X: np.einsum("ij,aji->a", X, M).real
            P = prob(rho)
            if mode[:3] == "uni":
                want = prob(-1j * (A @ rho - rho @ A))
            elif mode[:3] == "dis":
                Ad = A.conj().T
                want = prob(A @ rho @ Ad - 0.5 * (Ad @ A @ rho + rho @ Ad @ A))
            elif mode[:3] == "ima":
                want = prob(-(A @ rho + rho @ A))
            else:
                want = np.trace(rho @ A).real
            ctx.close(Om @ P, want, "%s map on %d qubit(s)" % (mode, n), rtol=1e-8, atol=1e-8)
        if mode[:3] in ("uni", "dis"):
            ctx.close(Om.sum(axis=0), np.zeros(4 ** n), "%s: conservation of probability" % mode, atol=1e-8)
        return True, [mode[:3], "%d qubits" % n]

    with ctx.sut("POVM()"):
        povm = pv.POVM({"dim": case["dim"], "L": case["L"]}, theta=th, phi=ph)
        M = np.array(povm.M)
    check_M(ctx, M, th, ph)
    if case["bad"]:
        with ctx.raises(ValueError, "unknown POVM name"):
            pv.POVM({"dim": case["dim"], "L": case["L"]}, theta=th, phi=ph, name=case["bad"])
    ctx.close(povm.T, np.einsum("aij,bji->ab", M, M), "T", atol=1e-12)
    ctx.close(np.array(povm.T_inv) @ np.array(povm.T), np.eye(4), "T_inv T", atol=1e-8)
    P = paulis()
    r = rng(7)
    M2 = np.array([np.kron(M[i], M[j]) for i in range(4) for j in range(4)])

    def unit(A, MM, rho):
        return np.einsum("ij,aji->a", -1j * (A @ rho - rho @ A), MM).real

    def diss(A, rho):
        Ad = A.conj().T
        return np.einsum("ij,aji->a", A @ rho @ Ad - 0.5 * (Ad @ A @ rho + rho @ Ad @ A), M).real
    rho, rho2 = rho_(r, 2), rho_(r, 4)
    p, p2 = np.einsum("ij,aji->a", rho, M).real, np.einsum("ij,aji->a", rho2, M2).real
    with ctx.sut("operators"):
        ops = {k: np.array(v) for k, v in povm.operators.items()}
        obs = {k: np.array(v) for k, v in povm.observables.items()}
    for k, nm in enumerate("XYZ"):
        for need, where in ((nm, ops), (nm * 2, ops), (nm, obs)):
            if not ctx.expect(need in where, "operator %s missing" % need):
                return True, []
        ctx.close(ops[nm] @ p, unit(P[k], M, rho), "unitary " + nm, atol=1e-8)
        ctx.close(ops[nm * 2] @ p2, unit(np.kron(P[k], P[k]), M2, rho2), "unitary " + nm * 2, atol=1e-8)
        ctx.close(obs[nm] @ p, np.trace(rho @ P[k]).real, "observable " + nm, atol=1e-8)
    for nm, A in (("decayup", (P[0] + 1j * P[1]) / 2), ("decaydown", (P[0] - 1j * P[1]) / 2), ("dephasing", P[2])):
        ctx.close(ops[nm] @ p, diss(A, rho), "dissipator " + nm, atol=1e-8)
    states = {"z_up": [1, 0], "z_down": [0, 1], "x_up": [1, 1], "x_down": [1, -1], "y_up": [1, 1j], "y_down": [1, -1j]}
    for nm, v in states.items():
        v = np.array(v, dtype=complex)
        v /= np.linalg.norm(v)
        with ctx.sut("get_1_particle_distributions"):
            q = np.array(pv.get_1_particle_distributions(nm, povm))
        ctx.close(q, np.array([np.vdot(v, m @ v).real for m in M]), "1-particle distribution " + nm, atol=1e-9)
    with ctx.raises(ValueError, "unknown 1-particle state"):
        pv.get_1_particle_distributions("z_left", povm)
    # registration history: a name is accepted iff it is unused; a rejected registration changes nothing
    model = {k: v for k, v in ops.items()}
    for kind, name, v in case["hist"]:
        A = np.full((4, 4), float(v))
        f = {"unitary": povm.add_unitary, "dissipator": povm.add_dissipator, "imaginary": povm.add_imaginary}[kind]
        if name in model:
            with ctx.raises(ValueError, "registering used name %s as %s" % (name, kind)):
                f(name, jnp.array(A))
        else:
            with ctx.sut("add_" + kind):
                f(name, jnp.array(A))
            model[name] = A
        ctx.expect(set(povm.operators) == set(model), "names of registered operators %s, expected %s" % (sorted(povm.operators), sorted(model)))
        for k in model:
            ctx.close(np.array(povm.operators[k]), model[k], "operator %s after registrations" % k, atol=1e-12)
        d = {"unitary": povm.unitaries, "dissipator": povm.dissipators, "imaginary": povm.imaginaries}[kind]
        if name not in ops and any(h[1] == name and h[0] == kind for h in case["hist"]):
            first = next(h for h in case["hist"] if h[1] == name)
            if first[0] == kind:
                ctx.expect(name in d, "%s not registered as %s" % (name, kind))
    return (th != 0 or ph != 0), ["class", "history %d" % len(case["hist"])]
