"""C09: symmetry orbits are the full group, and symmetrised states transform with the chosen quantum numbers."""
ID = "C09"
RULE = ("A case is a lattice (1D L<=7, 2D LxL, L<=3, orbits also L=4), a subset of translation/reflection/rotation/spinflip with consistent quantum-number factors "
        "(decided by the model), a network, an averaging function, and configurations. Oracles: the group generated by breadth-first search with its characters; "
        "covariance Psi(g s) factor(g) = Psi(s) for every group element; a numpy symmetrisation of the bare network; translation invariance of periodic CNNs. "
        "Non-trivial: the group has more than one element and the network is not already invariant.")
ASSUMPTIONS = ["quantum-number factors form a one-dimensional representation", "factors different from 1 are used with complex networks (a real log-amplitude has no sign)",
               "spin flips are used with two-state configurations"]


def shards(tier):
    q = tier == "quick"
    return [{"part": "orbit", "devices": 1, "examples": 40 if q else 600}] + \
        [{"part": "cov", "devices": d, "examples": 14 if q else 200} for d in (1, 2, 3, 1, 1)] + \
        [{"part": "cnn", "devices": d, "examples": 12 if q else 160} for d in (1, 2)]


def strategy(shard):
    from hypothesis import strategies as st
    from lib import netgen

    @st.composite
    def sym(draw, big=False):
        dim = draw(st.sampled_from([1, 1, 2]))
        L = draw(st.integers(1, 10 if big else 5)) if dim == 1 else draw(st.integers(1, 5 if big else 3))
        names = ["translation", "reflection", "spinflip"] + (["rotation"] if dim == 2 else [])
        use = draw(st.lists(st.sampled_from(names), unique=True, min_size=0, max_size=len(names)))
        return {"dim": dim, "L": L, "use": use, "k": draw(st.integers(0, L)), "r": draw(st.sampled_from([1, -1])), "f": draw(st.sampled_from([1, -1])),
                "c": draw(st.sampled_from([0, 1, 2, 3])), "none": draw(st.booleans())}

    @st.composite
    def cov(draw):
        c = draw(sym())
        dim = c["dim"]
        allow = ["CpxRBM", "CpxRBMns", "FFN", "Two", "RBM"]
        c.update({"spec": draw(netgen.spec_strategy(st, dim, allow=allow, smooth=True)), "seed": draw(st.integers(0, 10**6)), "B": draw(st.integers(1, 4)),
                  "avg": draw(st.sampled_from(["exp", "exp", "exp", "log", "sep"])), "wrap": draw(st.booleans()), "ldim": draw(st.sampled_from([2, 2, 2, 4])),
                  "default": draw(st.booleans()), "off": draw(st.sampled_from([0.0, 0.0, 900.0, -900.0])),
                  "sub": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 63), min_size=1, max_size=5)))})
        return c

    @st.composite
    def cnn(draw):
        dim = draw(st.sampled_from([1, 1, 2]))
        shape = [draw(st.integers(1, 6))] if dim == 1 else [draw(st.integers(1, 3)), draw(st.integers(1, 4))]
        cpx = draw(st.booleans())
        sy = None
        if draw(st.integers(0, 2)) == 0:
            cpx, shape = True, [shape[0]] * dim
            sy = draw(st.lists(st.sampled_from(["translation", "reflection"] + (["rotation"] if dim == 2 else [])), unique=True, max_size=3))
        F = [draw(st.integers(1, 4)) for _ in shape]
        ch = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
        an = draw(st.lists(st.sampled_from(netgen.ACT_CPX if cpx else netgen.ACT_REAL), min_size=1, max_size=len(ch)))
        return {"shape": shape, "spec": ["CpxCNN" if cpx else "CNN", F, ch, [1] * dim, an, draw(st.booleans()), draw(st.booleans()), True], "seed": draw(st.integers(0, 10**6)), "sym": sy}
    return {"orbit": sym(big=True), "cov": cov(), "cnn": cnn()}[shard["part"]]


def corpus(shard):
    b = {"k": 1, "r": -1, "f": -1, "c": 2, "none": False}
    if shard["part"] == "orbit":
        return [dict(b, dim=1, L=4, use=["translation"]), dict(b, dim=1, L=6, use=["translation", "reflection", "spinflip"], k=3),
                dict(b, dim=2, L=3, use=["translation", "rotation", "reflection", "spinflip"], k=0), dict(b, dim=2, L=4, use=["translation", "rotation"], k=2),
                dict(b, dim=2, L=3, use=["rotation"], c=1), dict(b, dim=2, L=3, use=["reflection", "rotation"], c=2), dict(b, dim=2, L=4, use=["translation"], k=1)]
    if shard["part"] == "cov":
        v = {"spec": ["CpxRBMns", 2, True], "seed": 4, "B": 3, "avg": "exp", "wrap": False, "ldim": 2, "default": False}
        return [dict(b, dim=1, L=4, use=["translation"], **v), dict(b, dim=2, L=2, use=["translation", "rotation", "spinflip"], k=0, **v),
                dict(b, dim=1, L=4, use=["translation", "reflection"], k=0, **dict(v, avg="sep", wrap=True)),
                dict(b, dim=1, L=4, use=["translation", "reflection"], k=0, **dict(v, avg="log", ldim=4)),
                dict(b, dim=1, L=3, use=["translation"], **dict(v, off=-900.0)), dict(b, dim=1, L=4, use=["translation", "reflection"], **dict(v, avg="sep", off=900.0)),
                dict(b, dim=1, L=3, use=["translation"], **dict(v, avg="sep", off=-900.0))][shard["devices"] - 1::3]
    return [{"shape": [4], "spec": ["CpxCNN", [3], [2, 2], [1], ["poly6"], True, True, True], "seed": 3},
            {"shape": [5], "spec": ["CpxCNN", [3], [2], [1], ["square"], True, True, True], "seed": 5, "sym": ["reflection"]},
            {"shape": [3, 3], "spec": ["CpxCNN", [2, 2], [2], [1, 1], ["poly6"], True, False, True], "seed": 3, "sym": ["rotation", "reflection"]},
            {"shape": [3, 3], "spec": ["CNN", [2, 2], [2], [1, 1], ["elu"], True, True, True], "seed": 3}]


def factors(case):
    import numpy as np
    L = case["L"]
    return {"translation": np.exp(2j * np.pi * case["k"] / L) if case["k"] % L else 1.0, "reflection": float(case["r"]), "spinflip": float(case["f"]),
            "rotation": [1.0, 1j, -1.0, -1j][case["c"]]}


def group(case, fac):
    """{bytes of signed permutation matrix: (matrix, factor)} or None if the factors are inconsistent"""
    import numpy as np
    L, dim = case["L"], case["dim"]
    n = L**dim
    idx = np.arange(n).reshape((L,) * dim)
    gens = []

    def mat(m):
        o = np.zeros((n, n), dtype=int)
        o[np.arange(n), np.asarray(m).ravel()] = 1
        return o
    if "translation" in case["use"]:
        for ax in range(dim):
            gens.append((mat(np.roll(idx, 1, axis=ax)), fac["translation"]))
    if "reflection" in case["use"]:
        for ax in range(dim):
            gens.append((mat(np.flip(idx, axis=ax)), fac["reflection"]))
    if "rotation" in case["use"]:
        gens.append((mat(idx[::-1, :].T), fac["rotation"]))
    if "spinflip" in case["use"]:
        gens.append((-np.eye(n, dtype=int), fac["spinflip"]))
    e = np.eye(n, dtype=int)
    G = {e.tobytes(): (e, 1.0)}
    todo = [e]
    while todo:
        a = todo.pop()
        fa = G[a.tobytes()][1]
        for m, f in gens:
            b = a @ m
            k = b.tobytes()
            if k not in G:
                G[k] = (b, fa * f)
                todo.append(b)
            elif abs(G[k][1] - fa * f) > 1e-9:
                return None
    return G


def make(case, ctx, real=False):
    import jVMC.util.symmetries as sym
    fac = factors(case)
    G = None if real else group(case, fac)
    if G is None:
        fac = {k: 1.0 for k in fac}
        G = group(case, fac)
    kw = {k + "_factor": v for k, v in fac.items() if k != "rotation" or case["dim"] == 2}
    if all(v == 1 for v in fac.values()) and case["k"] % 2:
        kw = {}
    args = list(case["use"]) + ([None] if case["none"] else [])
    with ctx.sut("generating the orbit"):
        orb = sym.get_orbit_1D(case["L"], *args, **kw) if case["dim"] == 1 else sym.get_orbit_2D_square(case["L"], *args, **kw)
    return orb, G, fac


def check_cnnsym(case, ctx, shape, g):
    """the symmetric complex CNN is the average of the CNN over the given orbit"""
    import jax.numpy as jnp
    import numpy as np
    from jVMC.vqs import NQS
    import jVMC.nets as N
    from lib import netgen
    dev, n, spec = ctx.shard["devices"], int(np.prod(shape)), case["spec"]
    orb, G, _ = make({"dim": len(shape), "L": shape[0], "use": case["sym"], "k": 0, "r": 1, "f": 1, "c": 0, "none": False}, ctx, True)
    s = g.integers(0, 2, size=(dev, 3) + shape).astype(np.int32)
    els = [o for o, _ in G.values()]
    T = np.concatenate([(s.reshape(dev, 3, n) @ o.T).reshape(s.shape) for o in els], axis=1).astype(np.int32)
    with ctx.sut("CpxCNNSym"):
        psi = NQS(N.CpxCNNSym(orbit=orb, F=tuple(spec[1]), channels=tuple(spec[2]), strides=tuple(spec[3]), actFun=netgen.acts(spec[4]), bias=spec[5], firstLayerBias=spec[6]), batchSize=3)
        psi0 = NQS(netgen.build(spec), batchSize=3)
        psi(jnp.array(s)), psi0(jnp.array(s))
        P = 0.5 * g.standard_normal(len(psi.get_parameters()))
        psi.set_parameters(jnp.array(P)), psi0.set_parameters(jnp.array(P))
        v, V = np.asarray(psi(jnp.array(s))), np.asarray(psi(jnp.array(T))).reshape(dev, len(els), 3)
        V0 = np.asarray(psi0(jnp.array(T))).reshape(dev, len(els), 3)
    ctx.close(v, V0.mean(axis=1), "CpxCNNSym vs average of the CpxCNN over the orbit", rtol=1e-9)
    ctx.close(V, np.broadcast_to(v[:, None], V.shape), "CpxCNNSym under its symmetries", rtol=1e-9)
    return np.max(np.abs(V0 - V0[:, :1])) > 1e-6, ["CpxCNNSym"]


def check(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    from jVMC.vqs import NQS
    import jVMC.nets.sym_wrapper as sw
    from jVMC.util.symmetries import LatticeSymmetry
    from lib import netgen
    from lib.harness import rng

    dev = ctx.shard["devices"]
    part = ctx.shard["part"]
    if part == "cnn":
        shape = tuple(case["shape"])
        g = rng(case["seed"], 9)
        if case.get("sym") is not None:
            return check_cnnsym(case, ctx, shape, g)
        c0 = g.integers(0, 2, size=shape).astype(np.int32)
        shifts = list(np.ndindex(*shape))
        shifts = shifts + [(0,) * len(shape)] * (-len(shifts) % dev)
        S = np.array([np.roll(c0, sh, axis=tuple(range(len(shape)))) for sh in shifts]).reshape((dev, -1) + shape)
        with ctx.sut("CNN"):
            psi = NQS(netgen.build(case["spec"]), batchSize=3, seed=case["seed"])
            psi(jnp.array(S))
            psi.set_parameters(jnp.array(0.5 * g.standard_normal(len(psi.get_parameters()))))
            v = np.asarray(psi(jnp.array(S))).ravel()
        ctx.close(v, np.full_like(v, v[0]), "periodic %s under translations" % case["spec"][0], rtol=1e-9)
        return len(set(S.reshape(len(shifts), -1).tobytes() for _ in [0])) > 0 and len(np.unique(S.reshape(len(shifts), -1), axis=0)) > 1, [case["spec"][0]]

    real = part == "cov" and not (netgen.is_complex(case["spec"]) or case["spec"][0] == "Two")
    if part == "cov" and case["ldim"] == 4:
        case["use"] = [u for u in case["use"] if u != "spinflip"]
    if part == "cov" and case["avg"] != "exp":
        real = True       # these averages do not use the factors
    orb, G, fac = make(case, ctx, real)
    O, F = np.asarray(orb.orbit), np.asarray(orb.factor)
    n = case["L"]**case["dim"]
    ctx.expect(O.shape == (len(G), n, n) and F.shape == (len(G),), lambda: "orbit has shape %s with %s factors, the group has %d elements" % (O.shape, F.shape, len(G)))
    seen = set()
    for o, f in zip(O, F):
        k = np.asarray(o, dtype=int).tobytes()
        ctx.expect(k in G, "the orbit contains an operation which is not in the group")
        ctx.expect(k not in seen, "the orbit contains an operation twice")
        seen.add(k)
        ctx.expect(abs(G[k][1] - f) < 1e-9, lambda: "factor %s of a symmetry operation, its character is %s" % (f, G[k][1]))
    labels = ["%dD" % case["dim"], "order%d" % len(G)] + list(case["use"])
    if part == "orbit":
        return len(G) > 1, labels

    spec, shape = case["spec"], (case["L"],) * case["dim"]
    avg = {"exp": sw.avgFun_Coefficients_Exp, "log": sw.avgFun_Coefficients_Log, "sep": sw.avgFun_Coefficients_Sep}[case["avg"]]
    g = rng(case["seed"], 10)
    B = case["B"]
    s = g.integers(0, case["ldim"], size=(dev, B) + shape).astype(np.int32)
    off = case.get("off", 0.0)
    bare = netgen.build(["Shift", spec, off] if off else spec)
    sel = None if case.get("sub") is None else [i % len(O) for i in case["sub"]]
    if sel is not None:               # a user-defined list of symmetry operations, not necessarily a group
        with ctx.sut("user-defined orbit"):
            orb = LatticeSymmetry(orb.orbit[jnp.array(sel)], orb.factor[jnp.array(sel)])
        labels.append("user-defined")
    with ctx.sut("symmetrised state"):
        if case["wrap"]:
            psi = NQS(sw.SymNet(orbit=orb, net=bare, avgFun=avg), batchSize=3, seed=case["seed"])
        elif case["avg"] == "exp" and case["default"]:
            psi = NQS(bare, batchSize=3, seed=case["seed"], orbit=orb)
        else:
            psi = NQS(bare, batchSize=3, seed=case["seed"], orbit=orb, avgFun=avg)
        psi(jnp.array(s))
        P = 0.6 * g.standard_normal(len(psi.get_parameters()))
        psi.set_parameters(jnp.array(P))
        v = np.asarray(psi(jnp.array(s)))
        psi0 = NQS(bare, batchSize=3, seed=1)
        psi0(jnp.array(s))
        psi0.set_parameters(jnp.array(P))

    def act(o, x):
        y = (2 * x.reshape(x.shape[:2] + (n,)) - 1) @ np.asarray(o).T
        return ((y + 1) // 2).reshape(x.shape).astype(np.int32)
    els = list(G.values())
    if sel is not None:
        els = [G[np.asarray(O[i], dtype=int).tobytes()] for i in sel]
    with ctx.sut("bare network"):
        T = np.concatenate([act(o, s) for o, _ in els], axis=1)
        L0 = np.asarray(psi0(jnp.array(T))).reshape(dev, len(els), B)
        m = np.max(L0.real)
    if not np.all(np.isfinite(L0)) or np.max(np.abs(L0 - off)) > 300:
        return False, ["large"]
    fs = np.array([f for _, f in els])
    nontriv = len(G) > 1 and np.max(np.abs(L0 - L0[:, :1])) > 1e-6
    if case["avg"] == "exp":
        ref = np.einsum("g,dgb->db", fs, np.exp(L0 - m))          # up to the irrelevant constant 1/|S|
        amp = np.exp(v - m)
        i = np.unravel_index(np.argmax(np.abs(ref)), ref.shape)
        if abs(ref[i]) > 1e-6:
            c = amp[i] / ref[i]
            ctx.expect(abs(c - 1) < 1e-7 or abs(c - 1.0 / len(els)) < 1e-7, lambda: "amplitude %r, symmetrised bare network %r" % (amp[i], ref[i]))
            ctx.close(amp, c * ref, "symmetrised amplitudes", rtol=1e-7, atol=1e-9)
        else:
            ctx.close(amp, ref, "symmetrised amplitudes", atol=1e-7)
    elif case["avg"] == "log":
        ctx.close(v, L0.mean(axis=1), "averaged log amplitudes", rtol=1e-8)
    else:
        ph = np.mean(np.exp(1j * L0.imag), axis=1)
        ctx.close(v.real, 0.5 * np.log(np.mean(np.exp(2 * (L0.real - m)), axis=1)) + m, "averaged probabilities", rtol=1e-8)
        ok = np.abs(ph) > 1e-5
        ctx.close(np.exp(1j * v.imag[ok]), ph[ok] / np.abs(ph[ok]), "averaged phases", atol=1e-6)
    if sel is not None:
        return bool(nontriv), labels + [case["avg"], spec[0]]
    # covariance under every element of the group
    T = np.concatenate([act(o, s) for o, _ in els], axis=1)
    with ctx.sut("symmetrised state"):
        V = np.asarray(psi(jnp.array(T))).reshape(dev, len(els), B)
    if case["avg"] == "exp":
        A = np.exp(V - m) * fs[None, :, None]
        ctx.close(A, np.broadcast_to(np.exp(v - m)[:, None], A.shape), "Psi(g s) factor(g) = Psi(s)", rtol=1e-7, atol=1e-8)
    elif case["avg"] == "log":
        ctx.close(V, np.broadcast_to(v[:, None], V.shape), "Psi(g s) = Psi(s)", rtol=1e-8)
    else:
        ctx.close(V.real, np.broadcast_to(v.real[:, None], V.shape), "|Psi(g s)| = |Psi(s)|", rtol=1e-8)
    return bool(nontriv), labels + [case["avg"], spec[0]]
