"""C05: POVM Lindbladians are assembled exactly, and POVM observables are measured with the right statistics."""
import math

ID = "C05"
RULE = ("A case is a list of Lindbladian terms (built-in 1- and 2-body, custom 1- to 4-body matrices, any site order, repeated and "
        "overlapping supports, shared description dictionaries, terms added after use) on a 1D or 2D lattice, compared row by row with "
        "the dense superoperator; or a weighted sample of POVM outcomes for which means, variances, errors and connected correlators are "
        "compared with numpy. Non-trivial: at least two terms with overlapping support, or a sample with at least 2 distinct outcomes.")
ASSUMPTIONS = ["matrix elements of magnitude <= 1e-6 may be dropped"]


def shards(tier):
    q = tier == "quick"
    return [{"part": "asm", "devices": d, "examples": 22 if q else 200} for d in (1, 2, 3, 1)] + \
        [{"part": "meas", "devices": d, "examples": 26 if q else 250} for d in (1, 2, 3)] + \
        [{"part": "meas", "devices": 2, "mpi": 2, "examples": 16 if q else 100}]


def strategy(shard):
    from hypothesis import strategies as st
    dev = shard["devices"]
    tot = dev * shard.get("mpi", 1)

    @st.composite
    def asm(draw):
        shape = draw(st.sampled_from([[2], [3], [4], [2, 2], [1, 3], [3, 1], [2, 1, 2], [5]]))
        n = math.prod(shape)
        maxb = draw(st.sampled_from([1, 2, 2, 2, 3, 3] + [4] * (n >= 4))) if n >= 3 else draw(st.sampled_from([1, 2]))
        def term():
            b = draw(st.integers(1, min(maxb, n)))
            sites = draw(st.permutations(range(n)))[:b]
            names = {1: ["X", "Y", "Z", "decayup", "decaydown", "dephasing", "c1", "d1", "i1"], 2: ["XX", "YY", "ZZ", "c2", "d2"], 3: ["c3"], 4: ["c4"]}[b]
            return [draw(st.sampled_from(names)), list(sites), draw(st.sampled_from([-1.5, -0.5, 0.25, 1.0, 2.0]))]
        groups = [[term() for _ in range(draw(st.integers(1, 5)))] for _ in range(draw(st.integers(1, 2)))]
        if draw(st.integers(0, 2)) == 0 and groups[0]:
            groups[0].append([groups[0][0][0], list(groups[0][0][1]), draw(st.sampled_from([1.0, -0.5]))])
        if draw(st.booleans()):
            # a permutation or a prefix of the support of an earlier term
            base = max((t[1] for t in groups[0]), key=len)
            if draw(st.booleans()) and len(base) > 1:
                sites = [base[0]] + list(draw(st.permutations(base[1:])))
            else:
                sites = list(draw(st.permutations(base)))[:draw(st.integers(1, len(base)))]
            groups[-1].append(["c%d" % len(sites), sites, draw(st.sampled_from([1.0, -0.5]))])
        return {"shape": shape, "groups": groups, "share": draw(st.booleans()), "seed": draw(st.integers(0, 10**5)),
                "theta": draw(st.sampled_from([0.0, 0.6])), "phi": draw(st.sampled_from([0.0, -1.1])), "B": draw(st.integers(1, 4))}

    @st.composite
    def meas(draw):
        return {"dim": draw(st.sampled_from(["1D", "1D", "2D"])), "L": draw(st.integers(2, 4)), "B": draw(st.one_of(st.integers(1, 5), st.just(40))),
                "seed": draw(st.integers(0, 10**5)), "given": draw(st.booleans()), "custom": draw(st.booleans()),
                "N": draw(st.sampled_from([7, 50, 1000])), "theta": draw(st.sampled_from([0.0, 0.9])), "phi": draw(st.sampled_from([0.0, 2.2]))}
    return asm() if shard["part"] == "asm" else meas()


def corpus(shard):
    if shard["part"] == "asm":
        return [
            {"shape": [3], "groups": [[["X", [0], 1.0], ["ZZ", [0, 2], 2.0], ["c3", [0, 2, 1], 0.5]], [["XX", [2, 0], 1.0], ["Y", [0], 1.0]]],
             "share": False, "seed": 3, "theta": 0.6, "phi": 0.0, "B": 2},
            {"shape": [3], "groups": [[["c3", [0, 2, 1], 0.5], ["c3", [0, 1, 2], 1.0], ["c2", [0, 2], 1.0], ["c2", [2, 0], -0.5]]],
             "share": False, "seed": 5, "theta": 0.0, "phi": 0.0, "B": 2},
            {"shape": [4], "groups": [[["c4", [0, 3, 1, 2], 0.5], ["c3", [1, 2, 0], 1.0], ["c3", [2, 3, 1], 1.0], ["c2", [3, 2], -0.5], ["X", [3], 1.0]], [["ZZ", [0, 3], 1.0]]],
             "share": False, "seed": 6, "theta": 0.0, "phi": 0.0, "B": 2},
            {"shape": [4], "groups": [[["X", [3], 1.0], ["X", [3], 1.0], ["ZZ", [3, 0], 2.0], ["ZZ", [1, 3], 2.0]]],
             "share": True, "seed": 4, "theta": 0.0, "phi": -1.1, "B": 2},
            {"shape": [3], "groups": [[["ZZ", [0, 1], 1.0], ["XX", [0, 2], 1.0], ["X", [0], 1.0], ["YY", [0, 1], 1.0]]],
             "share": True, "seed": 4, "theta": 0.0, "phi": -1.1, "B": 2}]
    return [{"dim": d, "L": 3, "B": 3, "seed": 5, "given": g, "custom": False, "N": 50, "theta": 0.9, "phi": 2.2} for d in ("1D", "2D") for g in (False, True)]


class FakeSampler:
    """A sampler in the sense of measure_povm: draws a fixed weighted sample."""

    def __init__(self, configs, p, N):
        self.configs, self.p, self.N, self.calls = configs, p, N, 0

    def sample(self, *a, **k):
        self.calls += 1
        return self.configs, None, self.p

    def get_last_number_of_samples(self):
        return self.N


def check(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC.operator.povm as pv
    from lib import nets
    from lib.harness import rng
    dev = ctx.shard["devices"]

    if "groups" in case:
        shape = tuple(case["shape"])
        n = int(np.prod(shape))
        r = rng(case["seed"])
        with ctx.sut("POVM"):
            povm = pv.POVM({"dim": "%dD" % len(shape), "L": shape[0]}, theta=case["theta"], phi=case["phi"])
            for b, d in ((1, 4), (2, 16), (3, 64), (4, 256)):
                if b == 4 and not any(t[0] == "c4" for g in case["groups"] for t in g):
                    continue
                M = np.round(r.standard_normal((d, d)), 2)
                if b >= 3:
                    M *= (r.uniform(size=M.shape) < (0.1 if b == 3 else 0.01))
                povm.add_unitary("c%d" % b, jnp.array(M))
                if b < 3:
                    povm.add_dissipator("d%d" % b, jnp.array(np.round(r.standard_normal((d, d)), 2)))
            povm.add_imaginary("i1", jnp.array(np.round(r.standard_normal((4, 4)), 2)))
            mats = {k: np.array(v) for k, v in povm.operators.items()}
            L, L2 = pv.POVMOperator(povm), pv.POVMOperator(povm)
        B = nets.basis(n, 4)
        pw = 4 ** np.arange(n)
        D = np.zeros((4 ** n, 4 ** n))
        terms = []
        for g, group in enumerate(case["groups"]):
            dicts = {}
            for name, sites, a in group:
                key = (name, tuple(sites), a)
                if case["share"] and key in dicts:
                    dct = dicts[key]
                else:
                    dct = dicts[key] = {"name": name, "strength": a, "sites": tuple(sites)}
                with ctx.sut("POVMOperator.add"):
                    L.add(dct)
                terms.append(key)
                m = len(sites)
                wts = np.array([4 ** (m - 1 - j) for j in range(m)])
                x = B[:, list(sites)] @ wts
                base = (B @ pw) - B[:, list(sites)] @ pw[list(sites)]
                for y in range(4 ** m):
                    dig = np.array([(y // w) % 4 for w in wts])
                    D[np.arange(4 ** n), base + dig @ pw[list(sites)]] += a * mats[name][x, y]
            if case["share"]:
                with ctx.sut("POVMOperator.add (second operator)"):
                    # an unrelated operator into which some of the same description dictionaries are added
                    for dct in list(dicts.values())[1:]:
                        L2.add(dct)
            cf = rng(case["seed"], g, 77).integers(0, 4, size=(dev * case["B"], n)).astype(np.int32)
            with ctx.sut("get_s_primes"):
                sp, mel = L.get_s_primes(jnp.array(cf.reshape((dev, case["B"]) + shape)))
                sp, mel = np.array(sp), np.array(mel)
            K = mel.shape[-1]
            if not ctx.expect(sp.shape == (dev, case["B"] * K) + shape and mel.shape == (dev, case["B"], K), "shapes %s %s" % (sp.shape, mel.shape)):
                return True, []
            got = np.zeros((dev * case["B"], 4 ** n))
            flat = sp.reshape(dev * case["B"], K, n) @ pw if K else np.zeros((dev * case["B"], 0), dtype=int)
            for b in range(dev * case["B"]):
                np.add.at(got[b], flat[b], mel.reshape(-1, K)[b])
            ctx.close(got, D[cf @ pw], "rows of the Lindbladian after group %d" % g, rtol=1e-9, atol=2e-6 * (len(terms) + 1))
        sup = [set(t[1]) for t in terms]
        overlap = any(sup[i] & sup[j] for i in range(len(sup)) for j in range(i))
        return overlap, ["longest support %d" % max(len(t[1]) for t in terms), "%dD" % len(shape),
                         "shared dicts" if case["share"] else "fresh dicts"] + (["identical terms"] if len(set(terms)) < len(terms) else []) + \
            (["added after use"] if len(case["groups"]) > 1 else [])

    L = case["L"]
    shape = (L,) if case["dim"] == "1D" else (L, L)
    n = int(np.prod(shape))
    size = ctx.size
    N = size * dev * case["B"]
    r = rng(case["seed"], 3)
    cf = r.integers(0, 4, size=(N, n)).astype(np.int32)
    p = r.uniform(0.1, 1, size=N)
    p = p / p.sum()
    sl = slice(ctx.rank * dev * case["B"], (ctx.rank + 1) * dev * case["B"])
    confs = jnp.array(cf[sl].reshape((dev, case["B"]) + shape))
    probs = jnp.array(p[sl].reshape(dev, case["B"]))
    with ctx.sut("POVM"):
        povm = pv.POVM({"dim": case["dim"], "L": L}, theta=case["theta"], phi=case["phi"])
        obs = None
        if case["custom"]:
            obs = {"Q": jnp.array(np.round(r.standard_normal(4), 3)), "X": povm.observables["X"]}
        smp = FakeSampler(confs, probs, case["N"])
        if case["given"]:
            res = pv.measure_povm(povm, smp, sampleConfigs=confs, probs=probs, observables=obs)
        else:
            res = pv.measure_povm(povm, smp, observables=obs)
        res = {k: {q: np.array(v) for q, v in d.items()} for k, d in res.items()}
        o = {k: np.array(v) for k, v in (obs or povm.observables).items()}
    expected = set(o) | {"%s_corr_L%d" % (k, l) for k in o for l in range(L)}
    if not ctx.expect(set(res) == expected, "keys %s" % sorted(res)):
        return True, []

    def stats(name, x, shift=0.0):
        m = np.sum(p * x)
        v = np.sum(p * (x - m) ** 2)
        ctx.close(res[name]["mean"], m - shift, name + " mean", atol=1e-9)
        ctx.close(res[name]["variance"], v, name + " variance", atol=1e-9)
        ctx.close(res[name]["MC_error"], np.sqrt(v / case["N"]), name + " MC_error", atol=1e-9)
        return m
    for k, vals in o.items():
        per = vals[cf].reshape((N,) + shape)
        m = stats(k, per.reshape(N, -1).mean(axis=1))
        for l in range(L):
            c = (per * np.roll(per, l, axis=1)).reshape(N, -1).mean(axis=1)
            stats("%s_corr_L%d" % (k, l), c, m ** 2)
    return len(np.unique(cf, axis=0)) > 1, [case["dim"], "given sample" if case["given"] else "sampled", "custom observables" if obs else "default observables"]
