"""C01: operators assembled from operator strings have exactly the matrix elements of their definition."""
import math

ID = "C01"
FERMIONIC = False
RULE = ("A case is an operator history: local dimension, lattice shape (1D/2D), terms built through every public "
        "construction (products in any association, OpStr, plain tuples, scal_opstr, numbers and functions as "
        "prefactors), a sequence of evaluations with batches of configurations and positional arguments, with terms "
        "added in between. Non-trivial: at least one evaluated row has a non-zero off-diagonal or multi-factor "
        "element and the operator has at least two factors.")
ASSUMPTIONS = ["Contributions of magnitude <= 1e-6 may be dropped by the implementation (tolerance 2e-6 per term).",
               "Convention: a string acts with its rightmost factor first on the configuration s that is passed in "
               "(see known finding on the documented <s|O|s'> convention)."]


def shards(tier):
    q = tier == "quick"
    n = 16 if q else 170
    out = [{"part": "gen", "devices": d, "examples": n} for d in (1, 2, 3, 1, 4)]
    out += [{"part": "many", "devices": 1, "mpi": m, "examples": 5 if q else 30} for m in (1, 2, 3)]
    return out


def strategy(shard):
    from hypothesis import strategies as st
    from lib import opgen, opmodel

    dev = shard["devices"]

    @st.composite
    def gen(draw):
        lDim = 2 if FERMIONIC else draw(st.sampled_from([2, 2, 2, 3, 4]))
        large = draw(st.integers(0, 5)) == 0
        shape = draw(st.sampled_from([[33], [40], [65], [70], [6, 6], [9, 8], [130]])) if large else draw(opgen.shapes(lDim))
        n = math.prod(shape)
        steps = []
        for k in range(draw(st.integers(1, 2))):
            new = draw(st.lists(opgen.term(lDim, n, FERMIONIC), min_size=1, max_size=6))
            strings = [t for s_ in steps if s_[0] == "add" for t in s_[1] if opmodel.kind(t) == "S"] + [t for t in new if opmodel.kind(t) == "S"]
            if strings and draw(st.booleans()):
                # reuse of strings that exist already
                a, b = draw(st.sampled_from(strings)), draw(st.sampled_from(strings))
                new.append(draw(st.sampled_from([["*", ["n", -0.5, 0.0], a], ["*", a, b], a, ["scal", ["n", 2.0, 0.0, "np"], b], ["*", a, ["f", "diff", [1.0, 0.0]]]])))
            steps.append(["add", new])
            for _ in range(draw(st.integers(1, 2))):
                steps.append(["eval", draw(opgen.args(draw(st.integers(0, 2)))), {"seed": draw(st.integers(0, 10**6)), "B": draw(st.sampled_from([1, 3, 30]))} if large else draw(opgen.configs(lDim, shape, dev))])
        return {"lDim": lDim, "shape": shape, "steps": steps, "iadd": draw(st.booleans()), "share": draw(st.booleans()), "argtype": draw(st.sampled_from(["float", "np", "jnp"]))}

    @st.composite
    def many(draw):
        # many terms with prefactors (the evaluation of >= 50 prefactors is distributed over processes)
        lDim, n = 2, draw(st.integers(2, 6))
        N = draw(st.sampled_from([49, 50, 51, 52, 53, 59, 60, 61, 64, 75, 100, 101]))
        plain = draw(st.integers(0, 12))
        terms = []
        for i in range(N):
            o = draw(st.sampled_from(["creation", "annihilation", "number"] if FERMIONIC else ["Sx", "Sy", "Sz", "Sp", "Sm"]))
            o2 = draw(st.sampled_from(["creation", "annihilation", "number"] if FERMIONIC else ["Sx", "Sy", "Sz", "Sp", "Sm"]))
            pre = ["n", 0.5 + 0.25 * i, 0.0] if draw(st.integers(0, 5)) else ["f", "diff", [0.5 + i, 0.0]]
            terms.append(["S", [pre, ["o", o, i % n], ["o", o2, draw(st.integers(0, n - 1))]]])
        for _ in range(plain):
            terms.insert(draw(st.integers(0, len(terms))), ["S", [["o", "number" if FERMIONIC else "Sx", draw(st.integers(0, n - 1))]]])
        nargs = draw(st.integers(0, 2))
        steps = [["add", terms]]
        for _ in range(2):
            steps.append(["eval", draw(opgen.args(nargs)), draw(opgen.configs(lDim, [n], dev, 2))])
        return {"lDim": lDim, "shape": [n], "steps": steps, "iadd": False}

    return gen() if shard["part"] == "gen" else many()


def corpus(shard):
    dev = shard["devices"]
    X, Z, Y, P, M = (lambda i: ["o", "Sx", i]), (lambda i: ["o", "Sz", i]), (lambda i: ["o", "Sy", i]), \
        (lambda i: ["o", "Sp", i]), (lambda i: ["o", "Sm", i])
    if FERMIONIC:
        X = lambda i: ["o", "creation", i]
        Y = M = lambda i: ["o", "annihilation", i]
        Z = P = lambda i: ["o", "number", i]
    cfg = [[(i + j) % 2 for j in range(4)] for i in range(2 * dev)]
    if shard["part"] == "many":
        def mk(N, extra):
            t = [["S", [["n", 1.0 + k, 0.0], X(k % 4), Z((k + 1) % 4)]] for k in range(N)]
            for e in extra:
                t.insert(e, ["S", [X(e % 4)]])
            return {"lDim": 2, "shape": [4], "iadd": False, "steps": [["add", t], ["eval", [], cfg], ["eval", [], cfg]]}
        return [mk(50, []), mk(50, [0]), mk(51, [50]), mk(60, [0, 1, 2, 30, 62]), mk(120, [3])]
    t = ["f", "diff", [1.0, 0.0]]
    big = lambda shape, a, b, c: {"lDim": 2, "shape": shape, "iadd": True, "steps": [
        ["add", [["S", [X(a), Y(b)]], ["S", [Y(c), X(a), Z(b)]], ["*", ["n", 0.5, 0.0], ["*", X(c), Y(a)]], ["S", [X(b), Y(c), Z(a)]]]], ["eval", [], {"seed": 3, "B": 20}]]}
    return [
        # more sites than bits of an integer
        big([70], 1, 33, 66), big([9, 8], 31, 32, 64),
        # one object used several times; numbers of numpy type
        {"lDim": 2, "shape": [4], "iadd": False, "share": True, "argtype": "jnp", "steps": [
            ["add", [["*", X(1), Z(2)], ["*", ["n", 0.5, 0.0, "np"], ["*", X(1), Z(2)]], ["*", ["*", X(1), Z(2)], ["*", X(1), Z(2)]], ["scal", ["n", 1.0, 2.0, "np"], ["T", [X(1), Y(2)]]]]],
            ["eval", [0.3], cfg], ["add", [["*", t, ["*", X(1), Z(2)]], ["*", X(1), Z(2)]]], ["eval", [0.3], cfg]]},
        # only a vanishing element anywhere
        {"lDim": 2, "shape": [4], "iadd": True, "steps": [["add", [["S", [M(0)]]]], ["eval", [], [[0, 0, 0, 0]] * dev]]},
        {"lDim": 2, "shape": [2, 2], "iadd": True, "steps": [
            ["add", [["*", ["n", 2.0, 0.0], X(0)], ["S", [X(3), Y(2)]], ["*", t, Z(1)], ["*", ["n", 0.5, 0.0], ["*", t, Z(3)]]]],
            ["eval", [0.3], cfg], ["eval", [1.0, 2.5], cfg],
            ["add", [["*", ["*", t, X(1)], ["*", t, M(1)]], ["T", [Z(2)]]]], ["eval", [-0.7], cfg], ["eval", [], cfg]]},
        # diagonal terms in every position, among off-diagonal ones
        {"lDim": 2, "shape": [4], "iadd": False, "steps": [
            ["add", [["S", [X(0)]], ["S", [Z(0), Z(1)]], ["S", [Y(2), X(3)]], ["*", ["n", 0.5, 0.0], Z(2)], ["S", [["o", "Id", 3]]],
                     ["*", ["n", -0.25, 0.5], Z(3)]]], ["eval", [], cfg]]},
        # non-commuting factors on one site
        {"lDim": 2, "shape": [4], "iadd": False, "steps": [
            ["add", [["*", P(1), ["*", M(1), Z(1)]], ["*", ["*", X(2), Z(2)], Y(2)], ["S", [X(0), X(0)]]]], ["eval", [], cfg]]},
    ]


def compare_rows(ctx, terms, lDim, shape, args, cfgs, sp, mel, what):
    import numpy as np
    from lib import opmodel
    dev = ctx.shard["devices"]
    B = len(cfgs) // dev
    ok = ctx.expect(mel.ndim == 3 and mel.shape[:2] == (dev, B), "%s: matrix elements have shape %s" % (what, mel.shape))
    if not ok:
        return False, 0
    K = mel.shape[2]
    if not ctx.expect(sp.shape == (dev, B * K) + tuple(shape), "%s: s' has shape %s, expected %s" % (what, sp.shape, (dev, B * K) + tuple(shape))):
        return False, 0
    tol = 2e-6 * (len(terms) + 1)
    offd = 0
    for d in range(dev):
        for b in range(B):
            c = tuple(cfgs[d * B + b])
            want = opmodel.row(terms, lDim, c, args)
            got = {}
            for k in range(K):
                if mel[d, b, k] != 0:
                    key = tuple(int(x) for x in sp[d, b * K + k].ravel())
                    got[key] = got.get(key, 0.0) + mel[d, b, k]
            for key in set(got) | set(want):
                g, w = got.get(key, 0.0), want.get(key, 0.0)
                ctx.expect(abs(g - w) <= tol + 1e-9 * abs(w),
                           lambda: "%s: s=%s s'=%s matrix element %s, definition gives %s" % (what, c, key, g, w))
                if key != c and abs(w) > 0:
                    offd += 1
    return True, offd


def known_case(case, ctx):
    """documented convention O_{s,s'}=<s|O|s'>: S+ = (sigma_x + i sigma_y)/2 in the basis in which
    Sx, Sy, Sz are the Pauli matrices"""
    import jax.numpy as jnp
    import numpy as np
    import jVMC.operator as op

    def mat(terms):
        H = op.BranchFreeOperator()
        for t in terms:
            H.add(t)
        with ctx.sut("get_s_primes"):
            sp, m = H.get_s_primes(jnp.array([[[0], [1]]], dtype=np.int32))
        A = np.zeros((2, 2), dtype=complex)
        sp = np.array(sp).reshape(2, -1)
        for s in range(2):
            for k in range(sp.shape[1]):
                A[s, sp[s, k]] += np.array(m)[0, s, k]
        return A
    ctx.close(mat([op.OpStr(op.Sp(0))]), mat([0.5 * op.Sx(0), 0.5j * op.Sy(0)]), "S+ versus (Sx+iSy)/2")
    return True, []


def check(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC.operator as op
    from lib import opmodel

    if case.get("known"):
        return known_case(case, ctx)

    dev = ctx.shard["devices"]
    lDim, shape = case["lDim"], tuple(case["shape"])
    with ctx.sut("BranchFreeOperator()"):
        H = op.BranchFreeOperator(lDim=lDim)
    terms = []
    memo = {} if case.get("share") else None
    frozen = []
    labels = set()
    offd_total = 0
    for i, step in enumerate(case["steps"]):
        if step[0] == "add":
            for t in step[1]:
                with ctx.sut("building/adding term %s" % (t,)):
                    x = opmodel.build_id(t, op, jnp, lDim, memo)
                    frozen.append((t, x, opmodel.freeze(x)))
                    if case["iadd"]:
                        H += x
                    else:
                        H.add(x)
                terms.append(t)
            if i:
                labels.add("terms added after use")
        else:
            _, args, cfgs = step
            if isinstance(cfgs, dict):
                from lib.harness import rng
                cfgs = rng(cfgs["seed"]).integers(0, lDim, size=(dev * cfgs["B"], int(np.prod(shape)))).tolist()
            B = len(cfgs) // dev
            s = jnp.array(np.array(cfgs, dtype=np.int32).reshape((dev, B) + shape))
            conv = {"float": float, "np": np.float64, "jnp": jnp.array}[case.get("argtype", "float")]
            args = [conv(a) for a in args]
            with ctx.sut("get_s_primes (step %d)" % i):
                sp, mel = H.get_s_primes(s, *args)
                sp, mel = np.array(sp), np.array(mel)
            _, offd = compare_rows(ctx, terms, lDim, shape, args, cfgs, sp, mel, "step %d" % i)
            offd_total += offd
            labels.add("args=%d" % len(args))
    for t, x, f in frozen:
        ctx.expect(opmodel.freeze(x) == f, lambda: "the operator object %s passed to the operator was modified" % (t,))
    labels.add("%dD" % len(shape))
    if np.prod(shape) > 30:
        labels.add("more than 30 sites")
    labels.add("lDim=%d" % lDim)
    nf = max(len(opmodel.flatten(t, lDim)[1]) for t in terms)
    labels.add("longest string %d" % nf)
    if any(len(opmodel.flatten(t, lDim)[0]) >= 2 for t in terms):
        labels.add("nested prefactors")
    if len(terms) >= 50:
        labels.add(">=50 terms")
    return (offd_total > 0 and nf >= 2), sorted(labels)
