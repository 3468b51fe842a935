"""C18: the integrators perform the documented steps and AdaptiveHeun controls the integration error through every history."""
ID = "C18"
RULE = ("A case is an integrator, a right hand side (linear, anti-Hermitian, non-linear, explicitly time dependent; real/complex; numpy or jax arrays), tolerances, maximal steps, norms, and a sequence of steps. "
        "Every call of the right hand side is recorded. Oracle: independent numpy formulas for the accepted step, the error estimate against the tolerance, and exact solutions of linear problems. "
        "Non-trivial: at least two steps of a problem with non-constant right hand side.")
ASSUMPTIONS = ["the right hand side stays finite during trial steps", "initial step <= maximal step", "the norm returns a jax or numpy scalar"]


def shards(tier):
    q = tier == "quick"
    e = 130 if q else 2500
    return [{"part": "fixed", "devices": 1, "examples": 2 * e}] + [{"part": "adaptive", "devices": 1, "examples": e, "k": k} for k in range(4)] + [{"part": "exact", "devices": 1, "examples": e // 3, "k": k} for k in range(2)]


def strategy(shard):
    from hypothesis import strategies as st

    @st.composite
    def gen(draw):
        c = {"rhs": draw(st.sampled_from(["lin", "skew", "nonlin", "time", "const", "stiff"])), "dim": draw(st.integers(1, 4)), "cpx": draw(st.booleans()), "jax": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
             "dt": draw(st.sampled_from([1e-4, 1e-3, 0.01, 0.1, 0.5])), "t": draw(st.sampled_from([0.0, 1.0, -2.5])), "steps": draw(st.integers(1, 5)), "arg": draw(st.sampled_from([None, 0.5, 2.0]))}
        if shard["part"] == "fixed":
            c.update(kind=draw(st.sampled_from(["Euler", "Heun"])), dtarg=draw(st.sampled_from([None, None, 0.02])), setdt=draw(st.sampled_from([None, 0.03])))
        else:
            c.update(tol=draw(st.sampled_from([1e-12, 1e-8, 1e-5, 1e-3, 1e-1])), norm=draw(st.sampled_from([None, None, "max", "weighted", "rel"])), maxStep=draw(st.sampled_from([0.5, 0.5, 1.0, 0.6])))
            if draw(st.integers(0, 2)) == 0:      # the error of the first step is a given fraction of the tolerance
                c.update(tune=draw(st.sampled_from([0.05, 0.8, 1.1, 1.42, 1.47, 2.0, 20.0])), dt=draw(st.sampled_from([1.0, 1.0, 0.97])) * c["maxStep"])
        if shard["part"] == "exact":
            c.update(rhs=draw(st.sampled_from(["skew", "time"])), tol=draw(st.sampled_from([1e-8, 1e-6, 1e-4])), T=draw(st.sampled_from([0.3, 1.0, 2.0])), norm=None)
        return c
    return gen()


def corpus(shard):
    b = {"rhs": "nonlin", "dim": 3, "cpx": False, "jax": True, "seed": 1, "dt": 0.5, "t": 1.0, "steps": 3, "arg": 0.5}
    if shard["part"] == "fixed":
        return [dict(b, kind=k, dtarg=d, setdt=None) for k in ("Euler", "Heun") for d in (None, 0.02)]
    if shard["part"] == "adaptive":
        return [dict(b, tol=1e-8, norm=None, maxStep=0.5), dict(b, rhs="const", tol=1e-8, norm=None, maxStep=0.6, dt=0.1), dict(b, tol=1e-3, norm="max", maxStep=0.5, dt=1e-4, steps=5)] + \
            [dict(b, rhs=r, tol=1e-3, norm=None, maxStep=0.5, dt=0.5, tune=tu, steps=3) for r in ("skew", "nonlin", "time") for tu in (1.1, 1.45, 2.0)]
    return [dict(b, rhs="skew", tol=1e-6, norm=None, maxStep=0.5, T=1.0)]


def check(case, ctx):
    import jax.numpy as jnp
    import numpy as np
    import jVMC.util.stepper as stp
    from lib.harness import rng
    d = case["dim"]
    g = rng(case["seed"], 3)

    def mat():
        m = g.standard_normal((d, d))
        return m + 1j * g.standard_normal((d, d)) if case["cpx"] else m
    A, b = mat(), mat()[0]
    if case["rhs"] in ("skew", "time"):
        A = A - A.conj().T
    if case["rhs"] == "stiff":
        A = 30 * A
    scale = 1.0 if case["arg"] is None else case["arg"]

    def f_np(y, t):
        k = case["rhs"]
        if k in ("lin", "skew", "stiff"):
            return scale * (A @ y)
        if k == "nonlin":
            z = A @ y
            return scale * (np.sin(z.real) + (1j * np.sin(z.imag) if case["cpx"] else 0)) + 0.3 * np.cos(t) * b
        if k == "time":
            return scale * (A @ y) + np.cos(3 * t) * b
        return scale * b
    calls = []

    def f(y, t, **kw):
        calls.append((np.array(y), float(t), dict(kw)))
        r = f_np(np.asarray(y), float(t))
        return jnp.array(r) if case["jax"] else r
    y = g.standard_normal(d) * (1 + (1j * g.standard_normal() if case["cpx"] else 0))
    extra = {} if case["arg"] is None else {"strength": case["arg"], "obj": calls}

    def give(v):
        return jnp.array(v) if case["jax"] else np.array(v)

    def protocol(tag, y0, t0, dt):
        ctx.expect(len(calls) > 0 and calls[0][2].get("intStep") == 0, tag + ": the first evaluation is not marked as initial stage")
        for (yy, tt, kw) in calls:
            st = kw.pop("intStep", None)
            ctx.expect(isinstance(st, (int, np.integer)), lambda: tag + ": stage %r" % (st,))
            if st == 0:
                ctx.close(yy, y0, tag + ": argument at stage 0", rtol=0, atol=0)
                ctx.expect(tt == t0, lambda: tag + ": time %r at stage 0 instead of %r" % (tt, t0))
            kw.pop("dt", None)
            ctx.expect(set(kw) == set(extra) and all(kw[k] is extra[k] for k in kw), lambda: tag + ": arguments %s handed to the right hand side" % (list(kw),))
    t = case["t"]
    if ctx.shard["part"] == "fixed":
        with ctx.sut("constructor"):
            s = getattr(stp, case["kind"])(timeStep=case["dt"])
        dt = case["dt"]
        for i in range(case["steps"]):
            tag = "step %d" % i
            kw = dict(extra)
            if case["kind"] == "Heun":
                if case["setdt"] is not None and i == 1:
                    s.set_dt(case["setdt"])
                    dt = case["setdt"]
                if case["dtarg"] is not None and i == 2:
                    kw["dt"] = case["dtarg"]
            h = kw.get("dt", dt)
            yin = give(y)
            calls.clear()
            with ctx.sut(tag):
                yn, hh = s.step(t, f, yin, **kw)
            ctx.close(np.asarray(yin), y, tag + ": initial value after the step", rtol=0, atol=0)
            ctx.expect(float(hh) == h, lambda: tag + ": reported step %r instead of %r" % (hh, h))
            k0 = f_np(y, t)
            want = y + h * k0 if case["kind"] == "Euler" else y + 0.5 * h * (k0 + f_np(y + h * k0, t + h))
            ctx.close(yn, want, tag + ": new value", rtol=1e-12, atol=1e-13)
            protocol(tag, y, t, h)
            y, t = want, t + h
        return case["steps"] > 1 and case["rhs"] != "const", [case["kind"], case["rhs"]]

    wts = np.abs(rng(case["seed"], 4).standard_normal(d)) + 0.1
    norms = {None: np.linalg.norm, "max": lambda v: np.max(np.abs(v)), "weighted": lambda v: np.sqrt(np.sum(wts * np.abs(v)**2)), "rel": lambda v: 50.0 * np.linalg.norm(v)}
    nf = norms[case["norm"]]
    def heun(y, t, h):
        k0 = f_np(y, t)
        return 0.5 * h * (k0 + f_np(y + h * k0, t + h))
    if case.get("tune") and not ctx.shard["part"] == "exact":
        h0 = 0.5 * case["dt"]
        q1 = heun(y, t, h0)
        case["tol"] = min(0.1, max(1e-12, float(case["tune"] * nf(q1 + heun(y + q1, t + h0, h0) - heun(y, t, 2 * h0)))))
    with ctx.sut("constructor"):
        s = stp.AdaptiveHeun(timeStep=case["dt"], tol=case["tol"], maxStep=case["maxStep"])

    prev, labels, n, err_sum = None, [case["rhs"], "norm_%s" % case["norm"], "jax" if case["jax"] else "numpy"], 0, 0.0
    exact = ctx.shard["part"] == "exact"
    yref = y.copy()
    while (n < case["steps"]) if not exact else (t < case["t"] + case["T"] and n < 4000):
        tag = "step %d" % n
        calls.clear()
        yin = give(y)
        kw = dict(extra)
        if case["norm"] is not None:
            kw["normFunction"] = (lambda v: nf(np.asarray(v)))
        with ctx.sut(tag):
            yn, h = s.step(t, f, yin, **kw)
        h = float(h)
        ctx.close(np.asarray(yin), y, tag + ": initial value after the step", rtol=0, atol=0)
        coarse = heun(y, t, h)
        d1 = heun(y, t, 0.5 * h)
        fine = d1 + heun(y + d1, t + 0.5 * h, 0.5 * h)
        err = nf(fine - coarse)
        ctx.close(yn, y + fine, tag + ": new value", rtol=1e-12, atol=1e-12)
        ctx.expect(err <= case["tol"] * (1 + 1e-6) + 1e-14, lambda: tag + ": accepted a step %g with error %g, tolerance %g" % (h, err, case["tol"]))
        ctx.expect(0 < h <= case["maxStep"] * (1 + 1e-12), lambda: tag + ": step %g exceeds the maximal step %g" % (h, case["maxStep"]))
        if prev is None:
            e0 = heun(y, t, case["dt"])
            q1 = heun(y, t, 0.5 * case["dt"])
            e0 = nf(q1 + heun(y + q1, t + 0.5 * case["dt"], 0.5 * case["dt"]) - e0)
            if e0 < 0.99 * case["tol"]:
                ctx.expect(abs(h - case["dt"]) <= 1e-12 * h, lambda: tag + ": initial step %g not used (%g), although its error %g is small" % (case["dt"], h, e0))
            labels.append("rejected" if e0 > case["tol"] else "accepted")
        else:
            ctx.expect(h <= 2 * prev[0] * (1 + 1e-9), lambda: tag + ": the step grows from %g to %g" % (prev[0], h))
            if prev[1] < 1e-2 * case["tol"] and prev[0] < 0.9 * case["maxStep"] and case["rhs"] in ("const", "skew", "lin"):
                ctx.expect(h > prev[0] * 1.01, lambda: tag + ": the step %g does not grow to %g although the error %g is far below the tolerance" % (prev[0], h, prev[1]))
        protocol(tag, y, t, h)
        # neither does a rejected step leave traces
        prev = (h, err)
        err_sum += case["tol"]
        y, t, n = np.asarray(y + fine), t + h, n + 1
    if exact and n < 4000:
        from scipy.integrate import solve_ivp
        sol = solve_ivp(lambda tt, v: f_np(v.astype(complex) if case["cpx"] else v, tt), (case["t"], t), yref.astype(complex) if case["cpx"] else yref, rtol=1e-11, atol=1e-12, method="DOP853").y[:, -1]
        ctx.expect(np.linalg.norm(sol - y) <= 3 * n * case["tol"] + 1e-8, lambda: "after %d steps with tolerance %g the deviation from the exact solution is %g" % (n, case["tol"], np.linalg.norm(sol - y)))
        labels.append("exact")
    return n > 1 and case["rhs"] != "const", labels
