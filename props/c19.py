"""C19: the output file contains exactly what was written, through every history of writes, group changes and re-openings."""
ID = "C19"
RULE = ("A case is a history of OutputManager operations: observables, metadata (including a real TDVP metadata dictionary), network checkpoints and their retrieval by index or time, error data, "
        "datasets, group changes, re-opening with and without append, timings; one or several processes sharing the file. Oracle: a dictionary model; the complete HDF5 tree is compared after every re-opening and at the end. "
        "Non-trivial: at least 4 operations that touch the file, with a group change or re-opening.")
ASSUMPTIONS = ["names of groups, observables and datasets do not collide; shapes of an observable do not change during a run; checkpoint times are non-negative"]


def shards(tier):
    q = tier == "quick"
    e = 300 if q else 4000
    return [{"part": "h5", "devices": 1, "examples": e, "k": k} for k in range(4)] + [{"part": "h5", "devices": 1, "mpi": 2, "examples": e}, {"part": "h5", "devices": 1, "mpi": 3, "examples": e // 2}]


GROUPS = ["/", "a", "b", "a/sub", "run1"]


def strategy(shard):
    from hypothesis import strategies as st
    size = shard.get("mpi", 1)

    @st.composite
    def op(draw):
        k = draw(st.sampled_from(["obs", "obs", "meta", "meta", "ckpt", "ckpt", "get", "get", "group", "group", "reopen", "err", "data", "time"]))
        r = draw(st.integers(0, 10**4))
        t = draw(st.sampled_from([0.0, 0.1, 0.1000001, 1e-7, 0.5, 1.0, 1.5, 2.0, 7.25, 123456.75]))
        if k in ("obs", "meta"):
            return [k, t, draw(st.lists(st.sampled_from(["x", "y", "z"]), min_size=1, max_size=3, unique=True)), r]
        if k == "ckpt":
            return [k, t, r]
        if k == "get":
            return [k, draw(st.sampled_from([None, None, 0.0, 0.2, 0.8, 5.0, 0.1, 0.1000001, 1e5])), draw(st.sampled_from([None, 0, -1, 1, -2]))]
        if k == "group":
            return [k, draw(st.sampled_from(GROUPS))]
        if k == "reopen":
            return [k, draw(st.sampled_from([True, True, False])), draw(st.sampled_from([None] + GROUPS))]
        if k in ("err", "data"):
            return [k, r, draw(st.integers(0, size - 1)), draw(st.sampled_from([None, "/", "g1", "g2/h"]))]
        return [k, draw(st.lists(st.tuples(st.sampled_from(["u", "v"]), st.sampled_from(["add", "run"]), st.sampled_from([0.25, 1.5])), min_size=1, max_size=4)), draw(st.booleans())]

    @st.composite
    def gen(draw):
        return {"ops": draw(st.lists(op(), min_size=3, max_size=20)), "group": draw(st.sampled_from([None] + GROUPS)), "dim": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6))}
    return gen()


def corpus(shard):
    c = {"group": None, "dim": 3, "seed": 1}
    return [dict(c, ops=[["obs", 0.0, ["x", "y"], 1], ["group", "a"], ["obs", 0.5, ["x"], 2], ["ckpt", 0.0, 3], ["ckpt", 0.5, 4], ["ckpt", 2.0, 5], ["get", 0.8, None], ["get", None, None], ["get", None, 0],
                         ["group", "/"], ["meta", 1.0, ["x"], 6], ["reopen", True, "a"], ["obs", 1.0, ["x"], 7], ["get", None, 1], ["err", 8, 0, None], ["data", 9, 0, "/"], ["reopen", True, None], ["meta", 2.0, ["x"], 3]]),
            dict(c, group="a/sub", ops=[["obs", 0.0, ["x", "y"], 1], ["reopen", False, "b"], ["meta", 0.0, ["x", "z"], 1], ["time", [["u", "add", 0.25], ["v", "run", 0.25], ["u", "add", 1.5]], True], ["time", [["u", "add", 0.25]], True]]),
            dict(c, ops=[o for k in range(45) for o in ([["obs", 0.1 * k, ["x"], k]] + [["ckpt", 0.1 * k, k]] * (k % 3 == 0))] + [["get", 4.4, None], ["get", None, 11], ["reopen", True, None], ["obs", 5.0, ["x"], 1], ["get", None, None]])]


def check(case, ctx):
    import contextlib
    import io
    import os
    import re
    import time as _time
    import h5py
    import jax.numpy as jnp
    import numpy as np
    from jVMC.util import OutputManager
    from lib.harness import rng, scratch
    d = os.path.join(scratch(), "c19")
    if ctx.rank == 0:
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
    bar = (lambda: None) if ctx.comm is None else ctx.comm.barrier
    bar()
    path = os.path.join(d, "out.h5")
    model, groups = {}, set()          # dataset path -> list of values (series) or array; existing groups
    cur = "/"
    nops, changes = 0, 0
    timings, printed = {}, {}

    def base(k):
        return (cur if cur != "/" else "") + "/" + k

    def setg(g):
        nonlocal cur
        cur = "/" if g == "/" else "/" + g
        groups.add(cur)

    def mk(group, append=None):
        kw = {} if append is None else {"append": append}
        return OutputManager(path, **kw) if group is None else OutputManager(path, group=group, **kw)

    def compare(tag):
        bar()
        got, ggroups = {}, {"/"}
        with h5py.File(path, "r") as f:
            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    got["/" + name] = o[...]
                else:
                    ggroups.add("/" + name)
            f.visititems(visit)
        ctx.expect(set(got) == set(model), lambda: "%s: datasets %s in the file, expected %s" % (tag, sorted(got), sorted(model)))
        if set(got) == set(model):
            for k, v in model.items():
                ctx.close(got[k], np.array(v), "%s: dataset %s" % (tag, k), rtol=0, atol=0)
        ctx.expect(groups <= ggroups, lambda: "%s: groups %s missing" % (tag, groups - ggroups))
        bar()
    with ctx.sut("OutputManager()"):
        out = mk(case["group"])
    setg(case["group"] or "/")
    bar()
    cut = {"x": (), "y": (case["dim"],), "z": (2, 3)}
    for i, op in enumerate(case["ops"]):
        tag = "operation %d %s" % (i, op)
        k = op[0]
        nops += k != "time"
        if k in ("obs", "meta"):
            t, names, r = op[1:]
            vals = {n: rng(case["seed"], r, j).standard_normal(cut[n]) for j, n in enumerate(names)}
            with ctx.sut(tag):
                if k == "obs":
                    out.write_observables(t, **{n: {"mean": jnp.array(v), "variance": np.abs(np.array(v))} for n, v in vals.items()})
                else:
                    out.write_metadata(t, **{n: (float(v) if v.ndim == 0 else jnp.array(v)) for n, v in vals.items()})
            b = base("observables" if k == "obs" else "metadata")
            model.setdefault(b + "/times", []).append(t)
            for n, v in vals.items():
                if k == "obs":
                    model.setdefault("%s/%s/mean" % (b, n), []).append(v)
                    model.setdefault("%s/%s/variance" % (b, n), []).append(np.abs(v))
                else:
                    model.setdefault("%s/%s" % (b, n), []).append(v)
        elif k == "ckpt":
            w = rng(case["seed"], op[2]).standard_normal(case["dim"] + 2)
            with ctx.sut(tag):
                out.write_network_checkpoint(op[1], jnp.array(w))
            model.setdefault(base("network_checkpoints/times"), []).append(op[1])
            model.setdefault(base("network_checkpoints/checkpoints"), []).append(w)
        elif k == "get":
            ts = model.get(base("network_checkpoints/times"))
            if not ts or (op[2] is not None and not -len(ts) <= op[2] < len(ts)):
                continue
            kw = {}
            if op[2] is not None:
                kw["idx"] = op[2]
            j = op[2] if op[2] is not None else -1
            if op[1] is not None:
                kw["time"] = op[1]
                dist = np.abs(np.array(ts) - op[1])
                j = None if np.sum(dist == dist.min()) > 1 and len(set(np.array(ts)[dist == dist.min()])) > 1 else int(np.argmin(dist))
                if np.sum(dist == dist.min()) > 1:
                    j = None
            bar()
            with ctx.sut(tag):
                t, w = out.get_network_checkpoint(**kw)
            if j is not None:
                ctx.expect(float(t) == ts[j], lambda: "%s: checkpoint of time %r, expected %r" % (tag, t, ts[j]))
                ctx.close(w, model[base("network_checkpoints/checkpoints")][j], tag + ": weights", rtol=0, atol=0)
            else:
                m = [a for a in range(len(ts)) if ts[a] == float(t) and np.array_equal(np.asarray(w), model[base("network_checkpoints/checkpoints")][a])]
                ctx.expect(len(m) > 0 and abs(float(t) - op[1]) == dist.min(), lambda: "%s: checkpoint of time %r is none of those closest to %r" % (tag, t, op[1]))
        elif k == "group":
            with ctx.sut(tag):
                out.set_group(op[1])
            setg(op[1])
            changes += 1
        elif k == "reopen":
            compare(tag)
            with ctx.sut(tag):
                out = mk(op[2], op[1])
            timings, printed = {}, {}
            if not op[1]:
                model.clear()
                groups.clear()
            setg(op[2] or "/")
            changes += 1
        elif k in ("err", "data"):
            g = "error_data" if k == "err" else op[3]
            gp = "" if g in (None, "/") else "/" + g
            name = "d%d_%d" % (op[1], i)
            v = rng(case["seed"], op[1]).standard_normal((2, case["dim"]))
            if op[1] % 3 == 2:
                v = v + 1j * v[::-1]
            with ctx.sut(tag):
                if k == "err":
                    out.write_error_data(name, jnp.array(v), mpiRank=op[2]) if op[2] else out.write_error_data(name, jnp.array(v))
                else:
                    kw = {} if op[3] is None else {"groupname": op[3]}
                    if op[2]:
                        kw["mpiRank"] = op[2]
                    with contextlib.redirect_stdout(io.StringIO()):
                        out.write_dataset(name, jnp.array(v), **kw)
            model[gp + "/" + name] = v
        else:
            for name, how, x in op[1]:
                with ctx.sut(tag):
                    if how == "add":
                        out.add_timing(name, x)
                        lo = hi = x
                    else:
                        a = _time.perf_counter()
                        out.start_timing(name)
                        b1 = _time.perf_counter()
                        _time.sleep(0.002)
                        b2 = _time.perf_counter()
                        out.stop_timing(name)
                        e = _time.perf_counter()
                        lo, hi = b2 - b1, e - a
                z = timings.setdefault(name, [0.0, 0.0])
                z[0] += lo
                z[1] += hi
            if op[2]:
                buf = io.StringIO()
                with ctx.sut(tag), contextlib.redirect_stdout(buf):
                    out.print_timings()
                if ctx.rank == 0:
                    for name, (lo, hi) in timings.items():
                        m = re.search(r"\b%s: ([0-9.]+)s" % name, buf.getvalue())
                        ctx.expect(m is not None and lo - 2e-6 <= float(m.group(1)) <= hi + 2e-6, lambda: "%s: timing of %s in %r, expected %g..%g" % (tag, name, buf.getvalue(), lo, hi))
                else:
                    ctx.expect(buf.getvalue() == "", "a process other than the first one prints")
                timings = {n: [0.0, 0.0] for n in timings}
        bar()
    compare("end of the history")
    return nops >= 4 and changes > 0, sorted(set(o[0] for o in case["ops"]))
