"""Runs one shard of one property: explicit corner cases first, then Hypothesis.

usage: worker.py PROP SHARD.json OUT_DIR          (possibly under mpirun)
       SHARD.json: {"shard": {...}, "seed": int, "replay": case or null, "soft": seconds}
Writes OUT_DIR/result.json (rank 0).  In MPI mode an exception inside the code under test writes
OUT_DIR/abort.json and aborts the job, because the other ranks may be blocked in a collective call.
"""
import hashlib
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.environ.get("VERIF_REPO"):        # development only: run against a scratch copy
    sys.path.insert(0, os.environ["VERIF_REPO"])
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from lib.harness import Ctx, Violation, HarnessError  # noqa: E402


def jdump(x):
    return json.dumps(x, sort_keys=True)


def main():
    prop, shardfile, outdir = sys.argv[1:4]
    try:                # do not outlive the driver
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except Exception:
        pass
    with open(shardfile) as f:
        job = json.load(f)
    shard = job["shard"]
    t_start = time.time()

    import warnings
    warnings.simplefilter("ignore")
    import jVMC  # noqa: F401
    if not os.path.realpath(jVMC.__file__).startswith(os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))):
        raise HarnessError("jVMC imported from " + jVMC.__file__)
    mod = importlib.import_module("props." + prop)
    import jax

    nranks = shard.get("mpi", 1)
    if nranks > 1:
        from mpi4py import MPI
        comm = MPI.COMM_WORLD.Dup()
        rank = comm.Get_rank()
        if comm.Get_size() != nranks:
            raise HarnessError("communicator size")
    else:
        comm, rank = None, 0
    if len(jax.devices()) != shard.get("devices", 1):
        raise HarnessError("device count %d" % len(jax.devices()))

    ncases = [0]
    running = [None, None]              # start time and case of the evaluation in progress
    slowest = [0.0]

    def rss():
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")

    def watchdog():
        # a case that never returns (or eats all memory) is a violation with that case as replay
        while True:
            time.sleep(1.0)
            t, case = running
            if t is None:
                continue
            why = None
            if time.time() - t > job.get("case_limit", 300):
                why = "the call did not return within %d s" % job.get("case_limit", 300)
            elif rss() > job.get("mem_limit", 6e9):
                why = "memory use grew beyond %.1f GB" % (job.get("mem_limit", 6e9) / 1e9)
            if why is None or running[0] != t:
                continue
            p = os.path.join(outdir, "abort.%d.json" % rank)
            with open(p + ".tmp", "w") as f:
                json.dump({"case": case, "message": "rank %d: %s" % (rank, why)}, f)
            os.rename(p + ".tmp", p)
            os._exit(17)

    threading.Thread(target=watchdog, daemon=True).start()

    def run_one(case):
        t = time.time()
        running[:] = [t, case]
        try:
            return run_one_(case)
        finally:
            running[0] = None
            slowest[0] = max(slowest[0], time.time() - t)

    def run_one_(case):
        """all ranks; returns (failure message or None, info)"""
        ncases[0] += 1
        if ncases[0] % job.get("clear_every", 150) == 0:
            jax.clear_caches()
        def abort(msg):
            p = os.path.join(outdir, "abort.%d.json" % rank)
            with open(p + ".tmp", "w") as f:
                json.dump({"case": case, "message": "rank %d: %s" % (rank, msg)}, f)
            os.rename(p + ".tmp", p)
            sys.stderr.flush()
            comm.Abort(17)
        ctx = Ctx(shard, collect=comm is not None, abort=abort if comm is not None else None)
        ctx.rank, ctx.comm = rank, comm
        ctx.size = nranks
        info = (False, [])
        msg = None
        try:
            # round-trip through JSON so that a replay sees exactly the same case
            info = mod.check(json.loads(jdump(case)), ctx)
        except Violation as e:
            if comm is not None:
                abort(str(e))
            msg = str(e)
        if ctx.failures and msg is None:
            msg = "rank %d: %s" % (rank, ctx.failures[0])
        if comm is not None:
            msgs = comm.allgather(msg)
            msg = next((m for m in msgs if m is not None), None)
        return msg, info

    if rank != 0:
        try:
            while True:
                c = comm.bcast(None, root=0)
                if c is None:
                    break
                run_one(c)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            comm.Abort(3)
        return

    stats = {"evaluations": 0, "labels": {}, "hashes": [], "samples": [], "skipped": 0, "violation": None,
             "examples": shard.get("examples", 0)}
    seen = set()
    first_failure = [None]
    soft = job.get("soft", 1e9)

    def evaluate(case):
        if time.time() - t_start > soft and first_failure[0] is None:
            stats["skipped"] += 1
            return
        with open(os.path.join(outdir, "current.json"), "w") as f:
            json.dump(case, f)
        if comm is not None:
            comm.bcast(case, root=0)
        msg, info = run_one(case)
        stats["evaluations"] += 1
        if msg is not None:
            size = len(jdump(case))
            if first_failure[0] is None or size <= first_failure[0][0]:
                first_failure[0] = (size, case, msg)
            raise Violation(msg)
        nontrivial, labels = info
        for l in labels:
            stats["labels"][l] = stats["labels"].get(l, 0) + 1
        h = hashlib.sha1(jdump(case).encode()).hexdigest()[:16]
        if nontrivial and h not in seen:
            seen.add(h)
            stats["hashes"].append(h)
            if len(stats["samples"]) < 3:
                stats["samples"].append(case)

    def finish():
        if first_failure[0] is not None:
            stats["violation"] = {"case": first_failure[0][1], "message": first_failure[0][2]}
        stats["wall_s"] = time.time() - t_start
        stats["slowest_case_s"] = slowest[0]
        stats["rss_gb"] = rss() / 1e9
        p = os.path.join(outdir, "result.json")
        with open(p + ".tmp", "w") as f:
            json.dump(stats, f)
        os.rename(p + ".tmp", p)
        if comm is not None:
            comm.bcast(None, root=0)

    try:
        if job.get("replay") is not None:
            try:
                evaluate(job["replay"])
            except Violation:
                pass
            finish()
            return

        for case in (mod.corpus(shard) if hasattr(mod, "corpus") else []):
            try:
                evaluate(case)
            except Violation:
                finish()
                return

        n = shard.get("examples", 0)
        if n > 0:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings
            import hypothesis.internal.conjecture.engine as engine
            engine.MAX_SHRINKING_SECONDS = job.get("shrink_s", 40)

            @hypothesis.seed(job["seed"])
            @settings(max_examples=n, deadline=None, database=None, print_blob=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink))
            @given(mod.strategy(shard))
            def prop_test(case):
                evaluate(case)

            try:
                prop_test()
            except Violation:
                pass
            except BaseException as e:
                # Hypothesis may report flakiness after a violation was recorded; the recorded
                # failing case is what counts then.
                if first_failure[0] is None:
                    raise
                stats["note"] = repr(e)[:300]
        finish()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        if comm is not None:
            comm.Abort(3)
        sys.exit(2)


if __name__ == "__main__":
    main()
