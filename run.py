#!/opt/venv/bin/python
"""Decides one property: run.py ID [--tier quick|thorough] [--replay FILE] [--shards a,b]

exit 0  held on everything explored         exit 1  violation (line VIOLATION property=.. replay=..)
exit 2  the check itself failed
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
CORES = 8


def env_for(shard, scratch):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", PYTHONWARNINGS="ignore", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3",
             JAX_DISABLE_MOST_OPTIMIZATIONS="1", VERIF_SCRATCH=scratch, TMPDIR=scratch,
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
             HYPOTHESIS_STORAGE_DIRECTORY=scratch)
    e["XLA_FLAGS"] = ("--xla_force_host_platform_device_count=%d --xla_cpu_multi_thread_eigen=false "
                      "intra_op_parallelism_threads=1" % shard.get("devices", 1))
    e.pop("PYTHONPATH", None)
    return e


def run_shard(args):
    prop, i, shard, seed, replay, limits, root = args
    d = os.path.join(root, "s%02d" % i)
    os.makedirs(os.path.join(d, "scratch"))
    with open(os.path.join(d, "job.json"), "w") as f:
        json.dump({"shard": shard, "seed": seed, "replay": replay, **limits}, f)
    cmd = [PY, os.path.join(HERE, "lib", "worker.py"), prop, os.path.join(d, "job.json"), d]
    n = shard.get("mpi", 1)
    if n > 1:
        cmd = ["mpirun", "--oversubscribe", "-n", str(n)] + cmd
    log = open(os.path.join(d, "log"), "w")
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env_for(shard, os.path.join(d, "scratch")),
                         cwd=os.path.join(d, "scratch"), start_new_session=True)
    timed_out = False
    try:
        rc = p.wait(timeout=limits["hard"])
    except subprocess.TimeoutExpired:
        timed_out = True
        os.killpg(p.pid, signal.SIGKILL)
        rc = p.wait()
    log.close()
    out = {"index": i, "shard": shard, "rc": rc, "timed_out": timed_out, "log": open(log.name, errors="replace").read()}
    res = os.path.join(d, "result.json")
    if os.path.exists(res):
        out["result"] = json.load(open(res))
    for r in range(n):
        a = os.path.join(d, "abort.%d.json" % r)
        if os.path.exists(a):
            ab = json.load(open(a))
            out.setdefault("result", {"evaluations": 0, "labels": {}, "hashes": [], "samples": [], "skipped": 0})
            if not out["result"].get("violation"):
                out["result"]["violation"] = ab
    if "result" not in out and not timed_out and rc is not None and (rc < 0 or rc in (134, 135, 136, 139)):
        # the code under test killed the interpreter (SIGSEGV/SIGABRT/...), not an out-of-memory kill
        if -rc not in (signal.SIGKILL, signal.SIGTERM) and os.path.exists(os.path.join(d, "current.json")):
            out["result"] = {"evaluations": 0, "labels": {}, "hashes": [], "samples": [], "skipped": 0,
                             "violation": {"case": json.load(open(os.path.join(d, "current.json"))),
                                           "message": "interpreter died with status %d" % rc}}
    shutil.rmtree(d, ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = a.id.lower()
    meta = importlib.import_module("props." + prop)          # module top level imports no jax
    pid = meta.ID

    replay = None
    if a.replay:
        r = json.load(open(a.replay))
        shards, replay = [r["shard"]], r["case"]
    else:
        shards = meta.shards(tier)
        if a.shards:
            keep = set(int(x) for x in a.shards.split(","))
            shards = [s for i, s in enumerate(shards) if i in keep]
    quick = tier == "quick"
    limits = {"soft": getattr(meta, "SOFT", {}).get(tier, 330 if quick else 2400),
              "hard": 780 if quick else 5400, "shrink_s": 40 if quick else 120,
              "case_limit": 300 if quick else 900}

    root = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    outs, findings_lines = [], []
    try:
        jobs = [(prop, i, s, (seed * 1000003 + i * 7919 + 17) & 0x7FFFFFFF, replay, limits, root)
                for i, s in enumerate(shards)]
        # heavier shards first; weight = cores the shard needs
        # open known findings: each is replayed on its specific input
        known = []
        kf = os.path.join(HERE, "known_findings.json")
        if replay is None and not a.shards and os.path.exists(kf):
            known = [k for k in json.load(open(kf))["open"] if k["property"] == pid]
        kjobs = [(prop, 900 + j, k["shard"], 1, k["case"], limits, root) for j, k in enumerate(known)]
        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            kfut = [ex.submit(run_shard, kj) for kj in kjobs]
            outs = list(ex.map(run_shard, jobs))
            for k, f in zip(known, kfut):
                o = f.result()
                if o.get("result", {}).get("violation"):
                    findings_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                elif o.get("result") is None:
                    outs.append(o)          # reported as broken
    finally:
        shutil.rmtree(root, ignore_errors=True)

    broken, violations = [], []
    tot = {"evaluations": 0, "skipped": 0}
    labels, hashes, samples, per_shard = {}, set(), [], []
    for o in outs:
        r = o.get("result")
        if r is None:
            broken.append(o)
            continue
        if r.get("violation"):
            violations.append(o)
        elif o["rc"] != 0:
            broken.append(o)
        tot["evaluations"] += r["evaluations"]
        tot["skipped"] += r["skipped"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        hashes.update((o["shard"].get("part", ""), o["shard"].get("devices", 1), o["shard"].get("mpi", 1), h) for h in r["hashes"])
        samples += r["samples"][:1]
        per_shard.append({"shard": o["shard"], "evaluations": r["evaluations"], "wall_s": round(r.get("wall_s", -1), 1),
                          "slowest_case_s": round(r.get("slowest_case_s", -1), 1), "rss_gb": round(r.get("rss_gb", -1), 2),
                          "skipped": r["skipped"]})

    if replay is not None:
        for v in violations:
            print(v["result"]["violation"]["message"])
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        for b in broken:
            print(b["log"][-4000:])
        sys.exit(1 if violations else (2 if broken else 0))

    new_violations = violations
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for v in new_violations:
        viol = v["result"]["violation"]
        path = os.path.join(rdir, "%s_seed%d_shard%d.json" % (pid, seed, v["index"]))
        with open(path, "w") as f:
            json.dump({"property": pid, "shard": v["shard"], "case": viol["case"], "message": viol["message"]}, f, indent=1)
        v["path"] = path

    if not a.shards:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(hashes), "rule": meta.RULE,
                           "samples": samples[:4], "labels": dict(sorted(labels.items())), "shards": per_shard,
                           "not_run_time_budget": tot["skipped"]},
              "assumptions": getattr(meta, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(new_violations)}
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    for l in findings_lines:
        print(l)
    for b in broken:
        print("shard %d %s: rc=%s timed_out=%s" % (b["index"], b["shard"], b["rc"], b["timed_out"]))
        print(b["log"][-1500:])
    told = set()
    for v in new_violations:
        if v["result"]["violation"]["message"][:60] in told:
            print("(same on shard %s)" % json.dumps(v["shard"]))
            print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
            continue
        told.add(v["result"]["violation"]["message"][:60])
        print("--- shard %s" % json.dumps(v["shard"]))
        print(json.dumps(v["result"]["violation"]["case"])[:400])
        m = v["result"]["violation"]["message"]
        print(m if len(m) < 900 else m[:300] + "\n ... " + m[-500:])
        print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
    print("%s tier=%s seed=%d evaluations=%d nontrivial=%d skipped=%d wall=%.1fs -> %s" % (
        pid, tier, seed, tot["evaluations"], len(hashes), tot["skipped"], time.time() - t0,
        "VIOLATION" if new_violations else ("BROKEN" if broken else "ok")))
    sys.exit(1 if new_violations else (2 if broken else 0))


if __name__ == "__main__":
    main()
