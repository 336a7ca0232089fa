#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough] [--replay FILE] [--seed N]

Decides one property. Exit 0: held on everything explored. Exit 1 and a VIOLATION
line: broken. Exit 2: the check itself could not decide (harness error)."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.path.realpath(os.environ.get("VERIF_DEV_REPO", "/repo"))
DEADLINE = {"quick": 800, "thorough": 6 * 3600}


def environment(scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("PYTHON"):
            del env[k]
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               PYTHONPATH=REPO + os.pathsep + HERE,
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE",
               VSCRATCH=scratch, TMPDIR=scratch)
    return env


def load(pid):
    import importlib
    sys.path.insert(0, HERE)
    mod = importlib.import_module("checks." + pid.lower())
    import discorpy
    path = os.path.realpath(list(discorpy.__path__)[0])
    assert path.startswith(REPO + "/"), "wrong discorpy: " + path
    return mod.P


def worker(a):
    import vlib
    prop = load(a.property)
    os.chdir(os.environ["VSCRATCH"])
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        sub = prop.get(rep["sub"])
        if rep.get("reproduces_alone", True):
            msg = vlib.run_case(sub, rep["case"], vlib.Ev())
        else:
            r = vlib.run_sub(sub, rep["seed"], rep["n"], rep["shard"])
            msg = r["violation"] and r["violation"]["message"]
        json.dump({"message": msg}, open(a.out, "w"))
        return 0
    res = vlib.run_sub(prop.get(a.worker), a.seed, a.n, a.shard)
    with open(a.out, "w") as f:
        json.dump(res, f)
    return 0


def spawn(scratch, args):
    d = tempfile.mkdtemp(dir=scratch)
    err = open(os.path.join(d, "err"), "w")
    out = os.path.join(d, "out.json")
    p = subprocess.Popen([PY, os.path.join(HERE, "run.py")] + args
                         + ["--out", out], cwd=d, env=environment(d),
                         stdout=err, stderr=err, stdin=subprocess.DEVNULL)
    return p, d, out


def known(pid):
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return []
    return [ln for ln in open(path)
            if ln.startswith("finding: property=%s " % pid)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--only", help="run just this sub-check (development)")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.out:
        return worker(a)
    pid = a.property
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if a.replay:
            p, d, out = spawn(scratch, [pid, "--replay",
                                        os.path.abspath(a.replay)])
            p.wait()
            if not os.path.exists(out):
                sys.stdout.write(open(os.path.join(d, "err")).read())
                return 2
            msg = json.load(open(out))["message"]
            if msg:
                print(msg)
                print("VIOLATION property=%s replay=%s" % (pid, a.replay))
                return 1
            print("replay passes")
            return 0
        return drive(a, pid, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(a, pid, t0, scratch):
    os.environ.update({k: v for k, v in environment(scratch).items()
                       if k in ("MPLBACKEND", "MPLCONFIGDIR",
                                "OPENBLAS_NUM_THREADS", "TMPDIR")})
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.path.insert(0, REPO)
    prop = load(pid)
    jobs = []
    for s in prop.subs:
        if a.only and s.name != a.only:
            continue
        n = s.quick if a.tier == "quick" else s.thorough
        if a.n:
            n = a.n
        shards = s.shards if a.tier == "quick" else max(s.shards, 4)
        shards = max(1, min(shards, n))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            jobs.append((s, k, m))
    running, results, errors = [], [], []
    jobs.reverse()
    ncpu = min(8, os.cpu_count() or 1)
    while jobs or running:
        while jobs and len(running) < ncpu:
            s, k, m = jobs.pop()
            p, d, out = spawn(scratch, [pid, "--worker", s.name, "--seed",
                                        str(a.seed), "--n", str(m),
                                        "--shard", str(k)])
            running.append((p, d, out, s, k, m))
        time.sleep(0.02)
        for r in list(running):
            p, d, out, s, k, m = r
            if p.poll() is None:
                continue
            running.remove(r)
            if p.returncode == 0 and os.path.exists(out):
                res = json.load(open(out))
                res["n"] = m
                results.append(res)
            else:
                errors.append("%s/%d: exit %s\n%s" % (
                    s.name, k, p.returncode,
                    open(os.path.join(d, "err")).read()[-3000:]))
            shutil.rmtree(d, ignore_errors=True)
        if time.time() - t0 > DEADLINE.get(a.tier, 800):
            for r in running:
                r[0].kill()
                errors.append("%s/%d: out of time, inconclusive"
                              % (r[3].name, r[4]))
            for r in running:
                r[0].wait()
            running, jobs = [], []
    viol = [r for r in results if r["violation"]]
    order = {s.name: i for i, s in enumerate(prop.subs)}
    viol.sort(key=lambda r: (order[r["sub"]], r["shard"]))
    lines = []
    rdir = os.path.join(HERE, "replays")
    for r in viol:
        os.makedirs(rdir, exist_ok=True)
        v = r["violation"]
        name = "%s-%s-%d.json" % (pid, r["sub"], r["shard"])
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": r["sub"], "case": v["case"],
                       "message": v["message"], "source": v["source"],
                       "reproduces_alone": v["reproduces_alone"],
                       "first_case": v["first_case"], "seed": a.seed,
                       "n": r["n"], "shard": r["shard"]}, f, indent=1)
        lines.append((r["sub"], v, path))
    evidence(a, pid, prop, results, errors, len(viol), time.time() - t0)
    for ln in known(pid):
        print("KNOWN-FINDING: " + ln[len("finding: "):].strip())
    nt = sum(len(set(r["nontrivial"])) for r in results)
    print("%s %s seed=%d: %d cases, %d non-trivial, %d sub-checks, %.1f s" % (
        pid, a.tier, a.seed, sum(r["evaluations"] for r in results), nt,
        len({r["sub"] for r in results}), time.time() - t0))
    if a.v:
        for r in sorted(results, key=lambda r: (order[r["sub"]], r["shard"])):
            print("  %-40s %d: %5d cases %5d nt %6.1f s  %s" % (
                r["sub"], r["shard"], r["evaluations"], len(r["nontrivial"]),
                r["wall_s"], json.dumps(r["labels"], sort_keys=True)))
    if viol:
        for name, v, path in lines:
            print("--- %s: %s" % (name, v["message"].strip()[:1500]))
            print("    case (%s): %s" % (v["source"],
                                         json.dumps(v["case"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors))
        return 2
    return 0


def evidence(a, pid, prop, results, errors, nviol, wall):
    subs, samples, rules = {}, [], []
    distinct = set()
    for r in results:
        s = subs.setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(),
                                       "labels": {}})
        s["evaluations"] += r["evaluations"]
        s["nontrivial"] |= set(r["nontrivial"])
        distinct |= {r["sub"] + h for h in r["nontrivial"]}
        for k, v in r["labels"].items():
            s["labels"][k] = s["labels"].get(k, 0) + v
        if r["shard"] == 0:
            samples += [{"sub": r["sub"], "case": c} for c in r["samples"][:2]]
    for s in prop.subs:
        if s.name in subs:
            rules.append("%s: %s" % (s.name, s.rule or "every case counts"))
    for k in subs:
        subs[k]["nontrivial"] = len(subs[k]["nontrivial"])
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough")
          else "quick", "seed": a.seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(r["evaluations"] for r in results),
              "distinct_nontrivial": len(distinct),
              "rule": "Cases are drawn by Hypothesis from the strategy of each "
                      "sub-check (seeded by VERIF_SEED) after its saved "
                      "examples; non-trivial per sub-check -- "
                      + "; ".join(rules),
              "samples": samples[:24],
              "sub_checks": subs,
              "harness_errors": len(errors)},
          "assumptions": getattr(sys.modules["checks." + pid.lower()],
                                 "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
