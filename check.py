#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: runs the monitors of one property against /repo's working tree.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import json, os, shutil, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import build as B
from vlib import run as R
from vlib.checks import CHECKS


def known_findings():
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        fields = dict(w.split("=", 1) for w in line[len("finding:"):].split(" -- ")[0].split() if "=" in w)
        out[(fields["property"], fields["key"])] = line.split(" -- ", 1)[1] if " -- " in line else ""
    return out


def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    repo = B.repo()
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        only = json.load(open(sys.argv[3]))
        seed, tier = only["seed"], only["tier"]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        jobs = spec.jobs(tier)
        if only:
            jobs = [j for j in jobs if (j.harness, j.variant, j.mode) == (only["harness"], only["build"], only["mode"])]
        exes = B.build([(j.harness, j.variant) for j in jobs])
        if only:
            res = R.Result()
            for j in jobs:
                R.run_shard(exes[j.harness, j.variant], j, prop, seed, tier, 0, scratch, repo, res, only=only["case"])
        else:
            res = R.run_jobs(jobs, exes, prop, seed, tier, scratch, repo)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings()
    seen_known, fresh = {}, []
    for v in res.viols:
        if (prop, v["key"]) in known:
            seen_known.setdefault(v["key"], v)
        else:
            fresh.append(v)
    for key in seen_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[prop, key]))
    for n in res.notes:
        print("note:", n)

    stats = dict(sorted(res.stats.items()))
    missing = []
    if not only and not fresh and not stats.get("cut_short"):
        missing = ["%s=%d, expected at least %d" % (k, stats.get(k, 0), v) for k, v in spec.minimum.items() if stats.get(k, 0) < v]

    if not only:
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": int(stats.get("evaluations", 0)), "distinct_nontrivial": len(res.sigs), "rule": spec.rule,
                "samples": res.samples or ["none"], "observed": stats,
                "builds": sorted(set("%s/%s%s" % (j.harness, j.variant, ":" + j.mode if j.mode else "") for j in jobs)),
                "known_findings_seen": sorted(seen_known), "notes": res.notes,
            },
            "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        shown = set()
        for v in fresh:
            if v["key"] in shown:
                continue
            shown.add(v["key"])
            name = "%s-%s-%d.json" % (prop, "".join(c if c.isalnum() else "_" for c in v["key"])[:60], seed)
            path = os.path.join(HERE, "replays", name)
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "harness": v["job"].harness, "build": v["job"].variant,
                           "mode": v["job"].mode, "case": v["case"], "key": v["key"], "detail": v["detail"]}, f, indent=1)
            print("%s: %s" % (v["key"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            if len(shown) >= 5:
                break
        return 1
    if missing:
        print("too little observed:", "; ".join(missing))
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial, %.1f s (%s, seed %d)" %
          (prop, stats.get("evaluations", 0), len(res.sigs), time.time() - t0, tier, seed))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except (B.BuildError, R.HarnessFailure) as e:
        print("check failed: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
