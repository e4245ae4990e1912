#!/usr/bin/env python3
"""Entry point of every check:  python3 harness/run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1 and a line "VIOLATION property=.. replay=..": it is broken.
Exit 2: the check itself failed (never a verdict).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def env_for(hashseed, tier):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", VERIF_TIER=tier, BROWSER="true",
             PYTHONPATH="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


def load_known():
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["status"] == "open":
                    known.setdefault(d["property"], []).append(d)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    if a.replay:
        rep = json.load(open(a.replay))
        r = subprocess.run([PY, os.path.join(HERE, "shard.py"), "--replay", a.property, a.replay],
                           env=env_for(rep.get("hashseed") or 0, a.tier), cwd=tempfile.gettempdir())
        if r.returncode == 1:
            print(f"VIOLATION property={a.property} replay={a.replay}")
        sys.exit(r.returncode)

    n_shards = a.shards or (16 if a.tier == "thorough" else 8)
    scratch = tempfile.mkdtemp(prefix=f"verif_{a.property}_")
    code = 2
    try:
        code = explore(a, seed, n_shards, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def explore(a, seed, n_shards, scratch, t0):
    outs, running, todo, failed_at = {}, {}, list(range(n_shards)), None
    results = {}
    errors = []
    while todo or running:
        while todo and len(running) < 8:
            i = todo.pop(0)
            out = os.path.join(scratch, f"shard{i}.json")
            work = os.path.join(scratch, f"work{i}")
            os.makedirs(work)
            hs = i if i < 8 else (seed * 1000003 + i * 7919) % 4294967295
            log = open(os.path.join(scratch, f"log{i}"), "w")
            running[i] = subprocess.Popen(
                [PY, os.path.join(HERE, "shard.py"), a.property, str(seed), str(i), out],
                env=env_for(hs, a.tier), cwd=work, stdout=log, stderr=log, stdin=subprocess.DEVNULL)
            outs[i] = (out, hs)
        for i, pr in list(running.items()):
            if pr.poll() is not None:
                del running[i]
                try:
                    results[i] = json.load(open(outs[i][0]))
                except Exception:
                    errors.append(f"shard {i} ended with code {pr.returncode} and no result:\n"
                                  + open(os.path.join(scratch, f"log{i}")).read()[-3000:])
                    continue
                if results[i]["error"]:
                    errors.append(f"shard {i}: {results[i]['error']}")
                if results[i]["failure"] and failed_at is None:
                    failed_at = time.time()
        if failed_at is not None:
            todo.clear()
            if time.time() - failed_at > 5:
                for pr in running.values():
                    pr.kill()
                for pr in running.values():
                    pr.wait()
                running.clear()
        time.sleep(0.02)

    failures = [r["failure"] for r in results.values() if r["failure"]]
    failures.sort(key=lambda f: (len(f["case"]), f["case"]))
    rule = next((r["rule"] for r in results.values() if r.get("rule")), "")
    hashes, tags, per_sub, samples = set(), {}, {}, []
    for r in results.values():
        hashes.update(r["hashes"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in r["per_sub"].items():
            d = per_sub.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            d["evaluations"] += v["evaluations"]
            d["nontrivial"] += v["nontrivial"]
        samples.extend(r["samples"][:4])
    ev = {
        "property": a.property, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results.values()),
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:12],
            "per_check": per_sub,
            "classes": dict(sorted(tags.items())),
            "hash_seeds": sorted({hs for _, hs in outs.values()}),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
        "assumptions": ["the reference models under /verif/harness are right",
                        "inputs outside the generated sizes behave like those inside"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if failures:
        best = failures[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{a.property}-{best['sub']}.json")
        with open(path, "w") as f:
            json.dump({"property": a.property, **best}, f, indent=1)
        print(f"{a.property}/{best['sub']} failed: {best['message']}")
        print(f"minimal case: {best['case'][:3000]}")
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if errors or not results:
        print("CHECK ERROR (no verdict):\n" + "\n".join(errors)[:6000], file=sys.stderr)
        return 2
    for line in known_findings(a):
        print(line)
    c = ev["coverage"]
    print(f"{a.property} held: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{ev['wall_s']} s")
    return 0


def known_findings(a):
    """Re-runs the listed open findings: prints a line for each that still fails"""
    lines = []
    for k in load_known().get(a.property, []):
        r = subprocess.run([PY, os.path.join(HERE, "known.py"), k["id"]], env=env_for(0, a.tier),
                           capture_output=True, text=True, cwd=tempfile.gettempdir())
        if r.returncode == 1:
            lines.append(f"KNOWN-FINDING: property={a.property} {k['what']}")
        elif r.returncode != 0:
            print(f"known finding {k['id']} could not be re-run: {r.stderr[-500:]}", file=sys.stderr)
    return lines


if __name__ == "__main__":
    main()
