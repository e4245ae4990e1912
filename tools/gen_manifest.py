"""Writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "stateful property-based testing against a reference builder",
 "C02": "property-based testing: equality/hash laws and snapshots of finished objects along operation histories",
 "C03": "property-based round-trip testing",
 "C04": "property-based differential testing against set semantics",
 "C05": "property-based differential testing against a breadth first reference",
 "C06": "property-based metamorphic testing against a reference rewrite",
 "C07": "property-based differential testing of joins, with state comparison after refusals",
 "C08": "stateful model-based testing (multiset model) and algebraic laws",
 "C09": "property-based differential testing against a union-find reference",
 "C10": "property-based differential and metamorphic testing",
 "C11": "property-based differential testing against a relational natural join, over orders and hash seeds",
 "C12": "property-based differential testing against exact enumeration of Bayesian / Markov networks",
 "C13": "property-based differential testing against a relational inner join",
 "C14": "property-based differential testing against exact counting",
 "C15": "property-based differential testing against a reference split",
 "C16": "property-based differential testing against exhaustive enumeration and a closed formula",
 "C17": "property-based differential testing against exact weights",
 "C18": "stateful model-based testing of the network builder",
 "C19": "property-based testing: the written page is parsed and compared with a reference drawing",
 "C20": "model-based testing of game histories against a reference simulator",
 "C21": "stateful testing: snapshots of all states of a branching history, copies and replays",
 "C22": "property-based round-trip and differential testing of boards, layout files and grids",
 "C23": "stateful model-based testing of containers and counters; seeded differential testing of sampling",
 "C24": "property-based differential testing of players along generated games; frequency test of choices",
 "C25": "model-based testing of whole games with fault injection",
 "C26": "model-based testing of the display on a recording canvas, along generated games",
 "C27": "stateful model-based testing of input events and questions, in generated orders of delivery",
 "C29": "property-based testing of the examples on generated texts against direct counting; exhaustive small graphs",
 "C30": "property-based testing of the experiments on generated tables against exact fractions; stand-in for generating",
 "C28": "property-based testing of generated command lines against a reference interpretation, with invalid ones",
}
NOTE = ("Every generated case is decided by an independent reference (harness/ref*.py) computed from the case alone; "
        "shows the property on the explored inputs (sizes in DESIGN.md), not for all; trusts the reference, Hypothesis "
        "and the Python runtime.")
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append({"property": i, "quick_cmd": f"python3 harness/run.py {i} --tier quick",
                   "thorough_cmd": f"python3 harness/run.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": T[i], "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
