"""Worker process: python shard.py <ID> <seed> <shard> <out.json>   |   python shard.py --replay <ID> <file>"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core  # noqa: E402

sys.path.insert(0, core.RESEARCH)
sys.setrecursionlimit(1000)


def main():
    if sys.argv[1] == "--replay":
        module = importlib.import_module("checks." + sys.argv[2].lower())
        rep = json.load(open(sys.argv[3]))
        sub = next(s for s in module.SUBS if s.name == rep["sub"])
        case = eval(rep["case"], {"__builtins__": {}, "frozenset": frozenset, "set": set})
        _, bad = core.run_case(sub, case)
        print(f"replay of {rep['property']}/{rep['sub']}: " + ("VIOLATED: " + bad if bad else "holds"))
        sys.exit(1 if bad else 0)
    pid, seed, shard, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    module = importlib.import_module("checks." + pid.lower())
    core.Shard(module, seed, shard, out).run()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
