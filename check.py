#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property (exit 0 held, 1 VIOLATION, 2 tool error)
check.py replay FILE             re-runs a recorded violation against the current tree
check.py setup                   builds the harness
check.py list                    lists the properties that have a check"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import engine  # noqa: E402
import registry  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if sys.argv[1] == "list":
        print("\n".join(sorted(registry.CHECKS)))
        return 0
    try:
        if sys.argv[1] == "setup":
            print(engine.build_harness())
            return 0
        if sys.argv[1] == "replay":
            r = json.load(open(sys.argv[2]))
            r["path"] = os.path.abspath(sys.argv[2])
            return engine.run(registry.CHECKS[r["property"]], "quick", seed, replay=r)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return engine.run(registry.CHECKS[sys.argv[1]], tier, seed)
    except engine.ToolError as e:
        print("TOOL ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
