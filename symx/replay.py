"""python -m symx.replay FILE: re-runs a recorded counterexample on the plain code; exit 1 when it reproduces"""
import json
import sys

from symx import worker


def main():
    r = json.load(open(sys.argv[1]))
    out = worker.run_one(dict(mod=r["mod"], fn=r["fn"], cfg=r["cfg"], inputs=r["inputs"]))
    print(json.dumps(out, indent=1))
    return 1 if (out["failed"] or out["exc"]) else 0


if __name__ == "__main__":
    sys.exit(main())
