"""python -m vf.replay <replay.json>: run a reported violation on the compiled package."""
import json
import sys

from .run import Real


def main():
    rec = json.load(open(sys.argv[1]))
    r = Real(rec["property"], [])
    a = r.ask(dict(harness=rec["harness"], cfg=rec["cfg"], inputs=[rec["inputs"]]))
    r.close()
    print(json.dumps(a, indent=1))
    sys.exit(1 if a and a["status"] == "fail" else 0)


if __name__ == "__main__":
    main()
