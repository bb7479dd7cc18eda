"""python -m symx.show FILE: replay a recorded counterexample on the real package."""
import json
import sys

from symx.runner import replay

d = json.load(open(sys.argv[1]))
r = replay([dict(id="x", module=d["module"], harness=d["harness"],
                 inputs={k: float(v) if isinstance(v, str) else v for k, v in d["inputs"].items()})])
print(json.dumps(r, indent=1))
sys.exit(1 if r["x"]["failed"] or r["x"]["exc"] else 0)
