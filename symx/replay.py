"""Runs a harness concretely on the ordinary package (no symbolic parts).

stdin: JSON list of jobs {id, module, harness, params, inputs, expect}
stdout (last line): JSON list of outcomes.
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, REPO)
import logging  # noqa
import warnings  # noqa

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np  # noqa


def run_one(job):
    import importlib

    from symx.harness import AssumeFailed, ConH

    mod = importlib.import_module(job["module"])
    hs = {h.name: h for h in mod.harnesses("thorough") + mod.harnesses("quick")}
    hn = hs[job["harness"]]
    h = ConH(job["inputs"])
    out = dict(id=job["id"], failed=[], exc=None, assume=False, obs=[], mismatch=[])
    try:
        with np.errstate(all="ignore"):
            hn.fn(h, **hn.params)
    except AssumeFailed:
        out["assume"] = True
        out["failed"] = list(h.failed)
        return out
    except KeyError as ex:
        if str(ex).strip("'") in job["inputs"]:
            raise
        out["exc"] = "KeyError: %s" % ex
        out["tb"] = traceback.format_exc()[-1500:]
    except Exception as ex:
        out["exc"] = "%s: %s" % (type(ex).__name__, str(ex)[:300])
        out["tb"] = traceback.format_exc()[-1500:]
    if out["exc"] and out["exc"].split(":")[0] in ("AttributeError", "TypeError", "NameError", "ImportError",
                                                   "ModuleNotFoundError") and REPO not in out["tb"]:
        out["harness_error"], out["exc"] = out["exc"], None
    out["failed"] = h.failed
    flat = []
    for name, v in h.obs:
        if hasattr(v, "values") and not isinstance(v, dict):
            v = v.values
        if isinstance(v, np.ndarray):
            items = list(v.flat)
        elif isinstance(v, (list, tuple)):
            items = list(v)
        else:
            items = [v]
        for i, x in enumerate(items):
            flat.append(("%s[%d]" % (name, i), x))
    exp = job.get("expect")
    if exp is not None and out["exc"] is None:
        if len(exp) != len(flat):
            out["mismatch"].append("observed %d values, expected %d" % (len(flat), len(exp)))
        else:
            for (n1, e), (n2, v) in zip(exp, flat):
                if e is None:
                    continue
                if isinstance(v, (bool, np.bool_)) or isinstance(e, bool):
                    ok = bool(v) == bool(e)
                elif isinstance(v, (int, float, np.number)) and isinstance(e, (int, float)):
                    fv, fe = float(v), float(e)
                    ok = (fv != fv and fe != fe) or fv == fe or abs(fv - fe) <= 1e-5 * (1 + abs(fe))
                else:
                    ok = str(v) == str(e)
                if not ok:
                    out["mismatch"].append("%s: model %r, real %r" % (n1, e, str(v)))
    out["obs"] = [(n, _js(v)) for n, v in flat[:40]]
    return out


def _js(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    return str(v)[:80]


def _num(x):
    if isinstance(x, str):
        return float(x)
    return x


def main():
    jobs = json.load(sys.stdin)
    res = []
    for j in jobs:
        j["inputs"] = {k: _num(v) for k, v in j["inputs"].items()}
        if j.get("expect") is not None:
            j["expect"] = [(n, float(v) if v in ("nan", "inf", "-inf") else v) for n, v in j["expect"]]
        res.append(run_one(j))
    sys.stdout.write("\n" + json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
