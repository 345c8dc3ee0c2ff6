"""Runs harness instances on the unmodified komm with concrete inputs.

usage: replay.py FILE        FILE: one case (a violation replay) or {"cases": [...]}
With one case: prints what failed; exit 1 if the violation is reproduced, 0 if not.
"""
import importlib
import json
import os
import signal
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from symex import reg  # noqa: E402
from symex.ctx import RealCtx, Unmet  # noqa: E402


class Slow(BaseException):
    pass


def alarm(*a):
    raise Slow


def load(pid):
    import propindex
    importlib.import_module("props." + propindex.MODULE[pid])
    return reg.PROPS[pid]


def one(case, known, limit=60):
    import copy
    inst = load(case["property"]).insts[case["instance"]]
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    out = {"failed": [], "obs": [], "exception": None, "unmet": False, "slow": False}
    try:
        ctx = RealCtx(case["assignment"], known)
        try:
            objs = inst.setup() if inst.setup else ()
            objs = objs if isinstance(objs, tuple) else (objs,)
            inst.run(ctx, *objs)
        except Unmet:
            out["unmet"] = True
        except Exception as e:
            out["exception"] = type(e).__name__
            out["message"] = str(e)[:500]
            out["failed"].append("exception:" + type(e).__name__)
        out["failed"] += ctx.failed
        out["labels"] = ctx.labels
        out["obs"] = ctx.obs
    except Slow:
        out["slow"] = True
    finally:
        signal.alarm(0)
    return out


def main():
    data = json.load(open(sys.argv[1]))
    known = data.get("known", [])
    if "cases" in data:
        json.dump([one(c, known) for c in data["cases"]], sys.stdout)
        return 0
    out = one(data, known, limit=300)
    print(json.dumps(out, indent=1))
    hit = out["failed"] or (out["slow"] and data.get("label") == "hang")
    print("REPRODUCED" if hit else "NOT REPRODUCED")
    return 1 if hit else 0


if __name__ == "__main__":
    sys.exit(main())
