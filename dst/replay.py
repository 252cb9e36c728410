"""Replay a recorded violation: python -m dst.replay FILE  (exit 1 if it reproduces)."""
import importlib
import json
import sys

from . import boot, runner


def main(path):
    d = json.load(open(path))
    boot.boot()
    mod = importlib.import_module("dst.props.%s" % d["property"].lower())
    if hasattr(mod, "warm"):
        mod.warm()
    else:
        boot.warm(getattr(mod, "WARM", None))
    res = runner.Pool(mod, limit=getattr(mod, "LIMIT", 150.0)).one(d["case"])
    if res.get("v") and res["v"]["cls"] == d["class"]:
        print("reproduced: class=%s: %s" % (res["v"]["cls"], res["v"]["msg"]))
        for n in res.get("notes") or []:
            print("  " + n)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced: %s" % (res.get("v") or res.get("error") or "property held"))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
