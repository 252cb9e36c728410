"""Shows that one seed is one execution: run digests across worker counts, processes and hash seeds.

python -m dst.determinism [runs] [property ...]
"""
import importlib
import json
import os
import subprocess
import sys

from . import boot, runner


def digests(prop, seed, n, width):
    mod = importlib.import_module("dst.props.%s" % prop.lower())
    pool = runner.Pool(mod, width=width)
    res = pool.many([runner.generate(mod, prop, seed, i, "quick") for i in range(n)])
    return [r.get("digest") or ("skip" if "skip" in r else "error") for r in res]


def main():
    if sys.argv[1] == "--child":
        boot.boot()
        boot.warm()
        props, seed, n, width = json.loads(sys.argv[2])
        print(json.dumps({p: digests(p, seed, n, width) for p in props}))
        return 0
    n = int(sys.argv[1])
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 18)]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    got = []
    for width, hashseed in ((8, "0"), (3, "0"), (8, "4711")):
        out = subprocess.run([sys.executable, "-m", "dst.determinism", "--child", json.dumps([props, seed, n, width])],
                             cwd=runner.ROOT, env=dict(os.environ, PYTHONHASHSEED=hashseed), capture_output=True, text=True)
        if out.returncode:
            print(out.stderr[-3000:])
            return 2
        got.append(json.loads(out.stdout.splitlines()[-1]))
    bad = 0
    for p in props:
        same = sum(1 for a, b, c in zip(*(g[p] for g in got)) if a == b == c)
        diff = [i for i, (a, b, c) in enumerate(zip(*(g[p] for g in got))) if not a == b == c]
        bad += len(diff)
        print("%s: %d of %d runs identical in 3 processes (8 and 3 workers, two hash seeds)%s" % (
            p, same, n, " - differing: %s" % diff if diff else ""))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
