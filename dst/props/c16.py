"""C16: training is reproducible whatever else happens in the process."""
import gc
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import core, zoo
from . import calls
from . import common as cm
from . import smooth_zoo as sz

RUNS = {"quick": 1800, "thorough": 40000}
RULE = ("seeded: training (estimator, binning, quantile chain, smoother, interaction selection) x interference at drawn steps "
        "of it (global random generators reseeded or drawn from, garbage collection, allocations, trainings of others) x what "
        "the process did before; or the same trainings in a fresh process with another hash seed; results compared bit by "
        "bit; distinct = different training and interference; non-trivial = interference took place")
REAL = cm.REAL
STUB = ["the random generators' state, the wall clock, the garbage collector and the hash seed are under the simulator's control"]
ASSUME = cm.ASSUME + ["numerical libraries run single-threaded and give identical bits for identical calls"]
EXACT = dict(rtol=0.0, atol=0.0)


def gen_training(rng, p_slow=0.15):
    k = rng.random()
    if k < 0.75:
        c = {"what": "fit", "spec": zoo.any_spec(rng, p_other=0.2, kinds=zoo.FAST * 5 + zoo.SLOW, n=(24, 50), iters=(1, 4)),
             "obs": rng.choice([None, None, -1])}
        if c["spec"]["kind"] in ("qpdS", "qpdB") and rng.random() < 0.6:
            c["spec"] = zoo.gen_spec(rng, kinds=zoo.FAST, n=(24, 50), iters=(1, 4))
        s = c["spec"]
        if s["kind"] in zoo.FAST and s["kind"] != "exponential" and not s.get("nogroups") and rng.random() < 0.08:
            s["groups"] = s["groups"] + [s["groups"][0]]  # a group named twice
        if c["spec"].get("form") == "pipe" and c["spec"].get("cols") and rng.random() < 0.3:
            c["long"] = True
        return c
    if k < 0.9:
        return {"what": "smoother", "sm": sz.gen(rng), "predict": False}
    return calls.gen(rng, kinds=["select"])


def gen_defaults(rng):
    """A training that leaves as much as possible to defaults derived from the data."""
    c = gen_training(rng)
    s = c.get("spec", {})
    if c["what"] == "fit" and s["kind"] in ("poisson", "location", "classifier", "nbinom") and s["form"] != "numpy" and \
            not s.get("hier") and rng.random() < 0.5:
        feats = [f for f in s["cols"] if f not in ("w", "pr")]
        s.update(nogroups=True, groups=[[f] for f in feats], weight=True, prior=True, cols=feats + ["w", "pr"])
    return c


def generate(rng, tier):
    if rng.random() < 0.022:
        return {"mode": "process", "hash": rng.choice([1, 2, 7, 42, 1234, 4242, 99991]), "warm": rng.random() < 0.5,
                "ops": [gen_defaults(rng) for _ in range(8)]}
    case = {"mode": "interfere", "call": gen_training(rng), "every": rng.choice([1, 3, 10, 40, 200]),
            "iseed": rng.randrange(1 << 30), "before": [], "kinds": sorted(rng.sample(
                ["seed", "draw", "pyseed", "gc", "alloc", "gcoff", "same", "clock"], rng.randrange(1, 4)))}
    for _ in range(rng.choice([0, 0, 1, 2])):
        case["before"].append(rng.choice(["other", "same", "fail", "plot", "seed", "gc"]))
    if "other" in case["before"]:
        case["other"] = gen_training(rng)
    return case


def result(c):
    """Run the training in fresh objects and return everything observable about it."""
    fn, after = calls.build(c)
    v = zoo.safe(fn)
    return {"value": v, "after": None if after is None or (isinstance(v, dict) and "raises" in v) else zoo.safe(after)}


def digest(v):
    h = hashlib.sha256()

    def walk(x):
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                walk(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for e in x:
                walk(e)
        elif isinstance(x, np.ndarray) and x.dtype != object:
            h.update(str((x.dtype.kind, x.shape)).encode())
            h.update(np.ascontiguousarray(x, dtype=float).tobytes())
        elif isinstance(x, (float, np.floating)):
            h.update(np.float64(x).tobytes())
        else:
            h.update(repr(x.tolist() if hasattr(x, "tolist") else x).encode())

    walk(v)
    return h.hexdigest()


class Noise:
    """Interference at every n-th step; the drawn sequence is part of the seed."""

    def __init__(self, case):
        self.r = random.Random(case["iseed"])
        self.case = case
        self.n = 0
        self.fired = {}
        self.keep = []
        self.off = False

    def __call__(self, call, code, where):
        self.n += 1
        if self.n % self.case["every"]:
            return
        k = self.r.choice(self.case["kinds"])
        if k == "gc" and self.fired.get(k, 0) >= 40:
            return
        self.fired[k] = self.fired.get(k, 0) + 1
        if k == "seed":
            np.random.seed(self.r.randrange(2**32))
        elif k == "same":
            np.random.seed(0)
        elif k == "draw":
            np.random.rand(3)
        elif k == "pyseed":
            random.seed(self.r.randrange(2**32))
        elif k == "gc":
            gc.collect(0)
        elif k == "alloc":
            self.keep.append([bytearray(self.r.randrange(16, 4096)) for _ in range(4)])
            if len(self.keep) > 50:
                self.keep = self.keep[25:]
        elif k == "clock":
            core.Clock.now += self.r.choice([1e-6, 0.5, 3600.0, 86400.0 * 400, -7200.0])
        elif k == "gcoff":
            (gc.enable if self.off else gc.disable)()
            self.off = not self.off


def execute(case, rep):
    if case["mode"] == "process":
        return process(case, rep)
    c = case["call"]
    core.Clock.now = 1.7e9
    np.random.seed(12345)
    random.seed(12345)
    ref = result(c)
    if isinstance(ref["value"], dict) and "raises" in ref["value"]:
        raise cm.Skip("training fails: %s" % ref["value"]["raises"])
    for b in case["before"]:
        if b == "other":
            zoo.safe(result, case["other"])
        elif b == "same":
            zoo.safe(result, c)
        elif b == "fail":
            fn, _ = calls.build(c)
            core.solo(fn, "fail", faults={1 + case["iseed"] % 60: "KeyboardInterrupt"})
        elif b == "plot":
            zoo.safe(lambda: calls.build({"what": "plot", "plot": "iteration", "spec": zoo.gen_spec(
                random.Random(7), kinds=["poisson"], forms=("direct",))})[0]())
        elif b == "seed":
            np.random.seed(case["iseed"] % 2**32)
            random.seed(case["iseed"])
        else:
            gc.collect()
    fn, after = calls.build(c)
    noise = Noise(case)
    core.Clock.now = 1.0e9 + case["iseed"]
    np.random.seed(case["iseed"] % 2**32)
    random.seed(case["iseed"])
    try:
        o = core.solo(fn, "train", hook=noise, limit=20000000)
    finally:
        gc.enable()
    rep.outcome(o)
    for k, n in noise.fired.items():
        rep.fault("interfere-" + k, n)
    if noise.fired or case["before"]:
        rep.parts.append("%s/%s/%d/%s" % (calls.label(c), case["kinds"], case["every"], case["before"]))
    rep.resolved = dict(case)
    if o.kind != "ok":
        rep.violation("outcome", "%s under interference %s: %s" % (calls.label(c), case["kinds"], o.describe()))
        return
    got = {"value": o.value, "after": None if after is None else zoo.safe(after)}
    d = zoo.diff(ref, got, "", **EXACT)
    if d:
        rep.violation("differs", "%s under interference %s after %s: %s" % (calls.label(c), case["kinds"], case["before"], d))


def process(case, rep):
    """The same trainings in this process and in a fresh one with another hash seed."""
    here = [digest(result(c)) for c in case["ops"]]
    env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]))
    spec = json.dumps({"ops": case["ops"], "reverse": case["warm"]})
    p = subprocess.run([sys.executable, "-m", "dst.props.c16_child"], input=spec, capture_output=True, text=True, env=env,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), timeout=400)
    if p.returncode != 0:
        raise RuntimeError("child process failed: " + p.stderr[-1500:])
    there = json.loads(p.stdout.strip().splitlines()[-1])
    rep.fault("fresh-process-hash-seed", len(here))
    rep.probe("trainings_in_fresh_processes", len(here))
    rep.parts.append("process/%d/%s" % (case["hash"], here))
    rep.resolved = dict(case)
    for c, a, b in zip(case["ops"], here, there):
        if a != b:
            rep.violation("process", "%s: fresh process with hash seed %d gives another result" % (calls.label(c), case["hash"]))
            return


def simplify(case):
    out = []
    if case["mode"] == "interfere":
        if case["before"]:
            out.append(dict(case, before=[]))
        for k in case["kinds"]:
            if len(case["kinds"]) > 1:
                out.append(dict(case, kinds=[k]))
        out += [dict(case, call=c) for c in cm.simplify_spec(case["call"])]
    return out
