"""C06: process-wide settings survive every call, completed or failed."""
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import matplotlib
import numexpr
import numpy as np
import pandas as pd
import sklearn

from .. import core, zoo
from . import calls
from . import common as cm

RUNS = {"quick": 1800, "thorough": 40000}
RULE = ("seeded: caller's (unusual) process-wide settings x one call of any kind aborted at a drawn line or 2-3 "
        "overlapping trainings/requests under a drawn schedule; distinct = different call, fault site or schedule; "
        "non-trivial = a fault fired or calls overlapped")
REAL = cm.REAL + ["random, warnings, logging, matplotlib rc machinery, pandas options"]
STUB = cm.STUB_SCHED
ASSUME = cm.ASSUME

def _loggers():
    out = {"root": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)}
    for n, lg in sorted(logging.root.manager.loggerDict.items()):
        if isinstance(lg, logging.Logger) and n.startswith(("cyclic_boosting", "matplotlib", "numba", "user")):
            out[n] = (lg.level, len(lg.handlers), lg.propagate, lg.disabled, len(lg.filters))
    return out


def _pandas_options():
    from pandas._config import config

    out = {}

    def walk(d, p):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, p + k + ".")
            else:
                out[p + k] = repr(v)

    walk(config._global_config, "")
    return out


def snapshot():
    st = np.random.get_state()
    return {
        "random": hash(random.getstate()),
        "np.random": [st[0], st[1].copy(), st[2], st[3], st[4]],
        "warnings.filters": [repr(f) for f in warnings.filters],
        "warnings.showwarning": (id(warnings.showwarning), id(warnings.formatwarning)),
        "np.printoptions": repr(np.get_printoptions()),
        "rcParams": {k: repr(v) for k, v in matplotlib.rcParams.items() if k != "backend"},
        "mpl": [matplotlib.get_backend(), matplotlib.is_interactive(), sorted(matplotlib.colormaps)],
        "pandas": _pandas_options(),
        "logging": {k: repr(v) for k, v in _loggers().items()},
        "sklearn": repr(sorted(sklearn.get_config().items())),
        "environ": {k: v for k, v in os.environ.items()},
        "cwd": os.getcwd(),
        "signals": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "sys": [sys.getrecursionlimit(), id(sys.stdout), id(sys.stderr), id(sys.excepthook), sys.getswitchinterval(),
                repr(sys.gettrace()), repr(sys.getprofile()), len(sys.path)],
        "gc": [gc.isenabled(), list(gc.get_threshold()), len(gc.callbacks)],
        "locale": str(locale.setlocale(locale.LC_ALL)),
        "threads": threading.active_count(),
        "numexpr": numexpr.get_num_threads(),
    }


def thread_local():
    return {"geterr": np.geterr(), "geterrcall": repr(np.geterrcall()), "bufsize": np.getbufsize()}


def gen_settings(rng):
    return {
        "seed": rng.randrange(10**6),
        "err": {k: rng.choice(["ignore", "warn", "ignore", "call" if rng.random() < 0.1 else "warn"])
                for k in ("divide", "over", "under", "invalid")},
        "filters": [[rng.choice(["ignore", "always", "default", "once", "error" if rng.random() < 0.15 else "always"]),
                     rng.choice(["UserWarning", "RuntimeWarning", "DeprecationWarning", "FutureWarning"])]
                    for _ in range(rng.randrange(0, 3))],
        "rc": rng.choice([{}, {"font.size": 7.5, "grid.alpha": 0.33}, {"lines.markersize": 11.0, "legend.numpoints": 3},
                          {"image.interpolation": "nearest", "axes.labelsize": "large"}]),
        "pandas": rng.choice([{}, {"mode.chained_assignment": None}, {"mode.chained_assignment": "raise"},
                              {"display.max_rows": 13, "compute.use_numexpr": False}]),
        "prec": rng.choice([8, 3]),
        "level": rng.choice([10, 30, 40]),
        "user_filter": rng.random() < 0.3,
        "backend": rng.choice(["agg", "agg", "svg", "pdf"]),
        "gc": rng.random() < 0.7,
        "ion": rng.random() < 0.2,
        "assume_finite": rng.random() < 0.2,
    }


def _errcall(*a):
    pass


def apply_settings(s):
    random.seed(s["seed"])
    np.random.seed(s["seed"])
    np.random.normal()  # leaves a cached gaussian behind
    for act, cat in s["filters"]:
        warnings.filterwarnings(act, category=getattr(__import__("builtins"), cat))
    import matplotlib.pyplot as plt

    plt.switch_backend(s["backend"])
    if s["ion"]:
        matplotlib.interactive(True)
    if not s["gc"]:
        gc.disable()
    if s["assume_finite"]:
        sklearn.set_config(assume_finite=True)
    for k, v in s["rc"].items():
        matplotlib.rcParams[k] = v
    for k, v in s["pandas"].items():
        pd.set_option(k, v)
    np.set_printoptions(precision=s["prec"])
    logging.getLogger("cyclic_boosting").setLevel(s["level"])
    logging.getLogger("user").addHandler(logging.NullHandler())
    warnings.showwarning = lambda *a, **k: None


def thread_settings(s):
    np.seterrcall(_errcall)
    np.seterr(**s["err"])


def generate(rng, tier):
    case = {"set": gen_settings(rng), "faults": []}
    if rng.random() < 0.62:
        case["mode"] = "solo"
        case["calls"] = [calls.gen(rng, kinds=calls.KINDS + ["plot", "plot"])]
        if rng.random() < 0.75:
            case["faults"] = [{"op": "c0", "pick": core.gen_pick(rng),
                               "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "ValueError"])}]
    else:
        case["mode"] = "overlap"
        n = rng.choice([2, 2, 3])
        case["calls"] = []
        for i in range(n):
            c = calls.gen(rng, kinds=["fit"] * 4 + ["request", "request", "transform", "select", "smoother", "fit_transform", "qpd"]
                          if i else ["fit"], p_other=0.12)
            if c["what"] == "fit" and c["spec"]["kind"] not in zoo.OTHER:
                c["obs"] = rng.choice([-1, -1, 1, None])
                if rng.random() < 0.3:
                    c["spec"]["smooth"] = rng.choice(["gb", "exp2"])
            case["calls"].append(c)
        ops = ["c%d" % i for i in range(n)]
        case["sched"] = cm.gen_sched(rng, ops, gran_ins=0.0)
        case["faults"] = cm.gen_faults(rng, ops, p=0.3)
    return case


def execute(case, rep):
    apply_settings(case["set"])
    names = ["c%d" % i for i in range(len(case["calls"]))]
    fns = {n: calls.build(c)[0] for n, c in zip(names, case["calls"])}
    profiles = {}
    if case["faults"] or case["mode"] == "overlap":
        for n, c in zip(names, case["calls"]):
            profiles[n] = core.profile(calls.build(c)[0], n)[1]
    local = {}

    def wrap(n):
        def run():
            thread_settings(case["set"])
            before = thread_local()
            try:
                return fns[n]()
            finally:
                local[n] = zoo.diff(before, thread_local())
        return run

    import matplotlib.pyplot as plt

    plt.close("all")
    apply_settings(case["set"])
    what = [calls.label(c) for c in case["calls"]]
    if case["mode"] == "solo":
        table, resolved = cm.resolve_faults(case["faults"], profiles)
        before = snapshot()
        o = core.solo(wrap("c0"), "c0", faults=table.get("c0"), limit=20000000)
        after = snapshot()
        rep.outcome(o)
        rep.resolved = dict(case, faults=resolved)
        rep.probe("solo_" + case["calls"][0]["what"])
        if o.fired:
            rep.parts.append(what[0])
        end = o.describe()
    else:
        before = snapshot()
        sim = cm.run_sim(case, rep, [(n, [(n, wrap(n))]) for n in names], profiles)
        after = snapshot()
        cm.liveness(rep, sim)
        rep.probe("overlap")
        end = str([sim.outcomes[n].describe() for n in names])
    for n, d in local.items():
        if d:
            rep.violation("thread-settings", "%s: numpy error handling altered: %s (%s)" % (n, d, end))
    for k in before:
        if k in ("logging", "pandas"):  # modules imported on first use may add entries of their own
            after[k] = {n: v for n, v in after[k].items() if n in before[k]}
        d = zoo.diff(before[k], after[k], rtol=0, atol=0)
        if d:
            rep.violation("setting-" + k, "%s after %s: %s (%s)" % (k, what, d, end))
            return


def simplify(case):
    out = []
    s = case["set"]
    for k, v in (("filters", []), ("rc", {}), ("pandas", {})):
        if s[k]:
            out.append(dict(case, set=dict(s, **{k: v})))
    if len(case["calls"]) > 2:
        out += [dict(case, calls=case["calls"][:i] + case["calls"][i + 1:]) for i in range(len(case["calls"]))]
    for i, c in enumerate(case["calls"]):
        if "spec" in c and c["spec"]["kind"] not in zoo.OTHER:
            for v in cm.simplify_spec(c):
                out.append(dict(case, calls=case["calls"][:i] + [v] + case["calls"][i + 1:]))
    return out
