"""Helpers shared by the scenario modules."""
import pickle

import numpy as np

from .. import core, zoo
from ..runner import Skip

REAL = ["all of cyclic_boosting (estimators, smoothers, binning, plots, observers) from /repo's working tree",
        "numpy, pandas, scipy, scikit-learn, numba, numexpr"]
STUB_SCHED = ["thread scheduling (simulator baton at every line/instruction of the package)",
              "threading.Lock/RLock created by the package (simulated locks)"]
ASSUME = ["code of numpy/pandas/scipy/numba between two package lines is atomic",
          "faults are raised at line starts of package code, not inside cleanup code (with/try headers, except and finally "
          "bodies), where no Python program could stay consistent"]


def gen_sched(rng, ops, gran_ins=0.15, horizon=3000):
    if rng.random() < gran_ins:
        k = rng.choice(["walk", "burst", "pct"])
        s = {"kind": k, "seed": rng.randrange(1 << 30), "gran": "ins"}
        if k == "walk":
            s["p"] = rng.choice([0.2, 0.05, 0.01])
        elif k == "burst":
            s["mean"] = rng.choice([5, 40, 300])
        else:
            s["depth"], s["horizon"] = rng.choice([1, 2, 4]), horizon * 5
        return s
    s = core.gen_policy(rng, horizon, ops)
    s["gran"] = "line"
    return s


def gen_faults(rng, ops, p=0.35, kinds=("KeyboardInterrupt", "MemoryError", "SystemExit"), nmax=2):
    out = []
    if rng.random() < p and ops:
        for _ in range(rng.randrange(1, nmax + 1)):
            out.append({"op": rng.choice(list(ops)), "pick": core.gen_pick(rng), "exc": rng.choice(list(kinds))})
    return out


def resolve_faults(faults, profiles):
    table, resolved = {}, []
    for f in faults:
        if f["op"] not in profiles:
            continue
        st = core.resolve_fault(f["pick"], profiles[f["op"]])
        table.setdefault(f["op"], {})[st] = f["exc"]
        resolved.append({"op": f["op"], "pick": ["step", st], "exc": f["exc"]})
    return table, resolved


def run_sim(case, rep, tasks, profiles, **kw):
    """Build and run a Sim for case['sched'] / case['faults']; stores the fully resolved case in rep."""
    spec = core.resolve_policy(case["sched"], profiles)
    gran = spec.get("gran", "line")
    faults = case.get("faults", [])
    if gran == "ins":
        faults = []
    table, resolved = resolve_faults(faults, profiles)
    limits = {op: 60 * len(rec) + 200000 for op, rec in profiles.items()}
    sim = core.Sim(spec, gran, table, limits=limits, **kw)
    for name, ops in tasks:
        sim.task(name, ops)
    sim.run()
    rep.sim(sim)
    rep.resolved = dict(case, sched={"kind": "trace", "switches": sim.trace, "gran": gran}, faults=resolved)
    rep.note_ += readable(sim)
    return sim


def readable(sim, n=12):
    out = []
    for (op, step, nxt), loc in zip([t for t in sim.trace if t[0] != "start"], sim.switch_locs):
        out.append("switch at op %s step %s (%s) -> task %d" % (op, step, loc, nxt))
        if len(out) >= n:
            break
    for o in sim.outcomes.values():
        for st, kind, loc in o.fired:
            out.append("fault %s in op %s step %d (%s)" % (kind, o.op, st, loc))
    return out


def setup(fn, *a, **kw):
    """Run a fault-free preparation step; a scenario whose preparation fails is skipped, not judged."""
    try:
        return fn(*a, **kw)
    except Exception as e:  # noqa
        raise Skip("%s: %s" % (type(e).__name__, e))


class Breaker:
    """Stands in for a numerical solver: the n-th call fails, all others go through."""

    def __init__(self, real, state, exc):
        self.real, self.state, self.exc = real, state, exc

    def __call__(self, *a, **kw):
        self.state["calls"] += 1
        if self.state["calls"] == self.state["at"]:
            self.state["fired"] += 1
            raise core.make_exc(self.exc, "solver call %d" % self.state["calls"])
        return self.real(*a, **kw)


SOLVERS = [("scipy.optimize", "curve_fit"), ("scipy.optimize", "minimize"), ("scipy.optimize", "leastsq"),
           ("cyclic_boosting.generic_loss", "minimize"), ("cyclic_boosting.price", "newton_bisect"),
           ("cyclic_boosting.quantile_matching", "minimize_scalar"), ("cyclic_boosting.quantile_matching", "curve_fit"),
           ("sklearn.isotonic", "isotonic_regression"), ("numpy.linalg", "lstsq"), ("scipy.interpolate", "UnivariateSpline")]


def break_solvers(at, exc, state=None):
    """Install failing solvers (process-wide seam of this worker); returns the undo function."""
    import importlib

    state = state if state is not None else {}
    state.update(calls=0, at=at, fired=0)
    saved = []
    for mod, name in SOLVERS:
        mo = importlib.import_module(mod)
        if hasattr(mo, name):
            real = getattr(mo, name)
            saved.append((mo, name, real))
            setattr(mo, name, Breaker(real, state, exc))

    def undo():
        for mo, name, real in saved:
            setattr(mo, name, real)

    return undo


def freeze(v, depth=0, inner=False):
    """Comparable snapshot of a configuration value; nested estimators by their parameters, with `inner` by
    everything they hold."""
    from sklearn.base import BaseEstimator

    import numpy as np
    import pandas as pd

    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, (np.ndarray, pd.DataFrame, pd.Series)):
        return zoo.as_plain(v)
    if isinstance(v, dict):
        return {repr(k): freeze(x, depth + 1, inner) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [type(v).__name__] + [freeze(x, depth + 1, inner) for x in (sorted(v, key=repr) if isinstance(
            v, (set, frozenset)) else v)]
    if callable(v) and hasattr(v, "__qualname__"):
        return v.__qualname__
    if depth > 6:
        return type(v).__name__
    if isinstance(v, BaseEstimator) and not inner:
        return {"<type>": type(v).__name__,
                **{k: freeze(x, depth + 1, inner) for k, x in sorted(v.get_params(deep=False).items())}}
    if hasattr(v, "__dict__"):
        return {"<type>": type(v).__name__, **{k: freeze(x, depth + 1, inner) for k, x in sorted(vars(v).items())}}
    return repr(v)


FEATURE_FIELDS = ("feature_group", "feature_type", "feature_property", "factors_link", "fitted_aggregated",
                  "unfitted_factors_link", "unfitted_uncertainties_link", "bin_weightsums", "n_multi_bins_finite",
                  "mean_dev", "y", "prediction", "y_finite", "prediction_finite", "learn_rate", "factor_sum",
                  "bin_weighted_average", "bin_centers")


class Container:
    """The caller's data, handed over in one container that is overwritten and used again when the new data fits."""

    def __init__(self, reuse):
        self.reuse, self.kept, self.refilled = reuse, None, 0

    def put(self, A):
        if not self.reuse:
            return zoo.clone_data(A)
        B = self.kept
        if type(B) is not type(A) or B.shape != A.shape:
            self.kept = zoo.clone_data(A)
        elif hasattr(A, "columns") and A.columns.equals(B.columns) and A.dtypes.equals(B.dtypes):
            for j in range(A.shape[1]):
                B.iloc[:, j] = A.iloc[:, j].values
            B.index = A.index
            self.refilled += 1
        elif isinstance(A, np.ndarray) and A.dtype == B.dtype:
            B[...] = A
            self.refilled += 1
        else:
            self.kept = zoo.clone_data(A)
        return self.kept


def is_filled(o):
    """Whether a plotting observer has recorded its iteration."""
    try:
        o.check_fitted()
        return True
    except ValueError:
        return False


def recording(o):
    """What a plotting observer holds about the training it has watched."""
    out = {"iteration": o.iteration, "loss": list(o.loss), "factor_change": list(o.factor_change), "fitted": is_filled(o)}
    if out["fitted"]:
        out["n_feature_bins"] = {repr(k): zoo.as_plain(v) for k, v in o.n_feature_bins.items()}
        out["histograms"] = [zoo.as_plain(h) for h in o.histograms]
        feats = []
        for f in o.features:
            d = {}
            for name in FEATURE_FIELDS:
                v = getattr(f, name, None)
                d[name] = repr(v) if name in ("feature_group", "feature_type", "feature_property") else zoo.as_plain(v)
            feats.append(d)
        out["features"] = feats
    return out


def plot_some(o):
    import matplotlib.pyplot as plt

    from cyclic_boosting import plots

    try:
        plots.plot_iteration_info(o)
        for f in o.features:
            plots.plot_factors(o, [f.feature_group])
    finally:
        plt.close("all")


def roundtrip(m):
    return pickle.loads(pickle.dumps(m))


def liveness(rep, sim):
    if sim.deadlock:
        rep.violation("deadlock", sim.deadlock)
    for o in sim.outcomes.values():
        if o.limit_hit:
            rep.violation("no-progress", "op %s exceeded its step budget" % o.op)


def same_outcome(ref, got):
    """None if the two outcomes agree, else text."""
    if ref.kind != got.kind:
        return "%s instead of %s" % (got.describe(), ref.describe())
    if ref.kind == "exc":
        if type(ref.exc) is not type(got.exc):
            return "%s instead of %s" % (got.describe(), ref.describe())
        return None
    return zoo.diff(ref.value, got.value)


def simplify_spec(case, key="spec"):
    """Smaller model configurations for minimisation."""
    s = case.get(key)
    out = []
    if not isinstance(s, dict):
        return out

    def alt(**kw):
        out.append(dict(case, **{key: dict(s, **kw)}))

    if s.get("miss"):
        alt(miss=0.0)
    if s.get("iters", 1) > 1 and not s.get("hier"):
        alt(iters=1)
    if s.get("smooth"):
        alt(smooth=None)
    if s.get("lr"):
        alt(lr=None)
    if len(s.get("groups", [])) > 1 and not s.get("nogroups"):
        for i in range(len(s["groups"])):
            g = s["groups"][:i] + s["groups"][i + 1:]
            alt(groups=g, **({"ext": [g[0]]} if s.get("ext") else {}))
    if s.get("n", 0) > 30:
        alt(n=24)
    return out
