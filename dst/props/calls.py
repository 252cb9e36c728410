"""Calls of every kind a user can make, described by plain-JSON specs (used by several properties)."""
import io

import numpy as np

from cyclic_boosting import interaction_selection, observers
from cyclic_boosting import quantile_matching as qm

from .. import fakes, zoo
from . import common as cm
from . import smooth_zoo as sz

KINDS = ["fit", "fit", "fit", "fit_transform", "transform", "request", "request", "smoother", "plot", "select", "qpd"]
PLOTS = ["analysis", "factors", "iteration", "diagonal", "histogram", "analysis_binners"]


def gen(rng, kinds=KINDS, **kw):
    what = rng.choice(list(kinds))
    c = {"what": what}
    if what in ("fit", "request"):
        c["spec"] = zoo.any_spec(rng, p_other=kw.get("p_other", 0.2), kinds=zoo.FAST * 6 + zoo.SLOW, n=(24, 45),
                                 iters=(1, 3))
        if c["spec"]["kind"] in ("qpdS", "qpdB") and rng.random() < 0.6:
            c["spec"] = zoo.gen_spec(rng, kinds=zoo.FAST, n=(24, 45), iters=(1, 3))
        if what == "request":
            c["req"] = rng.choice(zoo.requests_for(c["spec"]))
            c["qds"], c["n"] = rng.randrange(1, 10**6), rng.choice([1, 4, 12])
        c["obs"] = rng.choice([None, None, -1, 1])
        if what == "fit" and c["spec"]["kind"] in zoo.FAST and rng.random() < 0.2:
            diverging(rng, c)
    elif what in ("fit_transform", "transform"):
        c["spec"] = zoo.gen_spec(rng, kinds=["poisson", "location", "classifier", "nbinom", "gbs"], n=(24, 45),
                                 iters=(1, 3), forms=("pipe", "direct"))
    elif what == "smoother":
        c["sm"] = sz.gen(rng)
        c["predict"] = rng.random() < 0.3
    elif what == "plot":
        c["spec"] = zoo.gen_spec(rng, kinds=["poisson", "location", "classifier", "nbinom", "nbinomc"], n=(24, 40),
                                 iters=(1, 3), forms=("pipe", "direct"))
        while len(c["spec"]["groups"]) > 3:
            c["spec"]["groups"].pop(0)
        c["plot"] = rng.choice(PLOTS)
    elif what == "select":
        c["ds"], c["n"], c["k"], c["cls"] = rng.randrange(1, 10**6), rng.randrange(25, 50), rng.choice([1, 2]), rng.random() < 0.5
    else:
        c["ds"], c["bound"], c["version"] = rng.randrange(1, 10**6), rng.choice(["S", "B", "xS", "xB", "xU", "shape", "fit"]), rng.choice(["normal", "logistic"])
    return c


def diverging(rng, c):
    """Learning rates with which some iterations diverge."""
    if rng.random() < 0.5:
        c["spec"] = zoo.gen_spec(rng, kinds=["poisson", "nbinom", "exponential"], n=(24, 45))
        c["spec"]["agg"] = True
    bad = [0.5, 3.0, 6.0, 12.0, -1.0, -2.0, -4.0, -8.0]
    c["rates"] = [1.0] * rng.randrange(0, 2) + rng.choice([
        [rng.choice(bad) for _ in range(rng.randrange(1, 5))], [rng.choice(bad)] * rng.randrange(1, 5)]) + [
            rng.choice([1.0, 0.3])] * 9
    c["spec"]["iters"] = rng.randrange(3, 7)


def label(c):
    if "spec" in c:
        return "%s/%s%s" % (c["what"], c["spec"]["kind"], "/" + c["plot"] if "plot" in c else "")
    if "sm" in c:
        return "smoother/%s%s" % (c["sm"]["name"], "/predict" if c["predict"] else "")
    return c["what"]


def plot_call(m, o, kind, stream=None, X=None):
    import matplotlib.pyplot as plt

    from cyclic_boosting import plots

    try:
        if kind == "analysis":
            plots.plot_analysis(o, stream if stream is not None else io.BytesIO())
        elif kind == "analysis_binners":
            binners = [m[0]] if hasattr(m, "steps") else None
            plots.plot_analysis(o, stream if stream is not None else io.BytesIO(), binners=binners, plot_yp=False)
        elif kind == "factors":
            plots.plot_factors(o)
        elif kind == "iteration":
            plots.plot_iteration_info(o)
        elif kind == "diagonal":
            plots.plot_in_sample_diagonal_plot(o)
        elif kind == "histogram":
            for f in o.features:
                plots.plot_factor_histogram(f)
    finally:
        plt.close("all")


def build(c, **kw):
    """Fresh objects for the call; returns the callable (result: something comparable by zoo.diff)."""
    what = c["what"]
    if what in ("fit", "request", "fit_transform", "transform", "plot"):
        spec = c["spec"]
        obs = None
        if what == "plot":
            obs = [observers.PlottingObserver(iteration=-1)]
        elif c.get("obs") is not None and spec["kind"] not in zoo.OTHER:
            obs = [observers.PlottingObserver(iteration=c["obs"])]
        if spec["kind"] in zoo.OTHER:
            m = zoo.make_other(spec)
        else:
            if c.get("rates"):
                kw = dict({"learn_rate": fakes.Rates(c["rates"])}, **kw)
            m = zoo.make_model(spec, observers_=obs, **dict(
                {"output_column": "OUT"} if what.endswith("transform") else {}, **kw))
        X, y = zoo.any_data(spec)
        if what == "fit":
            q = zoo.any_query(spec, 5, 4)
            return lambda: m.fit(X, y) and None, lambda: zoo.outputs(m, spec, q)
        if what == "fit_transform":
            return (lambda: zoo.as_plain(m.fit_transform(X, y)["OUT"])), None
        cm.setup(m.fit, X, y)
        if what == "transform":
            T = zoo.query(spec, 8, 6)
            return (lambda: zoo.as_plain(m.transform(T.copy())["OUT"])), None
        if what == "plot":
            return (lambda: plot_call(m, obs[0], c["plot"])), None
        Q = zoo.any_query(spec, c["qds"], c["n"])
        return (lambda: zoo.REQ[c["req"]](m, Q)), None
    if what == "smoother":
        sm, X, y, Q = sz.build(c["sm"])
        if c["predict"]:
            cm.setup(sm.fit, X, y)
            return (lambda: zoo.as_plain(sm.predict(Q))), None
        return (lambda: sm.fit(X, y) is None and None), (lambda: zoo.as_plain(sm.predict(Q)))
    if what == "select":
        full = zoo.make_X(c["ds"], c["n"])
        X, y = full[["a", "b", "c"]], zoo.make_y("classifier" if c["cls"] else "location", full, c["ds"])
        props = {"a": zoo.FLAG["U"], "b": zoo.FLAG["O"], "c": zoo.FLAG["C"]}
        return (lambda: [list(map(str, t)) for t in interaction_selection.select_interaction_terms_anova(
            X, y, props, 2, c["k"], c["cls"])]), None
    r = np.random.RandomState(c["ds"] % 2**32)
    q = np.sort(r.uniform(0.05, 0.95, (6, 3)), axis=1)
    x = r.uniform(0.1, 0.9, 6)
    r_y = r.uniform(0.05, 0.95, 30)

    def call():
        if c["bound"] in ("xS", "xB", "xU"):
            version = {"normal": "sinhlogistic"}.get(c["version"], c["version"])
            a = [0.2] + [float(v) for v in q[0]]
            d = {"xS": lambda: qm.J_QPD_extended_S(*a, l=0, version=version, shape=0.5),
                 "xB": lambda: qm.J_QPD_extended_B(*a, l=0, u=1, version=version, shape=-0.5),
                 "xU": lambda: qm.J_QPD_extended_U(*a, version=version)}[c["bound"]]()
            return [d.ppf(x), d.cdf(x)]
        if c["bound"] == "shape":
            return float(qm.fit_sinhlogistic_shape(0.2, 0.0, 1.0, "SBU"[c["ds"] % 3], r_y))
        if c["bound"] == "fit":
            levels = np.array([0.1, 0.3, 0.5, 0.7, 0.9])
            values = np.sort(1 + 4 * r_y[:5])
            if c["version"] == "normal":
                return [qm.quantile_fit_gaussian(levels, values)(x), qm.quantile_fit_spline(levels, values)(x)]
            return [qm.quantile_fit_gamma(levels, values, mode="cdf")(x)]
        if c["bound"] == "S":
            d = qm.J_QPD_S(0.2, q[:, 0], q[:, 1], q[:, 2], l=0, version=c["version"])
        else:
            d = qm.J_QPD_B(0.2, q[:, 0], q[:, 1], q[:, 2], l=0, u=1, version=c["version"])
        return [d.ppf(x), d.cdf(x)]

    return call, None
