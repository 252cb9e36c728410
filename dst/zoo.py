"""Data, models and observable behaviour used by the simulated scenarios.

Everything is described by plain-JSON specs so that a replay file is self-contained.
"""
import copy

import numpy as np
import pandas as pd

import cyclic_boosting as cb
from cyclic_boosting import binning, common_smoothers, flags, learning_rate, observers, pipelines, smoothing
from cyclic_boosting import quantile_matching as qm
from cyclic_boosting.features import FeatureID, FeatureTypes

FLAG = {
    "U": flags.IS_UNORDERED,
    "O": flags.IS_ORDERED,
    "C": flags.IS_CONTINUOUS,
    "L": flags.IS_CONTINUOUS | flags.IS_LINEAR,
    "S": flags.IS_CONTINUOUS | flags.IS_SEASONAL,
    "M": flags.IS_MONOTONIC,
    "MI": flags.IS_MONOTONIC | flags.INCREASING,
    "MD": flags.IS_MONOTONIC | flags.DECREASING,
    "UM": flags.IS_UNORDERED | flags.MISSING_NOT_LEARNED,
    "CM": flags.IS_CONTINUOUS | flags.MISSING_NOT_LEARNED,
    "CG": flags.IS_CONTINUOUS | flags.HAS_MAGIC_INT_MISSING,
    "OG": flags.IS_ORDERED | flags.HAS_MAGIC_INT_MISSING,
    "UH": flags.IS_UNORDERED | flags.HAS_MISSING,
}

FAST = ["poisson", "nbinom", "location", "locpoisson", "classifier", "gbs", "exponential", "nbinomc"]
SLOW = ["mquantile", "aquantile", "mgeneric", "ageneric", "cgeneric"]
ALL = FAST + SLOW

LINK = {
    "poisson": "log", "nbinom": "log", "location": "id", "locpoisson": "log?", "classifier": "logit",
    "gbs": "id", "exponential": "log", "nbinomc": "logit", "mquantile": "log", "aquantile": "id",
    "mgeneric": "log", "ageneric": "id", "cgeneric": "logit",
}


# ------------------------------------------------------------------------ picklable user callables


def cost_sq(prediction, y, weights):
    if len(y) == 0:
        return 0.0
    return float(np.sum(weights * (prediction - y) ** 2) / np.sum(weights))


def cost_abs(prediction, y, weights):
    if len(y) == 0:
        return 0.0
    return float(np.sum(weights * np.abs(prediction - y)) / np.sum(weights))


def cost_ce(prediction, y, weights):
    if len(y) == 0:
        return 0.0
    p = np.clip(prediction, 1e-6, 1 - 1e-6)
    return float(-np.sum(weights * (y * np.log(p) + (1 - y) * np.log(1 - p))) / np.sum(weights))


def lr_one(iteration, maximal_iteration, feature=None):
    return 1.0


def lr_half(iteration, maximal_iteration, feature=None):
    return 0.5


def lr_ramp(iteration, maximal_iteration, feature=None):
    return min(1.0, 0.3 * iteration)


LR = {"one": lr_one, "half": lr_half, "ramp": lr_ramp, "logistic": learning_rate.logistic_learn_rate,
      "linear": learning_rate.linear_learn_rate}
COST = {"sq": cost_sq, "abs": cost_abs, "ce": cost_ce}


# --------------------------------------------------------------------------------------- data


def make_X(ds, n, miss=0.0, unseen=False, hi=1.0, magic=False):
    """Raw feature frame.  a,b integer categories, c,d,e real valued, w weight, pr prior, mu mean, p price."""
    r = np.random.RandomState(ds % (2**32))
    ka, kb = 3 + ds % 3, 4 + ds % 4
    X = pd.DataFrame(
        {
            "a": r.randint(0, ka + (2 if unseen else 0), n).astype(float),
            "b": r.randint(0, kb + (3 if unseen else 0), n).astype(float),
            "c": r.normal(0, 1 + (2 if unseen else 0), n) * hi,
            "d": r.uniform(0, 10, n),
            "e": r.randint(0, 7, n).astype(float),
            "w": r.uniform(0.2, 2.0, n),
            "pr": r.uniform(0.5, 3.0, n),
            "mu": r.uniform(0.5, 4.0, n),
            "p": r.choice([0.7, 0.8, 0.9, 1.0, 1.0], n),
            "pe": r.uniform(-2.5, -0.5, n),
        }
    )
    if miss:
        for col in "abcd":
            m = r.uniform(0, 1, n) < miss
            X.loc[m, col] = np.nan
    if magic:
        X.loc[r.uniform(0, 1, n) < 0.1, "b"] = -999.0
    wide = 140 + ds % 180
    X["k"] = (r.permutation(max(n, wide))[:n] % (wide + (30 if unseen else 0))).astype(float)
    return X


def make_y(kind, X, ds, strong=False):
    r = np.random.RandomState((ds * 7919 + 13) % (2**32))
    a = np.nan_to_num(X["a"].values)
    c = np.nan_to_num(X["c"].values)
    d = np.nan_to_num(X["d"].values)
    lin = 0.3 * a - 0.4 * np.tanh(c) + 0.05 * d + 0.3 * np.sin(X["e"].values)
    n = len(X)
    if strong and kind in ("poisson", "nbinom", "locpoisson"):
        # effects beyond the factors a model may learn
        return r.poisson(np.where(a > 1, 400.0, np.where(c > 0, 3.0, 0.02))).astype(float)
    if kind in ("poisson", "nbinom", "mquantile", "mgeneric", "locpoisson"):
        return r.poisson(np.exp(np.clip(lin, -3, 3)) + 0.5).astype(float)
    if kind == "exponential" and strong:
        # price effects of different sign, beyond what the prior expects
        return r.poisson(5 * X["p"].values ** (5.0 - 4 * (a % 3))).astype(float)
    if kind == "exponential":
        return r.poisson(np.exp(np.clip(lin, -3, 2)) * X["p"].values ** -1.5 + 1.0).astype(float)
    if kind == "nbinomc":
        return r.negative_binomial(2, 2 / (2 + X["mu"].values)).astype(float)
    if kind in ("location", "aquantile", "ageneric"):
        return lin + r.normal(0, 0.5, n)
    if kind in ("classifier", "cgeneric"):
        y = (lin + r.normal(0, 1, n) > np.median(lin)).astype(float)
        if n > 1:
            y[0], y[1] = 0.0, 1.0
        return y
    if kind == "gbs":
        return np.where(r.uniform(0, 1, n) < 0.8, 1.0, -1.0)
    if kind == "qpdS":
        return r.gamma(2.0, np.exp(np.clip(0.3 * lin, -1, 1)), n) + 0.05
    if kind == "qpdB":
        return np.clip(r.beta(2.0, 3.0, n) * 0.98 + 0.01, 0.01, 0.99)
    raise ValueError(kind)


NBINS = {"a": None, "b": None}


def prebin(X, k=5):
    """Deterministic integer bins for estimators used without the binning transformer."""
    out = X.copy()
    out["c"] = np.where(np.isfinite(X["c"]), np.clip(np.floor(X["c"].fillna(0) + 2.5), 0, 4), np.nan)
    out["d"] = np.where(np.isfinite(X["d"]), np.clip(np.floor(X["d"].fillna(0) / 2), 0, 4), np.nan)
    return out


NUMPY_COLS = ["a", "b", "c", "d", "e", "w", "pr", "p"]


def to_form(spec, X):
    """Container the model of this spec is used with."""
    if spec.get("ishuf") and spec["form"] != "numpy":
        X = X.set_axis(np.arange(len(X))[::-1] * 3 + 5, axis=0)
    if spec["form"] == "pipe":
        return X[spec["cols"]].copy()
    if spec["form"] == "direct":
        return prebin(X)[spec["cols"]].copy()
    if spec["form"] == "numpy":
        return np.ascontiguousarray(prebin(X)[spec["cols"]].values.astype(float))
    raise ValueError(spec["form"])


def data(spec, ds=None, n=None, **kw):
    """(X, y) training data of a spec."""
    ds = spec["ds"] if ds is None else ds
    n = spec["n"] if n is None else n
    X = make_X(ds, n, miss=spec.get("miss", 0.0), magic=spec.get("magic", False), **kw)
    y = make_y(spec["kind"], X, ds, spec.get("strong"))
    if spec.get("void"):
        X[spec["void"]] = np.nan  # column without a single value in the training
    Xf = to_form(spec, X)
    if spec.get("yser"):
        y = pd.Series(y, index=Xf.index if hasattr(Xf, "index") else None, name="y")
    return Xf, y


def query(spec, ds, n, unseen=True, miss=0.1):
    X = make_X(ds, n, miss=miss, unseen=unseen)
    return to_form(spec, X)


# ------------------------------------------------------------------------------------- specs


def gen_spec(rng, kinds=None, n=(30, 70), iters=(1, 4), forms=("pipe", "pipe", "pipe", "direct", "numpy"), rich=True):
    """Draw a random model configuration (swarm: every run enables another subset of options)."""
    if kinds is None:
        kinds = FAST * 3 + SLOW
    kind = rng.choice(list(kinds))
    slow = kind in SLOW
    form = rng.choice(list(forms))
    if kind == "nbinomc" and form == "numpy":
        form = "direct"
    spec = {
        "kind": kind,
        "form": form,
        "ds": rng.randrange(1, 10**6),
        "n": rng.randrange(24, 40) if slow else rng.randrange(*n),
        "miss": rng.choice([0.0, 0.0, 0.1, 0.25]),
        "iters": rng.randrange(1, 3) if slow else rng.randrange(*iters),
        "nbins": rng.choice([2, 4, 4, 8, 8, 100]),
        "agg": True,
        "lr": rng.choice([None, None, None, "one", "half", "ramp", "logistic", "linear"]),
        "smooth": None,
    }
    names = ["a", "b", "c", "d", "e"]
    k = rng.randrange(1, 3) if slow else rng.randrange(1, 5)
    feats = sorted(rng.sample(names, k))
    props = {}
    for f in feats:
        if f in "ab":
            props[f] = rng.choice(["U", "U", "O", "UM", "UH"] if f == "a" else ["O", "U", "OG"])
        elif f == "c":
            props[f] = rng.choice(["C", "C", "CM", "CG"])
        elif f == "d":
            props[f] = rng.choice(["C", "L", "S", "M", "MI", "MD"])
        else:
            props[f] = rng.choice(["O", "S", "C"])
    groups = [[f] for f in feats]
    if len(feats) >= 2 and rng.random() < (0.25 if slow else 0.6):
        groups.append(sorted(rng.sample(feats, 2)))
    if len(feats) >= 3 and not slow and rng.random() < 0.25:
        groups.append(sorted(rng.sample(feats, 3)))
    if rng.random() < 0.15 and len(groups) > 1:
        groups = groups[1:]  # no group for the first feature alone
    spec["props"] = props
    spec["groups"] = groups
    cols = list(feats)
    if rich:
        spec["smooth"] = rng.choice([None, None, "wm", "gb", "raw", "norm", "reg", "no", "exp", "exp2"])
        if kind != "exponential" and kind != "nbinomc" and rng.random() < 0.2:
            spec["agg"] = False
        if rng.random() < 0.3:
            spec["weight"] = True
            cols.append("w")
        if kind not in ("gbs",) and rng.random() < 0.25:
            spec["prior"] = True
            cols.append("pr")
        if kind in ("poisson", "nbinom", "location", "locpoisson", "classifier") and len(groups) > 1 and rng.random() < 0.12:
            spec["hier"] = 1
            spec["iters"] = max(spec["iters"], 2)
        if rng.random() < 0.08 and kind in ("poisson", "location", "classifier", "nbinom") and form != "numpy":
            spec["nogroups"] = True
    if kind == "exponential":
        spec["groups"] = [g for g in spec["groups"]]
        spec["ext"] = [groups[0]] + ([groups[-1]] if len(groups) > 1 and rng.random() < 0.3 else [])
        cols.append("p")
    if kind == "nbinomc":
        cols.append("mu")
    if kind in ("mquantile", "aquantile"):
        spec["q"] = rng.choice([0.3, 0.5, 0.8])
    if rich and rng.random() < 0.5:
        if kind == "nbinom":
            spec["par"] = {"a": rng.choice([1.0, 1.3]), "c": rng.choice([0.0, 0.15, 0.4])}
        elif kind == "nbinomc":
            spec["par"] = {"gamma": rng.choice([0.0, 0.1]), "bayes": rng.random() < 0.5}
        elif kind == "gbs":
            spec["par"] = {"regalpha": rng.choice([0.0, 0.5])}
        elif kind == "exponential":
            spec["par"] = {"var_prior_exponent": rng.choice([0.1, 1.0]), "a": 1.1, "c": 0.1}
            if rng.random() < 0.5:
                spec["pexp"] = True
                cols.append("pe")
    if rich and kind == "exponential" and rng.random() < 0.35:
        spec["strong"] = True
        spec["par"] = dict(spec.get("par", {}), var_prior_exponent=10.0)
    if rich and rng.random() < 0.25:
        spec["ishuf"] = True  # frame with a non-trivial row index
    if rich and rng.random() < 0.25:
        spec["yser"] = True  # target passed as Series
    if rich and form == "pipe" and rng.random() < 0.2:
        spec["factory"] = True  # built by the convenience functions of pipelines.py
    if rich and rng.random() < 0.08 and set(feats) & set("abe"):
        spec["lack"] = sorted(set(feats) & set("abe"))[0]  # feature without a property
    if rich and rng.random() < 0.06:
        spec["fid"] = True  # groups given as FeatureID
    if rich and not slow and kind in ("poisson", "nbinom", "location", "classifier", "locpoisson"):
        u = rng.random()
        if u < 0.05:
            props["k"] = rng.choice(["U", "O"])
            groups.append(["k"])
            cols.insert(0, "k")
            feats.append("k")
            spec["n"] = rng.randrange(150, 330)
        elif u < 0.09:
            spec["void"] = rng.choice([f for f in feats if f != "e"] or ["a"])
        elif u < 0.17 and kind in ("poisson", "nbinom", "locpoisson"):
            spec["strong"] = True
            spec["iters"] = rng.randrange(4, 11)
        elif u > 0.98:
            spec["n"] = rng.randrange(3000, 12000)  # many rows, in case something depends on their number
    if spec.get("nogroups"):
        # all columns except weight/prior become features: keep only feature columns
        spec["groups"] = [[f] for f in feats]
    spec["cols"] = cols
    return spec


def _choice(name, props):
    if name is None:
        return None
    if name == "wm":
        return common_smoothers.SmootherChoiceWeightedMean()
    if name == "gb":
        return common_smoothers.SmootherChoiceGroupBy()
    if name == "raw":
        return common_smoothers.SmootherChoiceWeightedMean(use_regression_type=False, use_normalization=False)
    if name == "norm":
        return common_smoothers.SmootherChoiceWeightedMean(use_regression_type=False, use_normalization=True)
    if name == "reg":
        return common_smoothers.SmootherChoiceWeightedMean(use_regression_type=True, use_normalization=False)
    if name == "no":
        return common_smoothers.NoSmootherChoice()
    if name == "exp":
        od = smoothing.onedim
        return common_smoothers.SmootherChoiceWeightedMean(
            explicit_smoothers={
                ("c",): od.PolynomialSmoother(k=2),
                ("a",): od.RegularizeToOneSmoother(),
                ("d",): od.LinearSmoother(),
                ("b",): od.WeightedMeanSmoother(),
            }
        )
    if name == "exp2":
        od, md = smoothing.onedim, smoothing.multidim
        return common_smoothers.SmootherChoiceGroupBy(
            explicit_smoothers={
                ("a",): od.WeightedMeanSmoother(prior_prediction=0.1),
                ("b",): od.RegularizeToPriorExpectationSmoother(0.2),
                ("c",): od.UnivariateSplineSmoother(k=1),
                ("d",): od.SeasonalSmoother(),
                ("e",): od.OrthogonalPolynomialSmoother(),
                ("a", "c"): md.Neutralize2DMetaSmoother(md.WeightedMeanSmoother()),
                ("a", "b"): md.GroupBySmootherCB(od.WeightedMeanSmoother(), 2),
                ("c", "d"): md.PriorExpectationMetaSmoother(md.BinValuesSmoother(), 0.05),
            }
        )
    raise ValueError(name)


CLS = {
    "poisson": cb.CBPoissonRegressor, "nbinom": cb.CBNBinomRegressor, "location": cb.CBLocationRegressor,
    "locpoisson": cb.CBLocPoissonRegressor, "classifier": cb.CBClassifier, "gbs": cb.CBGBSRegressor,
    "exponential": cb.CBExponential, "nbinomc": cb.CBNBinomC, "mquantile": cb.CBMultiplicativeQuantileRegressor,
    "aquantile": cb.CBAdditiveQuantileRegressor, "mgeneric": cb.CBMultiplicativeGenericCRegressor,
    "ageneric": cb.CBAdditiveGenericCRegressor, "cgeneric": cb.CBGenericClassifier,
}


def props_of(spec):
    return {spec["cols"].index(f) if spec["form"] == "numpy" else f: FLAG[p]
            for f, p in spec["props"].items() if f != spec.get("lack")}


def make_model(spec, observers_=None, smoother_choice=None, feature_properties=None, learn_rate=None, costs=None,
               **extra):
    kind = spec["kind"]
    numpy_form = spec["form"] == "numpy"

    def col(c):
        return spec["cols"].index(c) if numpy_form else c

    props = feature_properties
    if props is None:
        props = props_of(spec)

    def fg(g, ftype=None):
        if spec.get("fid"):
            return FeatureID(tuple(col(x) for x in g), ftype)
        return col(g[0]) if len(g) == 1 else tuple(col(x) for x in g)

    kw = dict(
        feature_properties=props,
        maximal_iterations=spec["iters"],
        smoother_choice=smoother_choice if smoother_choice is not None else _choice(spec.get("smooth"), props),
        learn_rate=learn_rate if learn_rate is not None else (LR[spec["lr"]] if spec.get("lr") else None),
        minimal_loss_change=spec.get("mlc", 1e-12),
        minimal_factor_change=spec.get("mfc", 1e-12),
        observers=observers_,
    )
    if kind == "nbinomc" and kw["learn_rate"] is None:
        kw["learn_rate"] = lr_one
    if spec.get("weight"):
        kw["weight_column"] = col("w")
    if spec.get("prior"):
        kw["prior_prediction_column"] = col("pr")
    groups = [fg(g) for g in spec["groups"]]
    if kind == "exponential":
        kw["external_colname"] = col("p")
        kw["standard_feature_groups"] = groups
        kw["external_feature_groups"] = [fg(g, FeatureTypes.external) for g in spec["ext"]]
    else:
        kw["feature_groups"] = None if spec.get("nogroups") else groups
    if kind == "nbinomc":
        kw["mean_prediction_column"] = "mu"
        kw["n_steps"] = 7
    if kind not in ("exponential", "nbinomc"):
        kw["aggregate"] = spec.get("agg", True)
    if spec.get("hier"):
        kw["hierarchical_feature_groups"] = [fg(g) for g in spec["groups"][:1]]
    if kind in ("mquantile", "aquantile"):
        kw["quantile"] = spec["q"]
    if kind in ("mgeneric", "ageneric"):
        kw["costs"] = costs or cost_sq
    if kind == "cgeneric":
        kw["costs"] = costs or cost_ce
    kw.update(spec.get("par", {}))
    if spec.get("pexp"):
        kw["prior_exponent_colname"] = col("pe")
    kw.update(extra)
    if spec.get("factory") and not {"a", "c"} & set(spec.get("par", {})):
        m = getattr(pipelines, "pipeline_" + CLS[kind].__name__)(number_of_bins=spec["nbins"], **kw)
        if spec.get("hier"):
            m[-1].training_iterations_hierarchical_features = 1
        return m
    est = CLS[kind](**kw)
    if spec.get("hier"):
        est.training_iterations_hierarchical_features = 1
    if spec["form"] == "pipe":
        from sklearn.pipeline import Pipeline

        b = binning.BinNumberTransformer(n_bins=spec["nbins"], feature_properties=props)
        return Pipeline([("binning", b), ("CB", est)])
    return est


def est_of(m):
    return m[-1] if hasattr(m, "steps") else m


def pre(m, X):
    return m[:-1].transform(X) if hasattr(m, "steps") else X


# ---------------------------------------------------------------------- requests / observables


def as_plain(v):
    """Detach a result from the model: plain arrays / dicts / scalars."""
    if isinstance(v, pd.DataFrame):
        return {"cols": [str(c) for c in v.columns], "val": v.values.copy(), "index": np.asarray(v.index).copy()}
    if isinstance(v, pd.Series):
        return v.values.copy()
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {str(k): as_plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [as_plain(x) for x in v]
    return v


def req_predict(m, X):
    return as_plain(m.predict(X))


def served(m, X):
    """Prediction on the scale the training works on (probabilities for classifiers)."""
    est = est_of(m)
    return np.asarray(est.unlink_func(est.predict_extended(pre(m, X), None).predict_link()), dtype=float)


def req_proba(m, X):
    return as_plain(m.predict_proba(X))


def req_contrib(m, X):
    return as_plain(est_of(m).get_feature_contributions(pre(m, X)))


def req_importances(m, X):
    return as_plain(est_of(m).get_feature_importances())


def req_extended(m, X):
    return as_plain(est_of(m).predict_extended(pre(m, X), None).df)


def req_influence(m, X):
    est = est_of(m)
    cats = {f.feature_group[0] if f.dim == 1 and i % 3 == 1 else f.feature_group: "cat%d" % (i % 2)
            for i, f in enumerate(est.features)}
    return as_plain(est.predict_extended(pre(m, X), cats).df)


def req_columns(m, X):
    return sorted(str(c) for c in est_of(m).required_columns())


def req_binned(m, X):
    return as_plain(m[:-1].transform(X))


def req_qpd(m, X):
    lo, med, hi, q = m.predict(X)
    return {"lo": as_plain(lo), "med": as_plain(med), "hi": as_plain(hi), "ppf": as_plain(q.ppf(0.4)),
            "cdf": as_plain(q.cdf(np.asarray([0.5, 1.5]) if m.bound == "S" else np.asarray([0.3, 0.6])))}


def req_transform(m, X):
    return as_plain(m.transform(X))


REQ = {
    "predict": req_predict, "proba": req_proba, "contrib": req_contrib, "importances": req_importances,
    "extended": req_extended, "influence": req_influence, "columns": req_columns, "binned": req_binned,
    "qpd": req_qpd, "transform": req_transform,
}


def requests_for(spec):
    k = spec["kind"]
    if k in ("qpdS", "qpdB"):
        return ["qpd"]
    if k in ("binner", "ecdf"):
        return ["transform"]
    r = ["predict", "predict", "contrib", "extended", "importances", "columns"]
    if k == "classifier":
        r += ["proba", "proba"]
    if k != "gbs":
        r.append("influence")
    if spec["form"] == "pipe":
        r.append("binned")
    return r


def safe(fn, *a):
    """Result or a description of the (ordinary) exception."""
    try:
        return fn(*a)
    except Exception as e:  # noqa
        return {"raises": type(e).__name__}


def state_of(m):
    """What a fitted estimator reports about its training."""
    est = est_of(m)
    out = {}
    for k in ("iteration_", "stop_criteria_", "insample_loss_", "global_scale_link_", "prior_pred_link_offset_"):
        out[k] = as_plain(getattr(est, k, None))
    return out


def outputs(m, spec, X):
    """Everything a user can ask a fitted model."""
    if spec["kind"] in ("qpdS", "qpdB"):
        return {"qpd": safe(req_qpd, m, X)}
    if spec["kind"] in ("binner", "ecdf"):
        return {"transform": safe(req_transform, m, X)}
    out = {"state": state_of(m), "predict": safe(req_predict, m, X), "contrib": safe(req_contrib, m, X),
           "importances": safe(req_importances, m, X), "columns": safe(req_columns, m, X)}
    if spec["kind"] == "classifier":
        out["proba"] = safe(req_proba, m, X)
    if spec["form"] == "pipe":
        out["binned"] = safe(req_binned, m, X)
    return out


def gen_other(rng, kind):
    """Specs for the transformers and the quantile chain."""
    spec = {"kind": kind, "ds": rng.randrange(1, 10**6), "n": rng.randrange(30, 60), "miss": rng.choice([0.0, 0.15]),
            "form": "pipe", "nbins": rng.choice([2, 4, 4, 8, 8, 100]), "groups": []}
    if kind in ("binner", "ecdf"):
        feats = sorted(rng.sample(["a", "b", "c", "d", "e"], rng.randrange(1, 5)))
        spec["props"] = {f: rng.choice(["U", "O", "C", "C", "OG", "CG"]) for f in feats}
        spec["cols"] = list(feats)
        spec["container"] = rng.choice(["df", "df", "np"])
        spec["noprops"] = rng.random() < 0.25
        if rng.random() < 0.25:
            spec["weight"] = True
            spec["cols"].append("w")
        if rng.random() < 0.3 and not spec["noprops"]:
            spec["cols"].append("pr")  # column without property: passed through untouched
        spec["nbins_dict"] = rng.random() < 0.3
    else:
        feats = sorted(rng.sample(["a", "c", "d"], rng.randrange(1, 3)))
        spec["props"] = {f: {"a": "U", "c": "C", "d": "C"}[f] for f in feats}
        spec["groups"] = [[f] for f in feats]
        spec["cols"] = list(feats)
        spec["n"] = rng.randrange(30, 45)
        spec["miss"] = 0.0
    return spec


def other_form(spec, X):
    X = X[spec["cols"]].copy()
    if spec.get("container") == "np":
        return np.ascontiguousarray(X.values.astype(float))
    return X


def make_other(spec):
    kind = spec["kind"]
    if kind in ("binner", "ecdf"):
        cont = spec.get("container")

        def col(c):
            return spec["cols"].index(c) if cont == "np" else c

        props = None if spec.get("noprops") else {col(f): FLAG[p] for f, p in spec["props"].items()}
        nb = spec["nbins"]
        if spec.get("nbins_dict"):
            nb = {col(f): spec["nbins"] + i for i, f in enumerate(spec["cols"])}
        kw = dict(n_bins=nb, feature_properties=props)
        if spec.get("weight"):
            kw["weight_column"] = col("w")
        return (binning.BinNumberTransformer if kind == "binner" else binning.ECdfTransformer)(**kw)
    ests = []
    for i in range(3):
        s = dict(spec, kind="aquantile", q=0.5, iters=1, form="pipe", lr=None, smooth=None)
        ests.append(make_model(s))
    return qm.QPD_RegressorChain(ests[0], ests[1], ests[2], bound="S" if kind == "qpdS" else "B", l=0.0, u=1.0)


def any_model(spec, **kw):
    return make_other(spec) if spec["kind"] in OTHER else make_model(spec, **kw)


OTHER = ("binner", "ecdf", "qpdS", "qpdB")


def any_data(spec, ds=None, n=None):
    if spec["kind"] in OTHER:
        ds = spec["ds"] if ds is None else ds
        n = spec["n"] if n is None else n
        X = make_X(ds, n, miss=spec["miss"])
        y = make_y(spec["kind"], X, ds) if spec["kind"].startswith("qpd") else np.zeros(n)
        return other_form(spec, X), y
    return data(spec, ds, n)


def any_query(spec, ds, n, unseen=True, miss=0.1):
    if spec["kind"] in OTHER:
        X = make_X(ds, n, miss=0.0 if spec["kind"].startswith("qpd") else miss,
                   unseen=unseen and not spec["kind"].startswith("qpd"))
        return other_form(spec, X)
    return query(spec, ds, n, unseen, miss)


def any_spec(rng, p_other=0.25, **kw):
    if rng.random() < p_other:
        return gen_other(rng, rng.choice(["binner", "binner", "ecdf", "ecdf", "qpdS", "qpdB"]))
    return gen_spec(rng, **kw)


def fit(m, X, y):
    return m.fit(X, y)


def clone_data(X):
    return X.copy() if hasattr(X, "copy") else copy.deepcopy(X)


# ------------------------------------------------------------------------------- comparisons


def diff(a, b, path="", rtol=1e-9, atol=1e-11):
    """None if equal, else a short description of the first difference."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return "%s: %s vs %s" % (path, _short(a), _short(b))
        if set(a) != set(b):
            return "%s: keys %s vs %s" % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            d = diff(a[k], b[k], path + "/" + str(k), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if (type(a) == type(b) and a == b) else "%s: %s vs %s" % (path, _short(a), _short(b))
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return "%s: shape %s vs %s" % (path, x.shape, y.shape)
        if x.dtype == object or y.dtype == object:
            return None if _obj_equal(x, y) else "%s: objects differ" % path
        if x.dtype.kind in "fiub" and y.dtype.kind in "fiub":
            ok = np.isclose(x.astype(float), y.astype(float), rtol=rtol, atol=atol, equal_nan=True)
        else:
            ok = np.asarray(x == y)
        if ok.all():
            return None
        i = np.argwhere(~np.atleast_1d(ok))[0]
        return "%s%s: %r vs %r (%d of %d differ)" % (
            path, list(i), np.atleast_1d(x)[tuple(i)].item(), np.atleast_1d(y)[tuple(i)].item(), int((~ok).sum()),
            ok.size)
    except Exception as e:  # incomparable values
        return "%s: not comparable (%s) %s vs %s" % (path, type(e).__name__, _short(a), _short(b))


def _obj_equal(x, y):
    try:
        for i, j in zip(x.ravel(), y.ravel()):
            if i is j or i == j:
                continue
            if isinstance(i, float) and isinstance(j, float) and i != i and j != j:
                continue
            return False
        return True
    except Exception:
        return False


def _short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."
