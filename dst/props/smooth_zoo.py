"""Smoothers of every class with random bin data, described by plain-JSON specs."""
import numpy as np

from cyclic_boosting import smoothing
from cyclic_boosting.smoothing import extrapolate, meta_smoother, multidim, onedim

R = meta_smoother.RegressionType


def custom_season(x, a, b):
    return a + b * np.sin(x)


def _norm(s):
    return meta_smoother.NormalizationSmoother(s)


# name -> (dimensions, least number of bins, factory)
ONE = {
    "BinValues": (3, lambda p: onedim.BinValuesSmoother()),
    "RegPrior": (3, lambda p: onedim.RegularizeToPriorExpectationSmoother(0.3, threshold=p)),
    "RegPriorArray": (3, lambda p: onedim.RegularizeToPriorExpectationSmoother(np.array([0.1 * p]))),
    "RegOne": (3, lambda p: onedim.RegularizeToOneSmoother(threshold=p)),
    "WMean": (3, lambda p: onedim.WeightedMeanSmoother()),
    "WMeanPrior": (3, lambda p: onedim.WeightedMeanSmoother(prior_prediction=0.1 * p)),
    "WMeanNeighbors": (2, lambda p: onedim.WeightedMeanSmootherNeighbors()),
    "OrthoPoly": (4, lambda p: onedim.OrthogonalPolynomialSmoother()),
    "Seasonal": (5, lambda p: onedim.SeasonalSmoother(offset_tozero=p > 2)),
    "Seasonal2": (8, lambda p: onedim.SeasonalSmoother(offset_tozero=p > 2, order=2, fallback_value=0.25)),
    "Seasonal3": (10, lambda p: onedim.SeasonalSmoother(order=3)),
    "SeasonalCustom": (4, lambda p: onedim.SeasonalSmoother(offset_tozero=False, custom_fit_function=custom_season)),
    "SeasonalLasso": (8, lambda p: onedim.SeasonalLassoSmoother(min_days=8)),
    "SeasonalLasso300": (8, lambda p: onedim.SeasonalLassoSmoother()),
    "PriorMeta": (5, lambda p: onedim.PriorExpectationMetaSmoother(onedim.PolynomialSmoother(k=1), 0.2, threshold=p)),
    "Spline": (6, lambda p: onedim.UnivariateSplineSmoother(k=2)),
    "Spline0": (6, lambda p: onedim.UnivariateSplineSmoother(k=1, s=0)),
    "Poly": (4, lambda p: onedim.PolynomialSmoother(k=2)),
    "Linear": (2, lambda p: onedim.LinearSmoother()),
    "LinearNoNeg": (2, lambda p: onedim.LinearSmoother(fallback_when_negative_slope=True)),
    "LSQSpline": (8, lambda p: onedim.LSQUnivariateSpline([2.5, 4.5], degree=2)),
    "Isotonic": (3, lambda p: onedim.IsotonicRegressor()),
    "IsotonicInc": (3, lambda p: onedim.IsotonicRegressor(increasing=True)),
    "IsotonicDec": (3, lambda p: onedim.IsotonicRegressor(increasing=False)),
    "Extrapolator": (2, lambda p: extrapolate.LinearExtrapolator()),
    "NormMean": (3, lambda p: _norm(onedim.WeightedMeanSmoother())),
    "NormPoly": (4, lambda p: _norm(onedim.OrthogonalPolynomialSmoother())),
    "RegTypeD": (3, lambda p: meta_smoother.RegressionTypeSmoother(onedim.BinValuesSmoother(), R.discontinuous)),
    "RegTypeI": (5, lambda p: meta_smoother.RegressionTypeSmoother(onedim.OrthogonalPolynomialSmoother(), R.interpolating)),
    "RegTypeE": (3, lambda p: meta_smoother.RegressionTypeSmoother(extrapolate.LinearExtrapolator(), R.extrapolating)),
    "NRSeasonal": (5, lambda p: meta_smoother.NormalizationRegressionTypeSmoother(
        onedim.SeasonalSmoother(offset_tozero=False), R.interpolating)),
    "NRIso": (4, lambda p: meta_smoother.NormalizationRegressionTypeSmoother(
        onedim.IsotonicRegressor(), R.discontinuous)),
    "Section": (6, lambda p: meta_smoother.SectionSmoother(2, onedim.LinearSmoother(), onedim.BinValuesSmoother())),
    "SectionSeason": (8, lambda p: meta_smoother.SectionSmoother(
        1, extrapolate.LinearExtrapolator(), onedim.SeasonalSmoother(offset_tozero=False))),
}
TWO = {
    "MBinValues": lambda p, d: multidim.BinValuesSmoother(),
    "MRegPrior": lambda p, d: multidim.RegularizeToPriorExpectationSmoother(0.2, threshold=p),
    "MRegOne": lambda p, d: multidim.RegularizeToOneSmoother(threshold=p),
    "MWMean": lambda p, d: multidim.WeightedMeanSmoother(),
    "MWMeanPrior": lambda p, d: multidim.WeightedMeanSmoother(prior_prediction=0.1 * p),
    "MPriorMeta": lambda p, d: multidim.PriorExpectationMetaSmoother(multidim.WeightedMeanSmoother(), 0.1, threshold=p),
    "GroupBy": lambda p, d: multidim.GroupBySmoother(onedim.BinValuesSmoother(), d),
    "GroupByCB": lambda p, d: multidim.GroupBySmootherCB(onedim.WeightedMeanSmoother(), d),
    "GroupByCBNorm": lambda p, d: multidim.GroupBySmootherCB(meta_smoother.NormalizationRegressionTypeSmoother(
        onedim.OrthogonalPolynomialSmoother(), R.interpolating), d),
    "GroupByCBSeason": lambda p, d: multidim.GroupBySmootherCB(onedim.SeasonalSmoother(), d),
    "Neutralize": lambda p, d: multidim.Neutralize2DMetaSmoother(multidim.WeightedMeanSmoother()),
    "NeutralizeBV": lambda p, d: multidim.Neutralize2DMetaSmoother(multidim.BinValuesSmoother()),
    "MNR": lambda p, d: meta_smoother.NormalizationRegressionTypeSmoother(
        multidim.WeightedMeanSmoother(), R.discontinuous),
    "MReg": lambda p, d: meta_smoother.RegressionTypeSmoother(multidim.BinValuesSmoother(), R.interpolating),
}


def gen(rng):
    if rng.random() < 0.68:
        name = rng.choice(sorted(ONE))
        return {"name": name, "dims": 1, "p": rng.choice([0.5, 1.0, 2.5, 4.0]), **gen_data(rng, name, 1)}
    name = rng.choice(sorted(TWO))
    dims = 3 if rng.random() < 0.2 and not name.startswith("Neutral") else 2
    return {"name": name, "dims": dims, "p": rng.choice([0.5, 1.0, 2.5, 4.0]), **gen_data(rng, name, dims)}


def gen_data(rng, name, dims):
    if dims == 1:
        n = [max(1, ONE[name][0] + rng.choice([-4, -2, -1, 0, 0, 0, 1, 1, 3, 3, 8]))]
    else:
        n = [rng.randrange(2, 4) for _ in range(dims - 1)] + [rng.randrange(3, 6)]
    return {"nb": n, "ds": rng.randrange(1, 10**6), "zero": rng.choice([False] * 12 + [True] * 7 + ["all"]), "neg": rng.random() < 0.4,
            "inty": rng.random() < 0.15,
            "part": [rng.randrange(0, 5), rng.randrange(1, 9)] if rng.random() < (0.5 if name.startswith("Section") else 0.1)
            else None}


def make(s):
    return ONE[s["name"]][1](s["p"]) if s["dims"] == 1 else TWO[s["name"]](s["p"], s["dims"])


def data(s):
    """(X_for_smoother, y): bin numbers, weight sums, uncertainties; factors per bin."""
    r = np.random.RandomState(s["ds"] % 2**32)
    grid = np.stack(np.meshgrid(*[np.arange(k) for k in s["nb"]], indexing="ij"), -1).reshape(-1, len(s["nb"])).astype(float)
    if s.get("part"):
        # only some of the bins occur
        a, k = s["part"]
        grid = grid[a:a + k] if len(grid) > a else grid
    n = len(grid)
    w = r.uniform(0.5, 20, n)
    if s["zero"] == "all":
        w[:] = 0.0
    elif s["zero"]:
        w[r.uniform(0, 1, n) < 0.25] = 0.0
        w[0] = max(w[0], 1.0)
    sig = r.uniform(0.05, 1.0, n)
    y = r.normal(0, 1, n) + (-0.3 if s["neg"] else 0.3) * grid[:, -1]
    if s["inty"]:
        y = np.round(y * 3)
    return np.c_[grid, w, sig], y


def query(s, ds, m=9):
    """Rows to predict: seen bins, out-of-range and missing ones (whole bin numbers)."""
    r = np.random.RandomState(ds % 2**32)
    cols = [r.randint(-1, k + 2, m).astype(float) for k in s["nb"]]
    Q = np.stack(cols, -1)
    if s["dims"] == 1:
        if not s["name"].startswith(("Isotonic", "SeasonalLasso", "NRIso")):
            Q[r.uniform(0, 1, m) < 0.1, 0] = np.nan
    return Q


def build(s):
    X, y = data(s)
    return make(s), X, y, query(s, s["ds"] + 1)
