"""C05: data and configuration passed in are never modified, not even temporarily."""
import numpy as np
import pandas as pd

from cyclic_boosting import common_smoothers, interaction_selection, observers
from cyclic_boosting import quantile_matching as qm

from .. import core, zoo
from . import common as cm
from . import smooth_zoo as sz

RUNS = {"quick": 2600, "thorough": 45000}
RULE = ("seeded: call (training, request, transformation, smoothing, interaction selection, quantile distribution) x "
        "configuration x nasty input values and memory layouts x abort at a drawn line; inputs compared bit for bit at "
        "every executed package line; distinct = different (call, configuration shape, abort site), non-trivial = the "
        "inputs were compared at more than 20 instants")
REAL = cm.REAL
STUB = ["none: observation at every line, faults raised by the simulator"]
ASSUME = cm.ASSUME


class Watch:
    """Bit-exact snapshot of one caller-owned object, cheap to re-check at every step."""

    def __init__(self, name, obj, allow_col=None):
        self.name, self.obj, self.allow = name, obj, allow_col
        if isinstance(obj, (pd.DataFrame, pd.Series)):
            self.kind = "pd"
            self._scan()
            self.cols = self._columns()
            self.index = obj.index
            self.index_v = np.array(obj.index)
        elif isinstance(obj, np.ndarray):
            self.kind = "np"
            self.ref, self.dtype, self.shape = obj.tobytes(), obj.dtype, obj.shape
        else:
            self.kind = "cfg"
            self.ref = cm.freeze(obj, inner=True)

    def _columns(self):
        o = self.obj
        if isinstance(o, pd.Series):
            return [(o.name, o.dtype, o.to_numpy().tobytes())]
        return [(c, o.dtypes.iloc[i], o.iloc[:, i].to_numpy().tobytes()) for i, c in enumerate(o.columns)]

    def _scan(self):
        m = self.obj._mgr
        self.blocks = tuple(m.blocks)
        self.vals = [(b.values, np.asarray(b.values).tobytes()) for b in self.blocks]
        self.axes = tuple(m.axes)

    def check(self, full=True):
        if self.kind == "np":
            if self.obj.tobytes() != self.ref or self.obj.dtype != self.dtype or self.obj.shape != self.shape:
                return "%s: array values changed" % self.name
            return None
        if self.kind == "pd":
            m = self.obj._mgr
            if len(m.blocks) == len(self.blocks) and all(a is b for a, b in zip(m.blocks, self.blocks)) and all(
                    a is b for a, b in zip(m.axes, self.axes)) and all(
                    np.asarray(v).tobytes() == ref for v, ref in self.vals):
                return None
            now = self._columns()
            if self.allow is not None and len(now) == len(self.cols) + 1 and now[-1][0] == self.allow:
                now = now[:-1]
            if len(now) != len(self.cols):
                return "%s: columns are now %s" % (self.name, [c[0] for c in now])
            for a, b in zip(self.cols, now):
                if a[0] != b[0]:
                    return "%s: column %r became %r" % (self.name, a[0], b[0])
                if a[1] != b[1]:
                    return "%s: dtype of %r changed from %s to %s" % (self.name, a[0], a[1], b[1])
                if a[2] != b[2]:
                    return "%s: values of %r changed" % (self.name, a[0])
            if not np.array_equal(np.array(self.obj.index), self.index_v):
                return "%s: index changed" % self.name
            if self.allow is None:
                self._scan()  # same content, other internal layout
            return None
        if not full:
            return None
        d = zoo.diff(self.ref, cm.freeze(self.obj, inner=True), rtol=0, atol=0)
        return "%s: %s" % (self.name, d) if d else None


def nastify(rng, X, spec):
    """Values libraries like to repair in place."""
    if not hasattr(X, "columns"):
        cols = spec["cols"]
        X = X.copy()
        for c, vals in (("pr", [np.nan, 0.0, -1.0, np.inf, 1.5]), ("w", [0.0]), ("p", [np.nan, 1.0]), ("pe", [-1.0])):
            if c in cols:
                i = rng.randrange(len(X))
                X[i:i + 3, cols.index(c)] = vals[rng.randrange(len(vals))]
        return X
    X = X.copy()
    for c, vals in (("pr", [np.nan, 0.0, -1.0, np.inf, 1.5]), ("w", [0.0]), ("p", [np.nan, 1.0])):
        if c in X.columns:
            i = rng.randrange(len(X))
            X.iloc[i:i + 3, list(X.columns).index(c)] = vals[rng.randrange(len(vals))]
    return X


def layout(rng_u, X):
    """Memory layout of the container: fresh copy, single block, Fortran order, view into a larger array."""
    if isinstance(X, np.ndarray):
        if rng_u < 0.3:
            return np.asfortranarray(X)
        if rng_u < 0.6:
            big = np.zeros((len(X) * 2, X.shape[1] + 1))
            big[::2, :-1] = X
            return big[::2, :-1]
        return X.copy()
    if rng_u < 0.4:
        return pd.DataFrame(X.values.copy(), columns=X.columns, index=X.index)
    if rng_u < 0.7:
        return pd.DataFrame({c: X[c].values.copy() for c in X.columns}, index=X.index)
    return X.copy()


def target(form, y, X):
    """Container of the target."""
    if form == "series":
        return pd.Series(np.array(y), index=getattr(X, "index", None))
    if form == "view":
        big = np.zeros((len(y), 3))
        big[:, 1] = y
        return big[:, 1]
    if form == "int" and np.array_equal(y, np.round(y)):
        return np.asarray(y).astype(int)
    return y


def generate(rng, tier):
    what = rng.choice(["fit", "fit", "fit", "request", "request", "request", "smoother", "smoother", "outcol", "inplace",
                       "select", "qpd", "bintrans"])
    case = {"what": what, "u": round(rng.random(), 4), "nasty": rng.random() < 0.6, "nseed": rng.randrange(10**6),
            "faults": [], "every": rng.choice([1, 1, 2]), "off": rng.randrange(2)}
    if what in ("fit", "request"):
        case["spec"] = zoo.any_spec(rng, p_other=0.2, kinds=zoo.FAST * 5 + zoo.SLOW, n=(24, 45), iters=(1, 3))
        if case["spec"]["kind"] in ("qpdS", "qpdB") and rng.random() < 0.6:
            case["spec"] = zoo.gen_spec(rng, kinds=zoo.FAST, n=(24, 45), iters=(1, 3))
        if what == "fit":
            case["obs"] = rng.choice([None, None, None, 1, -1])
            case["yform"] = rng.choice(["array", "array", "series", "view", "int"])
        if what == "request":
            case["req"] = rng.choice(zoo.requests_for(case["spec"]))
            case["qds"], case["n"] = rng.randrange(1, 10**6), rng.choice([1, 4, 15])
    elif what in ("outcol", "inplace"):
        case["spec"] = zoo.gen_spec(rng, kinds=["poisson", "location", "classifier", "nbinom", "gbs"], n=(24, 45),
                                    forms=("pipe",) if what == "inplace" else ("direct",))
        case["ft"] = rng.random() < 0.5
    elif what == "bintrans":
        case["spec"] = zoo.gen_other(rng, rng.choice(["binner", "ecdf"]))
        case["intcols"] = rng.random() < 0.4
    elif what == "smoother":
        case["sm"] = sz.gen(rng)
        case["predict"] = rng.random() < 0.5
    elif what == "select":
        case["ds"], case["n"], case["dim"], case["k"] = rng.randrange(1, 10**6), rng.randrange(25, 50), 2, rng.choice([1, 2])
        case["cls"] = rng.random() < 0.5
    else:
        case["ds"], case["bound"] = rng.randrange(1, 10**6), rng.choice(["S", "B", "fit"])
        case["version"] = rng.choice(["normal", "logistic"])
    if rng.random() < 0.4:
        case["faults"] = [{"op": "call", "pick": core.gen_pick(rng),
                           "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError"])}]
    return case


def scenario(case):
    """-> (callable, list of watches, label)"""
    import random

    rng = random.Random(case["nseed"])
    what = case["what"]
    if what in ("fit", "request", "outcol", "inplace", "bintrans"):
        spec = case["spec"]
        kw = {}
        props = None
        watches = []
        if spec["kind"] not in zoo.OTHER:
            props = zoo.props_of(spec)
            sc = zoo._choice(spec.get("smooth"), props) or common_smoothers.SmootherChoiceGroupBy(
                explicit_smoothers={})
            kw = {"feature_properties": props, "smoother_choice": sc}
            watches += [Watch("feature_properties", props), Watch("smoother choice", sc)]
            if case.get("obs"):
                kw["observers_"] = [observers.PlottingObserver(iteration=case["obs"])]
            if what == "outcol":
                kw["output_column"] = "OUT"
        m = zoo.any_model(spec, **kw)
        est = zoo.est_of(m)
        for name in ("feature_groups", "standard_feature_groups", "external_feature_groups",
                     "hierarchical_feature_groups", "n_bins", "feature_properties"):
            v = getattr(est, name, None)
            if isinstance(v, (list, dict)):
                watches.append(Watch(name, v))
        if what == "inplace":
            m[0].inplace = True
        X, y = zoo.any_data(spec)
        if case["nasty"]:
            X = nastify(rng, X, spec)
        X = layout(case["u"], X)
        if case.get("intcols") and hasattr(X, "columns"):
            for c in X.columns:
                if c in "abe":
                    X[c] = X[c].fillna(1).astype(int)
        label = "%s/%s/%s" % (what, spec["kind"], spec["form"])
        if what == "fit":
            y = target(case.get("yform"), y, X)
            watches += [Watch("X", X), Watch("y", y)]
            return (lambda: m.fit(X, y) and None), watches, label
        if what == "bintrans":
            cm.setup(m.fit, X.copy())
            Q = layout(case["u"], zoo.any_query(spec, 31, 12))
            watches += [Watch("X", X), Watch("Q", Q)]
            if case["u"] < 0.5:
                return (lambda: m.transform(Q) is None), watches, label
            return (lambda: m.fit_transform(X) is None), watches, label
        if what == "inplace":
            watches += [Watch("y", y)]
            return (lambda: m.fit(X, y) and None), watches, label
        if what == "outcol":
            watches += [Watch("X", X, allow_col="OUT"), Watch("y", y)]
            if case["ft"]:
                return (lambda: m.fit_transform(X, y) is None), watches, label
            cm.setup(m.fit, X.copy(), y)
            return (lambda: m.transform(X) is None), watches, label
        cm.setup(m.fit, X.copy(), y)
        Q = zoo.any_query(spec, case["qds"], case["n"])
        if case["nasty"]:
            Q = nastify(rng, Q, spec)
        Q = layout(case["u"], Q)
        watches += [Watch("Q", Q)]
        req = zoo.REQ[case["req"]]
        if case["req"] == "influence":
            cats = {f.feature_group: "cat%d" % (i % 2) for i, f in enumerate(est.features)}
            watches.append(Watch("influence categories", cats))
            return (lambda: est.predict_extended(zoo.pre(m, Q), cats) and None), watches, label + "/influence"
        return (lambda: req(m, Q) is None), watches, label + "/" + case["req"]
    if what == "smoother":
        sm, X, y, Q = sz.build(case["sm"])
        watches = [Watch("X_for_smoother", X), Watch("y", y), Watch("Q", Q)]
        if case["predict"]:
            cm.setup(sm.fit, X.copy(), y.copy())
            return (lambda: sm.predict(Q) is None), watches, "smoother.predict/" + case["sm"]["name"]
        return (lambda: sm.fit(X, y) is None), watches, "smoother.fit/" + case["sm"]["name"]
    if what == "select":
        X = zoo.make_X(case["ds"], case["n"])[["a", "b", "c"]]
        y = zoo.make_y("classifier" if case["cls"] else "location", zoo.make_X(case["ds"], case["n"]), case["ds"])
        X = layout(case["u"], X)
        props = {"a": zoo.FLAG["U"], "b": zoo.FLAG["O"], "c": zoo.FLAG["C"]}
        watches = [Watch("X", X), Watch("y", y), Watch("feature_properties", props)]
        return (lambda: interaction_selection.select_interaction_terms_anova(
            X, y, props, case["dim"], case["k"], case["cls"]) is None), watches, "select"
    r = np.random.RandomState(case["ds"] % 2**32)
    q = np.sort(r.uniform(0.05, 0.95, (6, 3)), axis=1)
    lo, med, hi = (q[:, i].copy() for i in range(3))
    x = r.uniform(0.1, 0.9, 6)
    ys = r.uniform(0.05, 0.95, 40)
    levels, values = np.array([0.1, 0.3, 0.5, 0.7, 0.9]), np.sort(r.uniform(1, 5, 5))
    watches = [Watch(n, v) for n, v in (("qv_low", lo), ("qv_median", med), ("qv_high", hi), ("x", x), ("y", ys),
                                        ("quantiles", levels), ("quantile_values", values))]

    def call():
        if case["bound"] == "fit":
            a = [0.2, float(lo[0]), float(med[0]), float(hi[0])]
            for d in (qm.J_QPD_extended_S(*a, l=0), qm.J_QPD_extended_B(*a, l=0, u=1, shape=0.5),
                      qm.J_QPD_extended_U(*a, version=case["version"])):
                d.ppf(x), d.cdf(x)
            qm.fit_sinhlogistic_shape(0.2, 0.0, 1.0, "S", ys)
            qm.quantile_fit_gaussian(levels, values)(x)
            qm.quantile_fit_spline(levels, values)(x)
            return False
        if case["bound"] == "S":
            d = qm.J_QPD_S(0.2, lo, med, hi, l=0, version=case["version"])
        else:
            d = qm.J_QPD_B(0.2, lo, med, hi, l=0, u=1, version=case["version"])
        return [d.ppf(x), d.ppf(x, inner=True), d.cdf(x), d.cdf(x, inner=True)] is None

    return call, watches, "qpd"


def execute(case, rep):
    prof = []
    if case["faults"]:
        fn, _, _ = cm.setup(scenario, case)
        _, prof = core.profile(fn, "call")
    fn, watches, label = cm.setup(scenario, case)
    table, resolved = cm.resolve_faults(case["faults"], {"call": prof} if case["faults"] else {})
    bad = []
    fast = [w for w in watches if w.kind != "cfg"]
    n = [0]

    def hook(call, code, where):
        n[0] += 1
        if bad:
            return
        for w in (watches if call.step % 97 == 0 else fast):
            d = w.check()
            if d:
                bad.append((d, core.loc_id(code, where), call.step))
                return

    o = core.solo(fn, "call", faults=table.get("call"), hook=hook, hook_every=case["every"], limit=20000000)
    rep.outcome(o)
    rep.resolved = dict(case, faults=resolved)
    rep.probe("instants_compared", n[0])
    rep.probe("calls_" + case["what"])
    if n[0] > 20:
        rep.parts.append(label)
    if bad:
        d, loc, step = bad[0]
        rep.violation("modified-during", "%s: %s (seen at %s, step %d)" % (label, d, loc, step))
        return
    for w in watches:
        d = w.check()
        if d:
            rep.violation("modified-after", "%s: %s after the call (%s)" % (label, d, o.describe()))
            return


def simplify(case):
    out = cm.simplify_spec(case) if "spec" in case and case["spec"]["kind"] not in zoo.OTHER else []
    if case["nasty"]:
        out.append(dict(case, nasty=False))
    if case["u"] != 0.9:
        out.append(dict(case, u=0.9))
    return out
