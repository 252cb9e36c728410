"""C14: training bookkeeping, predictions and explanations always agree."""
import numpy as np

from .. import core, zoo
from . import common as cm
from ..fakes import Rates

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("seeded: configuration x adversarial sequence of learning rates (diverging, negative, zero, huge) or extreme targets x "
        "earlier trainings x later requests; the in-sample prediction the training ended with is compared with the served "
        "prediction, and served predictions with prior/global scale combined with contributions; distinct = different "
        "configuration and divergence history; non-trivial = a training returned")
REAL = cm.REAL
STUB = ["learning rates come from a simulated adversary"]
ASSUME = cm.ASSUME
NICE = {"log": "mult", "id": "add", "logit": "odds"}


class Last:
    def __init__(self):
        self.pred = None
        self.div = 0
        self.losses = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.losses.append(float(estimator_state["insample_loss"]))
        if iteration == 0:
            self.pred, self.losses = None, self.losses[-1:]
        if iteration == -1:
            self.pred = np.array(prediction, dtype=float)

    def observe_feature_iterations(self, *a, **kw):
        pass


def generate(rng, tier):
    spec = zoo.gen_spec(rng, kinds=zoo.FAST * 6 + zoo.SLOW, n=(20, 50), iters=(1, 7))
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        style = rng.choice(["plain", "wild", "wild", "pulse", "pulse"])
        if style == "plain":
            lr = [rng.choice([1.0, 0.5])]
        elif style == "wild":
            lr = [rng.choice([1.0, 0.5, -1.0, 3.0, 6.0, 0.0, 12.0, 40.0, -6.0]) for _ in range(rng.randrange(1, 6))]
        else:  # diverge for a while, then behave
            lr = [rng.choice([6.0, 12.0, 40.0, -6.0])] * rng.randrange(1, 4) + [rng.choice([1.0, 0.3])] * 8
        ops.append({"lr": lr, "ds": rng.randrange(1, 10**6), "scale": rng.choice([1.0, 1.0, 1.0, 30.0, 1e3]),
                    "how": rng.choice(["fit", "fit", "fit_transform"]), "observed": rng.random() < 0.8})
    return {"spec": spec, "ops": ops, "qds": rng.randrange(1, 10**6), "requests": rng.randrange(0, 3)}


def combined(est, spec, X, query):
    """Prior or global scale combined with the reported contributions, on the scale of the prediction; None if the estimator
    does not report contributions for this input."""
    c = zoo.safe(est.get_feature_contributions, X)
    if "raises" in c:
        return None
    link = est.link_func
    if not hasattr(est, "global_scale_link_") or not hasattr(est, "prior_pred_link_offset_"):
        return None
    if spec.get("prior"):
        pr = np.asarray(query, dtype=float)
        if spec["kind"] == "nbinomc":
            pr = np.clip(pr, 0, 1)
        with np.errstate(all="ignore"):
            base = link(pr) + est.prior_pred_link_offset_
        base = np.where(np.isfinite(base), base, est.global_scale_link_)
    else:
        base = np.repeat(float(est.global_scale_link_), len(X))
    good = np.ones(len(X), dtype=bool)  # rows whose contributions can be taken back to link space without loss
    for v in c.values():
        v = np.asarray(v, dtype=float)
        good &= np.isfinite(v)
        if zoo.LINK[spec["kind"]] == "logit":
            good &= (v > 1e-9) & (v < 1 - 1e-7)
        elif zoo.LINK[spec["kind"]] != "id":
            good &= v > 0
        with np.errstate(all="ignore"):
            base = base + link(v)
    return np.asarray(est.unlink_func(base), dtype=float), good


def exponential(est, spec, X, query):
    """Like combined() for log(p) = factors + (price - 1) * prior exponent * contributions of the external features."""
    c = zoo.safe(est.get_feature_contributions, X)
    if "raises" in c:
        return None

    def column(name):
        return np.asarray(X[name].values if hasattr(X, "columns") else X[:, spec["cols"].index(name)], dtype=float)

    if not hasattr(est, "global_scale_link_") or not hasattr(est, "prior_pred_link_offset_"):
        return None
    if spec.get("prior"):
        with np.errstate(all="ignore"):
            base = np.log(np.asarray(query, dtype=float)) + est.prior_pred_link_offset_
        base = np.where(np.isfinite(base), base, est.global_scale_link_)
    else:
        base = np.repeat(float(est.global_scale_link_), len(X))
    price = column("p") - 1
    price = np.where(np.isfinite(price), price, 0.0)
    expo = column("pe") if spec.get("pexp") else np.repeat(-1.0, len(X))
    good = np.ones(len(X), dtype=bool)
    for k, v in c.items():
        v = np.asarray(v, dtype=float)
        good &= np.isfinite(v) & (v > 0)
        with np.errstate(all="ignore"):
            if k.endswith("_external"):
                expo = expo * v
            else:
                base = base + np.log(v)
    return np.exp(base + expo * price), good


def scaled(spec, y, f):
    if f == 1.0 or spec["kind"] in ("classifier", "cgeneric", "gbs", "nbinomc"):
        return y
    return y * f if spec["kind"] in ("location", "aquantile", "ageneric") else (y * f).round()


def execute(case, rep):
    spec = case["spec"]
    watch = Last()
    ft_ok = spec["form"] != "numpy" and spec["kind"] not in ("exponential", "nbinomc")
    m = cm.setup(zoo.make_model, spec, observers_=[watch], learn_rate=Rates([1.0]), output_column="OUT")
    est = zoo.est_of(m)
    q = zoo.query(spec, case["qds"], 8)
    fitted = False
    for i, t in enumerate(case["ops"]):
        X, y = zoo.data(spec, t["ds"])
        y = scaled(spec, y, t["scale"])
        est.set_params(learn_rate=Rates(list(t["lr"])), observers=[watch] if t["observed"] else [])
        watch.pred = None
        ft = t["how"] == "fit_transform" and ft_ok
        A = zoo.clone_data(X)
        o = core.solo(lambda: m.fit_transform(A, zoo.clone_data(y))["OUT"].values.astype(float) if ft else m.fit(
            A, zoo.clone_data(y)) and None, "train%d" % i, limit=8000000)
        rep.outcome(o)
        if o.limit_hit:
            rep.violation("no-progress", "%s: training does not end" % spec["kind"])
            return
        if o.kind != "ok":
            rep.probe("failed_" + type(o.exc).__name__)
            fitted = False
            continue
        fitted = True
        rep.fault("learning-rate-sequence")
        div = sum(1 for v in watch.losses[1:] if v > 2 * watch.losses[0]) if t["observed"] else 0
        if div:
            rep.probe("returned_after_diverging")
        rep.parts.append("%s/%s/%s/%d/%s" % (spec["kind"], spec.get("agg"), t["lr"], div, t["scale"]))
        where = "%s%s, training %d (%d diverging iterations)" % (spec["kind"], "" if spec.get("agg") else " not aggregated", i + 1, div)
        got = zoo.served(m, X)
        for name, want in (("training ended with", watch.pred), ("fit_transform returned", o.value if ft else None)):
            if want is None:
                continue
            d = zoo.diff(want, got, "", 1e-6, 1e-8)
            if d:
                rep.violation("disagree", "%s: prediction %s is not the one served for the same rows: %s" % (where, name, d))
                return
            rep.probe("compared")
        if t["observed"] and watch.pred is None:
            rep.violation("disagree", "%s: no final notification" % where)
            return
        # the loss reported is the loss of that prediction
        for k in range(case["requests"]):
            zoo.safe(zoo.REQ[["contrib", "extended", "importances"][k]], m, q)
        for frame in (X, q):
            b = zoo.pre(m, frame)
            pr = None
            if spec.get("prior"):
                pr = b["pr"].values if hasattr(b, "columns") else b[:, spec["cols"].index("pr")]
            c = combined(est, spec, b, pr) if spec["kind"] != "exponential" else exponential(est, spec, b, pr)
            if c is None:
                continue
            c, good = c
            c = c[good]
            p = zoo.served(m, frame)[good]
            d = zoo.diff(p, c, "", 1e-6, 1e-8)
            if d:
                rep.violation("explanation", "%s: prediction is not prior/global scale combined with the contributions: %s" % (
                    where, d))
                return
            rep.probe("explained")
            if spec["kind"] not in ("classifier", "locpoisson", "gbs", "cgeneric", "nbinomc"):
                d = zoo.diff(np.asarray(m.predict(frame), dtype=float)[good], c, "", 1e-6, 1e-8)
                if d:
                    rep.violation("explanation", "%s: predict() is not prior/global scale combined with contributions: %s" % (
                        where, d))
                    return
            elif spec["kind"] == "classifier":
                d = zoo.diff(np.asarray(m.predict_proba(frame), dtype=float)[good, 1], c, "", 1e-6, 1e-8)
                if d:
                    rep.violation("explanation", "%s: predict_proba() is not prior/global scale combined with contributions: "
                                  "%s" % (where, d))
                    return
    rep.resolved = dict(case)


def simplify(case):
    out = cm.simplify_spec(case)
    for i, t in enumerate(case["ops"]):
        if len(t["lr"]) > 1:
            for k in range(len(t["lr"])):
                out.append(dict(case, ops=case["ops"][:i] + [dict(t, lr=t["lr"][:k] + t["lr"][k + 1:])] + case["ops"][i + 1:]))
        if t["scale"] != 1.0:
            out.append(dict(case, ops=case["ops"][:i] + [dict(t, scale=1.0)] + case["ops"][i + 1:]))
    return out
