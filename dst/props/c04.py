"""C04: retraining forgets every earlier training and keeps the configuration."""
import copy

import numpy as np
from sklearn.base import clone

from cyclic_boosting import common_smoothers, observers

from .. import core, zoo
from ..fakes import Rates
from . import common as cm

RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("seeded: model configuration x history of 1-6 trainings on other data (rows, columns, category counts), "
        "requests (some aborted), copies, save/restore steps, clones and set_params, then a last training compared with "
        "a fresh object; non-trivial = history contains at least one earlier training, distinct = different history")
REAL = cm.REAL
STUB = ["none: histories of real calls, requests aborted by injected faults"]
ASSUME = cm.ASSUME


def generate(rng, tier):
    spec = zoo.any_spec(rng, p_other=0.25, kinds=zoo.FAST * 5 + zoo.SLOW, iters=(1, 4))
    if spec["kind"] in ("qpdS", "qpdB") and rng.random() < 0.5:
        spec = zoo.gen_other(rng, rng.choice(["binner", "ecdf"]))
    if spec["kind"] not in zoo.OTHER and rng.random() < 0.15 and spec["form"] != "numpy" and spec["kind"] in (
            "poisson", "location", "classifier", "nbinom"):
        spec["nogroups"] = True
        spec["groups"] = [[f] for f in sorted(spec["props"])]
        spec.pop("hier", None)
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        k = rng.choice(["fit", "fit", "fit", "request", "copy", "pickle", "clone", "param", "plot"])
        op = {"do": k, "ds": rng.randrange(1, 10**6), "n": rng.choice([spec["n"], rng.randrange(20, 70)]),
              "unseen": rng.random() < 0.5}
        if k == "request":
            op["req"] = rng.choice(zoo.requests_for(spec))
            op["fault"] = rng.choice([None, None, "KeyboardInterrupt", "MemoryError"])
            op["pick"] = core.gen_pick(rng)
        if k == "param":
            op["name"] = rng.choice(["maximal_iterations", "maximal_iterations", "minimal_loss_change", "n_bins", "aggregate",
                                     "minimal_factor_change", "learn_rate", "feature_groups", "smoother_choice"])
            op["value"] = rng.randrange(1, 4) if op["name"] != "learn_rate" else rng.randrange(1, 6)
        if k == "fit":
            op["drop"] = bool(spec.get("nogroups")) and rng.random() < 0.5
            op["hi"] = rng.choice([1.0, 1.0, 5.0])
        ops.append(op)
    if not any(o["do"] == "fit" for o in ops):
        ops.insert(0, {"do": "fit", "ds": rng.randrange(1, 10**6), "n": 40, "unseen": False, "drop": False, "hi": 1.0})
    return {"spec": spec, "obs": rng.choice([None, None, -1, 1, 2]), "ops": ops, "reuse": rng.random() < 0.4}


def make(case):
    spec = case["spec"]
    if spec["kind"] in zoo.OTHER:
        return zoo.make_other(spec)
    obs = [observers.PlottingObserver(iteration=case["obs"])] if case["obs"] else None
    return zoo.make_model(spec, observers_=obs)


def config(m):
    """Configured parameters in comparable form."""
    out = {}
    for k, v in m.get_params(deep=False).items() if not hasattr(m, "steps") else [
            (a + "__" + k, v) for a, s in m.steps for k, v in s.get_params(deep=False).items()]:
        if k.endswith("observers") or k == "steps":
            out[k] = None if v is None else len(v)
        else:
            out[k] = cm.freeze(v)
    return out


def recorded(m):
    est = zoo.est_of(m)
    out = []
    for o in getattr(est, "observers", None) or []:
        if isinstance(o, observers.PlottingObserver):
            out.append(cm.recording(o))
    return out


def prepare(spec, op, X):
    if op.get("drop") and hasattr(X, "columns") and len(spec["props"]) > 1:
        return X.drop(columns=[sorted(spec["props"])[-1]])
    return X


def data(spec, op):
    if spec["kind"] in zoo.OTHER:
        X, y = zoo.any_data(spec, op["ds"], op["n"])
    else:
        X, y = zoo.data(spec, op["ds"], op["n"], unseen=op["unseen"], hi=op.get("hi", 1.0))
    return prepare(spec, op, X), y


def apply_param(m, op):
    est = zoo.est_of(m)
    n, v = op["name"], op["value"]
    if n == "n_bins":
        b = m[0] if hasattr(m, "steps") else m
        if not hasattr(b, "n_bins") or isinstance(b.n_bins, dict):
            return
        b.set_params(n_bins=2 + v)
    elif n in est.get_params(deep=False):
        if n == "aggregate":
            est.set_params(aggregate=bool(v % 2))
        elif n == "maximal_iterations":
            est.set_params(maximal_iterations=v + 1)
        elif n == "learn_rate":
            est.set_params(learn_rate=Rates([[1.0], [0.5], [0.7, 1.0], [12.0] + [1.0] * 9, [1.0, -1.0, -1.0] + [0.5] * 9][v - 1]))
        elif n == "feature_groups":
            if est.feature_groups is not None and est.hierarchical_feature_groups is None:
                est.set_params(feature_groups=list(est.feature_groups)[-v:])
        elif n == "smoother_choice":
            if v > 1:
                est.set_params(smoother_choice=common_smoothers.SmootherChoiceGroupBy(use_regression_type=v == 2))
            else:
                est.set_params(smoother_choice=common_smoothers.SmootherChoiceWeightedMean())
        else:
            est.set_params(**{n: [1e-12, 1e-3, 0.05][v - 1]})


def execute(case, rep):
    spec = case["spec"]
    m = cm.setup(make, case)
    fresh = cm.setup(make, case)
    X, y = zoo.any_data(spec)
    q = zoo.any_query(spec, 23, 9)
    fits = 0
    cX, cy = cm.Container(case.get("reuse")), cm.Container(case.get("reuse"))
    resolved = []
    parts = []
    for i, op in enumerate(case["ops"]):
        k = op["do"]
        op2 = dict(op)
        if k == "fit":
            A, b = data(spec, op)
            A, b = cX.put(A), cy.put(b)
            before = config(m)
            o = core.solo(lambda: m.fit(A, b), "fit%d" % i)
            rep.steps += o.steps
            if o.kind == "ok":
                fits += 1
                d = zoo.diff(before, config(m))
                if d:
                    rep.violation("configuration", "%s: training changed a configured parameter: %s" % (spec["kind"], d))
            rep.mix("fit", o.describe())
            parts.append("fit%s%d" % ("d" if op.get("drop") else "", min(3, o.steps // 2000)))
        elif k == "request":
            Q = zoo.any_query(spec, op["ds"], op["n"] % 20 + 1, op["unseen"])
            req = zoo.REQ[op["req"]]
            faults = None
            if op["fault"]:
                _, prof = core.profile(lambda: req(copy.deepcopy(m), Q), "probe")
                st = core.resolve_fault(op["pick"], prof)
                op2["pick"] = ["step", st]
                faults = {st: op["fault"]}
            o = core.solo(lambda: req(m, Q), "req%d" % i, faults=faults)
            rep.outcome(o)
            parts.append("r:" + op["req"])
        elif k == "copy":
            m = copy.deepcopy(m)
            parts.append("c")
        elif k == "pickle":
            m = cm.roundtrip(m)
            parts.append("p")
        elif k == "clone":
            m2 = zoo.safe(clone, m)
            if not isinstance(m2, dict):
                m = m2
                if spec.get("hier"):  # not a constructor parameter of every estimator
                    zoo.est_of(m).training_iterations_hierarchical_features = 1
                parts.append("k")
        elif k == "param":
            apply_param(m, op)
            apply_param(fresh, op)
            parts.append("s:" + op["name"])
        elif k == "plot":
            est = zoo.est_of(m)
            for o in getattr(est, "observers", None) or []:
                if hasattr(o, "check_fitted") and cm.is_filled(o):
                    zoo.safe(cm.plot_some, o)
                    parts.append("plot")
        resolved.append(op2)
    rep.resolved = dict(case, ops=resolved)
    ref = core.solo(lambda: fresh.fit(zoo.clone_data(X), zoo.clone_data(y)), "ref")
    before = config(m)
    A, b = cX.put(X), cy.put(y)
    if cX.refilled:
        rep.fault("container-refilled", cX.refilled)
    got = core.solo(lambda: m.fit(A, b), "last", limit=60 * ref.steps + 2000000)
    rep.steps += ref.steps + got.steps
    if fits:
        rep.parts.append("|".join(parts) + spec["kind"] + spec["form"])
        rep.probe("histories_with_training")
    rep.probe("earlier_trainings", fits)
    if (ref.kind, type(ref.exc)) != (got.kind, type(got.exc)):
        rep.violation("outcome", "%s: retraining %s, fresh object %s" % (spec["kind"], got.describe(), ref.describe()))
        return
    if ref.kind != "ok":
        return
    d = zoo.diff(before, config(m))
    if d:
        rep.violation("configuration", "%s: training changed a configured parameter: %s" % (spec["kind"], d))
    d = zoo.diff(zoo.outputs(fresh, spec, q), zoo.outputs(m, spec, q))
    if d:
        rep.violation("remembers", "%s: retrained object differs from a fresh one: %s" % (spec["kind"], d))
    d = zoo.diff(recorded(fresh), recorded(m))
    if d:
        rep.violation("recording", "%s: plotting observer of the retrained object differs: %s" % (spec["kind"], d))
    if case["obs"]:
        rep.probe("with_observer")


def simplify(case):
    out = cm.simplify_spec(case)
    if case["obs"]:
        out.append(dict(case, obs=None))
    return out
