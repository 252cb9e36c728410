"""C11: training always terminates by the documented rules, even when diverging."""
import math

import numpy as np

from cyclic_boosting.base import CyclicBoostingBase  # noqa

from .. import core, zoo
from ..fakes import Rates
from . import common as cm

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("seeded: configuration (iteration limit, minimal loss and factor change, hierarchical warm-up) x adversarial sequence "
        "of learning rates and, in half the runs, of loss values (boundary values, jumps, zero, non-finite) x earlier "
        "trainings of the same object; the iterations an observer saw are replayed by a reference model of the stop rules; "
        "distinct = different rules, sequence and number of iterations; non-trivial = a training was judged")
REAL = cm.REAL
STUB = ["learning rates and loss values come from a simulated adversary"]
ASSUME = cm.ASSUME + ["the loss and factor change an observer is told are the ones the rules refer to (C07 checks the loss)"]
KINDS = ["poisson", "location", "classifier", "nbinom", "locpoisson", "gbs", "nbinomc", "exponential"]


class Watch:
    """Observer recording what the stop rules depend on."""

    def __init__(self):
        self.seen = []
        self.idx = 0
        self.factors = []  # [before, after] each iteration

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        self.seen.append((iteration, float(estimator_state["insample_loss"]), float(delta)))
        self.idx = iteration + 1
        self.factors.append([self.copy(estimator_state), None])

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state, quantile=None):
        self.factors[-1][1] = self.copy(estimator_state)

    @staticmethod
    def copy(estimator_state):
        fs = [getattr(f, "factors_link", None) for f in getattr(estimator_state["link_function"], "features", ())]
        return None if any(f is None for f in fs) else [np.array(f, dtype=float) for f in fs]


def script(watch, values):
    """Loss method returning the adversary's value for the current iteration."""

    def loss(self, prediction, y, weights):
        i = min(watch.idx, len(values) - 1)
        return {"nan": math.nan, "inf": math.inf}.get(values[i], values[i])

    return loss


def gen_losses(rng, mlc):
    base = rng.choice([1.0, 4.0, 0.5])
    out = [base]
    style = rng.choice(["mixed", "diverge", "boundary", "calm"])
    for _ in range(14):
        prev = out[-1] if isinstance(out[-1], float) else base
        c = {
            "mixed": [prev * 0.5, prev, prev * 1.5, base * 2, base * 2.0000001, base * 5, 0.0, prev * 0.9, "nan", "inf"],
            "diverge": [base * 3, base * 2.5, base * 2.1, base * 0.9, base * 10, "inf"],
            "boundary": [prev * (1 - mlc), prev * (1 + mlc), base * 2, base * (2 + 1e-9), prev],
            "calm": [prev * 0.5, prev * 0.7, prev * 0.9, prev * 1.1],
        }[style]
        v = rng.choice(c)
        out.append(v if isinstance(v, str) else float(v))
    return out


def generate(rng, tier):
    trainings = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        mlc = rng.choice([1e-12, 0.25, 0.5, 0.05])
        t = {"iters": rng.choice([1, 2, 3, 4, 6, 8]), "mlc": mlc, "mfc": rng.choice([1e-12, 1e-12, 1e-3, 0.05, 0.3, 3.0]),
             "lr": [rng.choice([1.0, 1.0, 0.5, -1.0, 3.0, 6.0, 0.0, 12.0, 40.0, -6.0, 1e-3]) for _ in range(rng.randrange(1, 7))],
             "warm": rng.choice([0, 1, 1, 2, 3, 4]), "losses": gen_losses(rng, mlc) if rng.random() < 0.55 else None,
             "ds": rng.randrange(1, 10**6)}
        if rng.random() < 0.06:
            t["lr"][-1] = rng.choice(["inf", "nan", "-inf"])
        trainings.append(t)
    spec = zoo.gen_spec(rng, kinds=KINDS, n=(20, 40), iters=(1, 4))
    if len(spec["groups"]) > 2:
        spec["groups"] = spec["groups"][:3]
    if rng.random() < 0.3 and spec["kind"] in ("poisson", "location", "classifier", "nbinom") and len(spec["groups"]) > 1 \
            and not spec.get("nogroups"):
        spec["hier"] = 1
    return {"spec": spec, "ops": trainings}


def judge(t, hier, seen, outcome, crit, iteration_):
    """Reference model: replay the recorded losses and factor changes; text of the first disagreement or None."""
    losses = [s[1] for s in seen]
    finished = bool(seen) and seen[-1][0] == -1
    n = len(seen) - 1 if finished else len(seen)
    diverged = 0
    for k in range(len(seen)):
        loss, delta = losses[k], seen[k][2]
        div = k > 0 and loss > 2 * losses[0]
        diverged += div
        if diverged >= 5:
            return "training went on after the fifth diverging iteration (%d)" % k
        if k == 0:
            change, delta = math.inf, math.inf
        else:
            change = losses[k - 1] - loss
            if losses[k - 1] != 0:
                change /= losses[k - 1]
        if abs(abs(change) - t["mlc"]) <= 1e-12 < t["mlc"] and (abs(change) != t["mlc"] or t["mlc"] == 0.05):
            return None  # decided by rounding only
        met = (k >= t["iters"], delta <= t["mfc"], abs(change) <= t["mlc"])
        stop = any(met) and not (hier and k <= t["warm"]) and not div
        last = finished and k == n
        if stop and not last:
            return "criteria %s met after %d iterations, but the training went on (limit %d, loss %s -> %s, factor change %s)" % (
                met, k, t["iters"], losses[k - 1] if k else None, loss, delta)
        if last and not stop:
            return "training ended after %d iterations although no criterion was met or the loss diverged (limit %d, %s, " \
                   "diverging %s, loss %s -> %s, factor change %s)" % (n, t["iters"], met, div, losses[k - 1] if k else None,
                                                                       loss, delta)
        if last:
            if crit is not None and tuple(bool(c) for c in crit) != met:
                return "reported stop criteria %s, met are %s" % (tuple(crit), met)
            if iteration_ is not None and iteration_ != n:
                return "reports %s iterations, the observer saw %d" % (iteration_, n)
    bound = max(t["iters"], t["warm"] + 1 if hier else 0) + 4
    if n > bound:
        return "%d iterations, limit is %d" % (n, t["iters"])
    if not finished and outcome == "ConvergenceError" and diverged != 4:
        return "convergence error after %d diverging iterations" % (diverged + 1)
    if outcome == "ok" and not finished:
        return "training returned without the final notification"
    return None


def changes(seen, factors):
    """Compare the factor changes told with those between the factors seen; text of the first disagreement or None."""
    for k in range(1, len(seen)):
        old, new = factors[k - 1]
        if not new:
            continue
        if old is None and k == 1:
            old = [np.zeros_like(f) for f in new]
        if not old or [f.shape for f in old] != [f.shape for f in new]:
            continue
        with np.errstate(all="ignore"):
            want = float(np.mean([np.mean(np.abs(b - a)) for a, b in zip(old, new)]))
        if math.isfinite(want) and not math.isclose(want, seen[k][2], rel_tol=1e-9, abs_tol=1e-12):
            return "iteration %d changed the factors by %r on average, the stop rule was given %r" % (k, want, seen[k][2])
    return None


def execute(case, rep):
    spec = dict(case["spec"])
    hier = bool(spec.get("hier"))
    watch = Watch()
    m = cm.setup(zoo.make_model, spec, observers_=[watch], learn_rate=Rates([1.0]))
    est = zoo.est_of(m)
    cls = type(est)
    for i, t in enumerate(case["ops"]):
        X, y = zoo.data(spec, t["ds"])
        watch.seen, watch.idx, watch.factors = [], 0, []
        est.set_params(maximal_iterations=t["iters"], minimal_loss_change=t["mlc"], minimal_factor_change=t["mfc"],
                       learn_rate=Rates([float(v) for v in t["lr"]]))
        est.training_iterations_hierarchical_features = t["warm"]
        est.__class__ = type(cls.__name__, (cls,), {"loss": script(watch, t["losses"]), "__init__": cls.__init__}) \
            if t["losses"] else cls
        o = core.solo(lambda: m.fit(X, y) is None, "train%d" % i, limit=8000000)
        rep.outcome(o)
        name = type(o.exc).__name__ if o.exc is not None else "ok"
        where = "%s, training %d" % (spec["kind"], i + 1)
        if o.limit_hit:
            rep.violation("no-progress", "%s: no end after %d steps, %d iterations seen" % (where, o.steps, len(watch.seen)))
            return
        rep.probe("end_" + (name if name in ("ok", "ConvergenceError") else "other"))
        if not watch.seen:
            continue
        d = judge(t, hier, watch.seen, name, getattr(est, "stop_criteria_", None) if name == "ok" else None,
                  getattr(est, "iteration_", None) if name == "ok" else None)
        if d:
            rep.violation("stop-rule", "%s: %s" % (where, d))
            return
        d = changes(watch.seen, watch.factors)
        if d:
            rep.violation("factor-change", "%s: %s" % (where, d))
            return
        L = [s[1] for s in watch.seen]
        div = sum(1 for v in L[1:] if v > 2 * L[0])
        rep.probe("diverging_iterations", div)
        if t["losses"]:
            rep.fault("loss-sequence")
        rep.fault("learning-rate-sequence")
        rep.parts.append("%s/%d/%s/%s/%d/%s" % (spec["kind"], t["iters"], t["mlc"], t["mfc"], len(L), name))
        if hier:
            rep.probe("with_warm_up")
    rep.resolved = dict(case)


def simplify(case):
    out = cm.simplify_spec(case)
    for i, t in enumerate(case["ops"]):
        for alt in (dict(t, losses=None), dict(t, lr=[1.0]), dict(t, mfc=1e-12), dict(t, mlc=1e-12)):
            if alt != t:
                out.append(dict(case, ops=case["ops"][:i] + [alt] + case["ops"][i + 1:]))
    return out
