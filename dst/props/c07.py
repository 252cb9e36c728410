"""C07: observers see every iteration exactly once, in order, and change nothing."""
import numpy as np

from cyclic_boosting import observers

from .. import core, fakes, zoo
from . import common as cm

RUNS = {"quick": 2000, "thorough": 40000}
RULE = ("seeded: configuration x list of observers x (failing observer at a drawn notification | adversarial learning "
        "rate | overlap with another observed training under a drawn schedule | undisturbed) x later activity (other "
        "trainings, requests, plotting, retraining with other observers); distinct = different configuration, fault or "
        "schedule; non-trivial = at least two notifications were recorded")
REAL = cm.REAL
STUB = ["observers and learning rate are simulated user callbacks"] + cm.STUB_SCHED
ASSUME = cm.ASSUME


class Spy(fakes.Recorder):
    """Recorder that also notes the global order, checks the loss it is told and digests its neighbours' records."""

    def __init__(self, name, glob, neighbours, **kw):
        super().__init__(name, **kw)
        self.glob, self.neighbours = glob, neighbours
        self.digests = {}
        self.losses = []

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        est = estimator_state["link_function"]
        self.losses.append((iteration, estimator_state["insample_loss"], est.loss(prediction, y, weights)))
        for o in self.neighbours:
            if cm.is_filled(o) and id(o) not in self.digests:
                self.digests[id(o)] = cm.recording(o)
        self.glob.append((self.name, "it", iteration))
        super().observe_iterations(iteration, X, y, prediction, weights, estimator_state, delta, quantile)

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.glob.append((self.name, "fe", iteration))
        super().observe_feature_iterations(iteration, feature_i, X, y, prediction, weights, estimator_state)


def gen_spec(rng):
    return zoo.gen_spec(rng, kinds=zoo.FAST * 4 + zoo.SLOW, n=(24, 50), iters=(1, 6))


def generate(rng, tier):
    spec = gen_spec(rng)
    case = {"spec": spec, "mode": rng.choice(["plain", "plain", "fail", "fail", "lr", "overlap"]), "faults": [],
            "obs": [rng.choice(["spy", "spy", -1, 1, 2]) for _ in range(rng.choice([0, 1, 2]))],
            "t": rng.randrange(1, 6), "later": [rng.choice(["other", "request", "plot", "retrain", "pickle"])
                                               for _ in range(rng.randrange(0, 3))],
            "how": rng.choice(["fit", "fit", "fit_transform"]), "alike": rng.random() < 0.3}
    if case["mode"] == "fail":
        case["at"], case["who"] = rng.choice([1, 2, 3, 5, 8, 13]), rng.randrange(4)
        case["exc"] = rng.choice(["RuntimeError", "ValueError", "KeyboardInterrupt", "MemoryError", "AttributeError",
                                  "TypeError", "KeyError", "IndexError", "StopIteration"])
    if case["mode"] == "lr":
        case["vals"] = [rng.choice([1.0, 0.5, -1.0, 3.0, 6.0, 0.0]) for _ in range(rng.randrange(1, 5))]
    if case["mode"] == "overlap":
        case["spec2"] = gen_spec(rng)
        case["sched"] = cm.gen_sched(rng, ["f0", "f1"], gran_ins=0.05)
    return case


OTHER_EXC = {"AttributeError": AttributeError, "TypeError": TypeError, "KeyError": KeyError, "IndexError": IndexError,
             "StopIteration": StopIteration}


class Failing(Spy):
    """Observers may define equality (a dataclass, say); with `alike` all of them are equal."""

    alike = False

    def __eq__(self, other):
        return self is other or (self.alike and isinstance(other, Failing) and other.alike)

    def __hash__(self):
        return 7 if self.alike else object.__hash__(self)

    def _tick(self):
        if self.raise_at is not None and self.n + 1 == self.raise_at and self.exc in OTHER_EXC:
            self.n += 1
            self.raised = OTHER_EXC[self.exc]("observer error")
            raise self.raised
        super()._tick()


def make(spec, obs, lr=None, alike=False):
    """-> model, spies, plotting observers, shared order log"""
    glob, spies, plots, lst = [], [], [], []
    for i, o in enumerate(obs):
        if o == "spy":
            s = Failing("s%d" % i, glob, [])
            spies.append(s)
            lst.append(s)
        else:
            p = observers.PlottingObserver(iteration=o)
            plots.append(p)
            lst.append(p)
    last = Failing("last", glob, plots)
    lst.append(last)
    spies.append(last)
    for s in spies:
        s.alike = alike
    kw = {} if lr is None else {"learn_rate": lr}
    return zoo.make_model(spec, observers_=lst, output_column="OUT", **kw), spies, plots, glob


def train(m, X, y, ft):
    if ft:
        if hasattr(X, "columns"):
            return m.fit_transform(X, y) is None and None
    return m.fit(X, y) is None and None


def check_sequence(rep, spec, est, spy, complete):
    its = [e["iteration"] for e in spy.log if e["what"] == "it"]
    n = est.iteration_
    if complete and its != list(range(n)) + [-1]:
        rep.violation("sequence", "%s: observer %s was told iterations %s, the model reports %d" % (
            spec["kind"], spy.name, its, n))
        return
    if not complete:
        body = its[:-1] if its and its[-1] == -1 else its
        if body != list(range(len(body))):
            rep.violation("sequence", "%s: observer %s was told iterations %s before the abort" % (spec["kind"], spy.name, its))
            return
    cur, seen = None, {}
    for e in spy.log:
        if e["what"] == "it":
            cur = e["iteration"]
        else:
            if e["iteration"] != cur:
                rep.violation("sequence", "%s: feature notification of iteration %s after iteration %s" % (
                    spec["kind"], e["iteration"], cur))
                return
            seen.setdefault(cur, []).append(e["feature"])
    feats = list(range(len(est.features)))
    T = getattr(est, "training_iterations_hierarchical_features", 0) if spec.get("hier") else 0
    for it in range(n if complete else max(0, len([i for i in its if i >= 0]) - 1)):
        want = feats if it >= T else [i for i, f in enumerate(est.features)
                                      if f.feature_group in getattr(est, "hierarchical_features", [g.feature_group for g in est.features])]
        if sorted(seen.get(it, [])) != want:
            rep.violation("feature-sequence", "%s: iteration %d: feature notifications %s, expected %s" % (
                spec["kind"], it, seen.get(it, []), want))
            return


def later(case, m, spec, plots, X, y, kind, k):
    if kind == "other":
        s2 = dict(spec, ds=spec["ds"] + 17 + k)
        m2 = zoo.make_model(s2, smoother_choice=zoo.est_of(m).smoother_choice, observers_=[observers.PlottingObserver()])
        A, b = zoo.data(s2)
        zoo.safe(m2.fit, A, b)
    elif kind == "request":
        zoo.outputs(m, spec, zoo.query(spec, 77, 6))
    elif kind == "plot":
        for p in plots:
            if cm.is_filled(p):
                zoo.safe(cm.plot_some, p)
    elif kind == "pickle":
        zoo.safe(cm.roundtrip, plots)
    elif kind == "retrain":
        est = zoo.est_of(m)
        est.observers = []
        A, b = zoo.data(spec, spec["ds"] + 5)
        zoo.safe(m.fit, A, b)


def execute(case, rep):
    spec = case["spec"]
    X, y = cm.setup(zoo.data, spec)
    ft = case["how"] == "fit_transform" and spec["kind"] not in ("exponential", "nbinomc")
    mode = case["mode"]
    lr = None
    if mode == "lr":
        lr = fakes.CtlLR(spec.get("lr"))
        lr.arm({"mode": "seq", "values": case["vals"]})
    q = zoo.query(spec, 19, 8)
    bare = zoo.make_model(spec, output_column="OUT", **({} if lr is None else {"learn_rate": lr}))
    ref = core.solo(lambda: train(bare, zoo.clone_data(X), y, ft), "bare")
    m, spies, plots, glob = make(spec, case["obs"], lr, case["alike"])
    if ref.kind != "ok" and mode != "lr":
        raise cm.Skip("training fails: " + ref.describe())
    est = zoo.est_of(m)
    victim = None
    if mode == "fail":
        victim = spies[case["who"] % len(spies)]
        victim.raise_at, victim.exc = case["at"], case["exc"]
    fn = lambda: train(m, zoo.clone_data(X), y, ft)  # noqa
    if mode == "overlap":
        X2, y2 = cm.setup(zoo.data, case["spec2"])
        alone, spies0, _, _ = make(spec, case["obs"])
        o0, prof0 = core.profile(lambda: train(alone, zoo.clone_data(X), y, ft), "f0")
        m2p = make(case["spec2"], ["spy"])[0]
        _, prof1 = core.profile(lambda: train(m2p, zoo.clone_data(X2), y2, False), "f1")
        m2 = make(case["spec2"], [-1])[0]
        sim = cm.run_sim(case, rep, [("t0", [("f0", fn)]), ("t1", [("f1", lambda: train(m2, X2, y2, False))])],
                         {"f0": prof0, "f1": prof1})
        cm.liveness(rep, sim)
        o = sim.outcomes["f0"]
        for a, b in zip(spies0, spies):
            d = zoo.diff([_plain(e) for e in a.log], [_plain(e) for e in b.log])
            if d:
                rep.violation("overlap", "%s: observer %s was told something else beside another training: %s" % (
                    spec["kind"], b.name, d))
                return
    else:
        o = core.solo(fn, "fit", limit=20000000)
        rep.outcome(o)
        rep.resolved = case
    rep.probe("mode_" + mode)
    rep.probe("notifications", len(glob))
    if len(glob) >= 2:
        rep.parts.append("%s/%s/%s/%d" % (spec["kind"], mode, case["obs"], len(glob)))
    # errors of observers
    if victim is not None and victim.raised is not None:
        rep.fault("observer-" + case["exc"])
        if o.kind == "ok":
            rep.violation("observer-error-swallowed", "%s: %s raised by an observer at notification %d was swallowed" % (
                spec["kind"], case["exc"], case["at"]))
            return
        if o.exc is not victim.raised:
            rep.violation("observer-error-replaced", "%s: %r raised by an observer surfaced as %s" % (
                spec["kind"], victim.raised, o.describe()))
            return
        if glob[-1][0] != victim.name:
            rep.violation("notified-after-error", "%s: %s was notified after %s had failed" % (
                spec["kind"], glob[-1], victim.name))
            return
        for s in spies:
            check_sequence(rep, spec, est, s, False)
        return
    if ref.kind != o.kind:
        rep.violation("not-passive", "%s: with observers the training ends with %s, without with %s" % (
            spec["kind"], o.describe(), ref.describe()))
        return
    if o.kind != "ok":
        rep.probe("training_failed")
        for s in spies:
            check_sequence(rep, spec, est, s, False)
        return
    for s in spies:
        check_sequence(rep, spec, est, s, True)
    if rep.v:
        return
    # the state of that moment
    for it, told, now in spies[-1].losses:
        d = zoo.diff(now, told)
        if d:
            rep.violation("stale-state", "%s: loss told for iteration %d does not belong to the prediction told: %s" % (
                spec["kind"], it, d))
            return
    log = [e for e in spies[-1].log if e["what"] == "it"]
    d = zoo.diff(np.asarray(y, dtype=float), log[-1]["y"])
    if d:
        rep.violation("target", "%s: observers were given another target: %s" % (spec["kind"], d))
        return
    base = zoo.safe(lambda: est.unlink_func(est._get_prior_predictions(zoo.pre(m, X))))
    if not (isinstance(base, dict)) and spec["kind"] != "exponential":
        d = zoo.diff(np.asarray(base), log[0]["prediction"], rtol=1e-7)
        if d:
            rep.violation("initial-state", "%s: iteration 0 was not announced with the initial prediction: %s" % (
                spec["kind"], d))
            return
    if mode != "lr":
        pred = zoo.safe(zoo.served, m, X)
        d = zoo.diff(pred, log[-1]["prediction"], rtol=1e-6, atol=1e-8)
        if d:
            rep.violation("final-state", "%s: the end was not announced with the final prediction: %s" % (spec["kind"], d))
            return
        # (the rates of a shorter training are those of the long one only where they do not depend on the limit)
        rates = "one" if not spec.get("lr") and spec["kind"] == "nbinomc" else spec.get("lr")
        if rates in ("one", "half", "ramp") and 1 <= case["t"] < est.iteration_ and not spec.get("hier"):
            short = zoo.make_model(dict(spec, iters=case["t"]))
            r = core.solo(lambda: short.fit(zoo.clone_data(X), y) and None, "short")
            if r.kind == "ok" and zoo.est_of(short).iteration_ == case["t"]:
                rep.probe("prefix_compared")
                d = zoo.diff(zoo.served(short, X), log[case["t"]]["prediction"], rtol=1e-6, atol=1e-8)
                if d:
                    rep.violation("stale-state", "%s: iteration %d was announced with another state than a training of %d "
                                  "iterations reaches: %s" % (spec["kind"], case["t"], case["t"], d))
                    return
    # passive
    d = zoo.diff(zoo.outputs(bare, spec, q), zoo.outputs(m, spec, q))
    if d:
        rep.violation("not-passive", "%s: observers %s changed the model: %s" % (spec["kind"], case["obs"], d))
        return
    # plotting observers
    n = est.iteration_
    for p in plots:
        if p.iteration == -1:
            want = ([e["loss"] for e in log], [e["delta"] for e in log[1:]])
        else:
            k = min(p.iteration, n - 1)
            want = ([e["loss"] for e in log[:k + 1]], [e["delta"] for e in log[1:k + 1]])
        d = zoo.diff(list(want), [list(p.loss), list(p.factor_change)])
        if d:
            rep.violation("record", "%s: plotting observer of iteration %s holds other losses/changes than announced: %s" % (
                spec["kind"], p.iteration, d))
            return
        if cm.is_filled(p) != (p.iteration == -1 or p.iteration < n):
            rep.violation("record", "%s: plotting observer of iteration %s of %d is %sfilled" % (
                spec["kind"], p.iteration, n, "" if cm.is_filled(p) else "not "))
            return
        if cm.is_filled(p):
            e = log[-1] if p.iteration == -1 else log[p.iteration]
            got = [getattr(f, "fitted_aggregated", None) for f in p.features]
            d = zoo.diff(e["factors"], [None if g is None else np.array(g) for g in got])
            if d:
                rep.violation("record", "%s: plotting observer of iteration %s holds factors of another moment: %s" % (
                    spec["kind"], p.iteration, d))
                return
    # nothing recorded changes later
    digests = dict(spies[-1].digests)
    snap = [[_plain(e) for e in s.log] for s in spies]
    for k, kind in enumerate(case["later"]):
        later(case, m, spec, plots, X, y, kind, k)
        rep.probe("later_" + kind)
    for p in plots:
        if id(p) in digests:
            d = zoo.diff(digests[id(p)], cm.recording(p))
            if d:
                rep.violation("record-altered", "%s: record of iteration %s altered after it was made (%s): %s" % (
                    spec["kind"], p.iteration, case["later"], d))
                return
    d = zoo.diff(snap, [[_plain(e) for e in s.log] for s in spies])
    if d:
        rep.violation("told-after-end", "%s: observers notified outside their training (%s): %s" % (
            spec["kind"], case["later"], d))


def _plain(e):
    return {k: v for k, v in e.items()}


def simplify(case):
    out = cm.simplify_spec(case)
    for i in range(len(case["obs"])):
        out.append(dict(case, obs=case["obs"][:i] + case["obs"][i + 1:]))
    for i in range(len(case["later"])):
        out.append(dict(case, later=case["later"][:i] + case["later"][i + 1:]))
    if case["how"] != "fit":
        out.append(dict(case, how="fit"))
    return out
