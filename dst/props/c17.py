"""C17: cancellation and callback errors are never swallowed."""
import numpy as np

from .. import core, fakes, zoo
from . import calls
from . import common as cm

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("seeded: call kind (training, fit-transform, request, smoother fit/predict, plots, interaction selection, quantile "
        "distributions) x interrupt/exit request at a drawn line, or user callback (observer, learning rate, cost "
        "function) raising a drawn error at a drawn invocation; distinct = different call, error and site; non-trivial = "
        "the fault fired")
REAL = cm.REAL + ["matplotlib"]
STUB = ["observers, learning rates and cost functions are simulated user callbacks"]
ASSUME = cm.ASSUME
CB = ["KeyboardInterrupt", "SystemExit", "RuntimeError", "ValueError", "TypeError", "KeyError", "IndexError",
      "AttributeError", "MemoryError", "OSError", "StopIteration"]


class Cost:
    """Cost function raising at its n-th call."""

    def __init__(self, fn, at, exc):
        self.fn, self.at, self.exc, self.n, self.raised = fn, at, exc, 0, None

    def __call__(self, prediction, y, weights):
        self.n += 1
        if self.n == self.at:
            self.raised = core.make_exc(self.exc, "cost call %d" % self.n)
            raise self.raised
        return self.fn(prediction, y, weights)


class LR:
    def __init__(self, base, at, exc):
        self.base, self.at, self.exc, self.n, self.raised = base, at, exc, 0, None

    def __call__(self, iteration, maximal_iteration, feature=None):
        self.n += 1
        if self.n == self.at:
            self.raised = core.make_exc(self.exc, "learn rate call %d" % self.n)
            raise self.raised
        return zoo.LR[self.base](iteration, maximal_iteration, feature)


def generate(rng, tier):
    if rng.random() < 0.65:
        def one(pick):
            return {"pick": pick, "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit"])}

        ops = [one(core.gen_pick(rng, 0.3))]
        if rng.random() < 0.4:  # the same call again and again, interrupted in the blocks guarded by handlers
            ops += [one(["guarded", round((i + rng.random()) / 5, 6), round(rng.random(), 6)]) for i in range(5)]
        c = calls.gen(rng, p_other=0.15)
        if c["what"] == "fit" and c["spec"]["kind"] not in zoo.OTHER and rng.random() < 0.3:
            c["obs"] = -1
            if not c["spec"].get("weight") and not c["spec"].get("nogroups"):
                c["spec"]["weight"], c["spec"]["cols"] = True, c["spec"]["cols"] + ["w"]
        return {"mode": "abort", "call": c, "ops": ops}
    who = rng.choice(["observer", "observer", "lr", "lr", "cost"])
    spec = zoo.gen_spec(rng, kinds=["mgeneric", "ageneric", "cgeneric"] if who == "cost" else zoo.FAST * 4 + zoo.SLOW,
                        n=(24, 40), iters=(1, 4))
    return {"mode": who, "spec": spec, "u": round(rng.random() ** 1.5, 5), "exc": rng.choice(CB),
            "how": rng.choice(["fit", "fit", "fit_transform"])}


def execute(case, rep):
    if case["mode"] == "abort":
        return abort(case, rep)
    spec, mode = case["spec"], case["mode"]
    X, y = zoo.data(spec)

    def build(at):
        kw, cb = {}, None
        if mode == "observer":
            cb = fakes.Recorder("o", raise_at=at, exc=case["exc"])
            kw["observers_"] = [fakes.Recorder("first"), cb] if spec["ds"] % 2 else [cb]
        elif mode == "lr":
            cb = kw["learn_rate"] = LR(spec.get("lr") or "one", at, case["exc"])
        else:
            cb = kw["costs"] = Cost(zoo.cost_ce if spec["kind"] == "cgeneric" else zoo.cost_sq, at, case["exc"])
        ft = case["how"] == "fit_transform" and spec["form"] != "numpy" and spec["kind"] not in ("exponential", "nbinomc")
        m = zoo.make_model(spec, output_column="OUT" if ft else None, **kw)
        A, b = zoo.clone_data(X), zoo.clone_data(y)
        return cb, lambda: (m.fit_transform(A, b) if ft else m.fit(A, b)) is None

    cb, call = cm.setup(build, None)
    o = core.solo(call, "ref")
    if o.kind != "ok":
        raise cm.Skip("undisturbed training fails: " + o.describe())
    if not cb.n:
        raise cm.Skip("callback not used")
    at = 1 + int(case["u"] * cb.n)
    cb, call = build(at)
    o = core.solo(call, "train", limit=60 * o.steps + 2000000)
    rep.outcome(o)
    if cb.raised is None:
        raise cm.Skip("callback called less often than in the undisturbed training")
    rep.fault("%s-%s" % (mode, case["exc"]))
    rep.parts.append("%s/%s/%s/%d" % (spec["kind"], mode, case["exc"], at))
    rep.resolved = dict(case)
    if o.exc is not cb.raised:
        rep.violation("callback", "%s, %s: %s raised at invocation %d, the call %s" % (
            spec["kind"], mode, case["exc"], at, "returned normally" if o.kind == "ok" else "raised " + o.describe()))


def abort(case, rep):
    c = case["call"]
    fn, _ = cm.setup(calls.build, c)
    state = np.random.get_state()
    r, prof = core.profile(fn, "call")
    if not prof:
        raise cm.Skip("no package line executed")
    resolved = []
    rep.probe("call_" + c["what"])
    for op in case["ops"]:
        np.random.set_state(state)
        st = core.resolve_fault(op["pick"], prof)
        fn, _ = calls.build(c)
        o = core.solo(fn, "call", faults={st: op["exc"]}, limit=60 * r.steps + 2000000)
        rep.outcome(o)
        resolved.append(dict(op, pick=["step", st]))
        rep.resolved = dict(case, ops=resolved)
        if not o.fired:
            if len(case["ops"]) == 1:
                raise cm.Skip("call is shorter than its undisturbed twin")
            continue
        if not isinstance(o.exc, core.Injected) or type(o.exc).__name__ != "Sim" + op["exc"]:
            rep.violation("swallowed", "%s: %s at %s, the call %s" % (
                calls.label(c), op["exc"], o.fired[0][2], "returned normally" if o.kind == "ok" else "raised " + o.describe()))
            return


def simplify(case):
    if case["mode"] == "abort":
        return [dict(case, call=c) for c in cm.simplify_spec(case["call"])]
    return cm.simplify_spec(case)
