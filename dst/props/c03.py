"""C03: an aborted or failed training never taints the next training."""
import numpy as np

from .. import core, fakes, zoo
from . import common as cm

RUNS = {"quick": 3000, "thorough": 50000}
RULE = ("seeded: model configuration x 1-3 failing training attempts (abort at a drawn line of the training, failing "
        "learning-rate/observer callback, failing solver, invalid target, diverging learning rate) on other data, then "
        "a training on valid data compared with a fresh object; non-trivial = at least one attempt failed, distinct = "
        "different failure kinds and sites")
REAL = cm.REAL
STUB = ["user callbacks (learning rate, observer) and numerical solvers are replaced by failing ones on demand"]
ASSUME = cm.ASSUME
KINDS = ("KeyboardInterrupt", "MemoryError", "SystemExit", "RuntimeError", "OSError", "ValueError")


def generate(rng, tier):
    spec = zoo.any_spec(rng, p_other=0.2, kinds=zoo.FAST * 5 + zoo.SLOW, iters=(1, 4))
    if spec["kind"] in ("qpdS", "qpdB") and rng.random() < 0.5:
        spec = zoo.gen_other(rng, "binner")
    atts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        modes = ["abort"] * 5
        if spec["kind"] not in zoo.OTHER:
            modes += ["target", "lr", "observer", "diverge", "solver", "short"]
        a = {"mode": rng.choice(modes), "ds": rng.randrange(1, 10**6), "n": spec["n"] if rng.random() < 0.4 else rng.randrange(24, 60),
             "exc": rng.choice(KINDS), "pick": core.gen_pick(rng), "at": rng.randrange(1, 12),
             "value": rng.choice([-6.0, 12.0, 40.0]), "request": rng.random() < 0.2}
        if spec.get("nogroups") and rng.random() < 0.5:
            a["drop"] = True
        if a["mode"] in ("lr", "diverge") and not spec.get("lr"):
            spec["lr"] = "one"
        atts.append(a)
    last_lr = None
    if spec["kind"] not in zoo.OTHER and spec["kind"] not in zoo.SLOW and rng.random() < 0.3:
        # the valid training itself goes through diverging iterations and recovers
        last_lr = [1.0] * rng.randrange(0, 2) + [rng.choice([3.0, 6.0, 12.0, -1.0, -6.0]) for _ in range(
            rng.randrange(1, 4))] + [rng.choice([1.0, 0.3])] * 12
        spec["lr"], spec["iters"] = spec.get("lr") or "one", max(spec["iters"], rng.randrange(3, 7))
        for a in atts:
            if rng.random() < 0.5:
                a["rates"] = [rng.choice([1.0, -1.0, 6.0, 12.0, -6.0]) for _ in range(rng.randrange(2, 5))]
    return {"spec": spec, "last_lr": last_lr, "first": rng.random() < 0.35, "ops": atts, "between": rng.random() < 0.2,
            "how": rng.choice(["fit", "fit", "fit", "fit_transform"]), "reuse": rng.random() < 0.4}


def make(spec):
    lr, rec = fakes.CtlLR(spec.get("lr")), fakes.Recorder()
    if spec["kind"] in zoo.OTHER:
        return zoo.make_other(spec), lr, rec
    kw = {"learn_rate": lr} if spec.get("lr") or spec["kind"] == "nbinomc" else {}
    return zoo.make_model(spec, observers_=[rec], output_column="OUT", **kw), lr, rec


def drop(spec, a, X):
    if a.get("drop") and hasattr(X, "columns") and len(spec["props"]) > 1 and X.shape[1] > 1:
        return X.drop(columns=[sorted(spec["props"])[0]])
    return X


def execute(case, rep):
    spec = case["spec"]
    m, lr, rec = cm.setup(make, spec)
    q = zoo.any_query(spec, 19, 9)
    X, y = zoo.any_data(spec)
    ft = case["how"] == "fit_transform" and hasattr(m, "fit_transform") and spec["kind"] not in zoo.OTHER + (
        "exponential", "nbinomc")

    def train(mm, A, b):
        if ft:
            if hasattr(mm, "steps"):
                return mm.fit_transform(A, b)["OUT"].values.copy()
            if not hasattr(A, "columns"):
                return mm.fit(A, b) and None
            return mm.fit_transform(A, b)["OUT"].values.copy()
        return mm.fit(A, b) and None

    last_lr = {"mode": "seq", "values": case["last_lr"]} if case.get("last_lr") else None
    for plan in [last_lr, None] if last_lr else [None]:
        fresh, flr, _ = make(spec)
        flr.arm(plan)
        ref = core.solo(lambda: train(fresh, zoo.clone_data(X), zoo.clone_data(y)), "ref")
        if ref.kind == "ok":
            break
    if plan:
        rep.probe("valid_training_with_drawn_rates")
    if ref.kind != "ok":
        raise cm.Skip("valid training fails: " + ref.describe())
    want = {"out": zoo.outputs(fresh, spec, q), "ret": ref.value}
    cX, cy = cm.Container(case.get("reuse")), cm.Container(case.get("reuse"))
    if case["first"]:
        A, b = zoo.any_data(spec, spec["ds"] + 1, spec["n"])
        A, b = cX.put(A), cy.put(b)
        core.solo(lambda: m.fit(A, b), "first")
    resolved = []
    for k, a in enumerate(case["ops"]):
        A, b = zoo.any_data(spec, a["ds"], a["n"])
        A = drop(spec, a, A)
        faults, undo = {}, None
        mode = a["mode"]
        a2 = dict(a)
        if a.get("rates") and mode not in ("lr", "diverge"):
            lr.arm({"mode": "seq", "values": a["rates"]})
        if mode == "abort":
            probe, plr, _ = make(spec)
            plr.arm(lr.plan)
            _, prof = core.profile(lambda: train(probe, zoo.clone_data(A), b), "probe")
            step = core.resolve_fault(a["pick"], prof)
            a2["pick"] = ["step", step]
            faults = {step: a["exc"]}
        elif mode == "target":
            b = np.array(b, dtype=float)
            b[a["at"] % len(b)] = {0: np.nan, 1: -7.0}[a["at"] % 2]
        elif mode == "short":
            b = b[:-2]
        elif mode == "lr":
            lr.arm({"mode": "raise", "at": a["at"], "exc": a["exc"], "values": a.get("rates")})
        elif mode == "diverge":
            lr.arm({"mode": "const", "value": a["value"]})
        elif mode == "observer":
            rec.raise_at, rec.n, rec.exc = a["at"], 0, a["exc"]
        elif mode == "solver":
            undo = cm.break_solvers(a["at"], a["exc"])
        A, b = cX.put(A), cy.put(b)
        try:
            o = core.solo(lambda: train(m, A, b), "attempt%d" % k, faults=faults, limit=20000000)
        finally:
            if undo is not None:
                undo()
        lr.arm(None)
        rec.raise_at = None
        rep.outcome(o)
        resolved.append(a2)
        if o.limit_hit:
            raise cm.Skip("attempt did not end (termination is judged by C11)")
        if o.kind == "exc":
            rep.probe("failed_" + mode)
            if not o.fired:
                rep.parts.append("%s:%s:%d" % (mode, type(o.exc).__name__, o.steps))
                rep.fault("%s-%s" % (mode, type(o.exc).__name__))
        if a["request"]:
            core.solo(lambda: zoo.outputs(m, spec, q), "req")  # whatever it answers must not matter
    if case["between"]:
        m = cm.roundtrip(m) if not plan and not any(a["mode"] in ("lr", "observer", "diverge") for a in case["ops"]) else m
    lr.arm(plan)
    A, b = cX.put(X), cy.put(y)
    if cX.refilled:
        rep.fault("container-refilled", cX.refilled)
    last = core.solo(lambda: train(m, A, b), "last", limit=60 * ref.steps + 2000000)
    rep.outcome(last)
    rep.resolved = dict(case, ops=resolved)
    if last.kind != "ok":
        rep.violation("training-fails", "%s after %s: valid training now fails with %s" % (
            spec["kind"], [a["mode"] for a in case["ops"]], last.describe()))
        return
    d = zoo.diff(want, {"out": zoo.outputs(m, spec, q), "ret": last.value})
    if d:
        rep.violation("tainted", "%s after %s: model differs from a fresh one: %s" % (
            spec["kind"], [a["mode"] for a in case["ops"]], d))


def simplify(case):
    return cm.simplify_spec(case)
