"""C15: smoothers forget earlier fits and survive failing solvers."""
import copy
import warnings

import numpy as np
from sklearn.base import clone

from .. import core, zoo
from . import common as cm
from . import smooth_zoo as sz

RUNS = {"quick": 4400, "thorough": 80000}
RULE = ("seeded: smoother class and options x history of 1-5 fits on other bins, each with its solver converging, not "
        "converging (RuntimeError/TypeError), raising something else, or the fit aborted at a drawn line, with predictions, "
        "copies and save/restore steps in between, then a last fit compared with a fresh smoother; or concurrent predictions "
        "under a drawn schedule; distinct = different smoother, history and sites; non-trivial = an earlier fit took place "
        "or predictions overlapped")
REAL = cm.REAL
STUB = ["scipy/numpy/sklearn solvers fail on demand"] + cm.STUB_SCHED
ASSUME = cm.ASSUME
FAIL = ["RuntimeError", "TypeError", "ValueError", "MemoryError", "KeyboardInterrupt"]


def generate(rng, tier):
    s = sz.gen(rng)
    if rng.random() < 0.25:
        return {"mode": "overlap", "sm": s, "n": rng.choice([2, 2, 3]), "sched": cm.gen_sched(rng, ["p0", "p1"], 0.3, 400),
                "same": rng.random() < 0.5, "faults": cm.gen_faults(rng, ["p0", "p1"], 0.25)}
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice(["fit", "fit", "fit", "solver", "solver", "abort", "predict", "copy", "pickle", "clone"])
        op = {"do": k, "other": sz.gen_data(rng, s["name"], s.get("dims")), "exc": rng.choice(FAIL)}
        if k == "abort":
            op["pick"] = core.gen_pick(rng)
            op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError", "OSError"])
        if k == "solver":
            op["at"] = rng.choice([1, 1, 1, 2, 3])
        ops.append(op)
    return {"mode": "history", "sm": s, "ops": ops, "last_solver": rng.choice([None, None, None, "RuntimeError", "TypeError"])}


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def fit_outcome(sm, X, y, at=None, exc=None, faults=None, limit=20000000):
    undo, st = None, {}
    if at is not None:
        undo = cm.break_solvers(at, exc, st)
    try:
        o = core.solo(lambda: quiet(lambda: sm.fit(zoo.clone_data(X), zoo.clone_data(y)) is None), "fit", faults=faults,
                      limit=limit)
    finally:
        if undo is not None:
            undo()
    return o, st.get("fired", 0)


def answers(sm, Q):
    return zoo.safe(lambda: quiet(lambda: zoo.as_plain(sm.predict(zoo.clone_data(Q)))))


def execute(case, rep):
    if case["mode"] == "overlap":
        return overlap(case, rep)
    s = case["sm"]
    sm, X, y, Q = cm.setup(sz.build, s)
    fresh = sz.make(s)
    at = 1 if case["last_solver"] else None
    ref, struck = fit_outcome(fresh, X, y, at, case["last_solver"])
    want = answers(fresh, Q) if ref.kind == "ok" else None
    fits, parts, resolved = 0, [], []
    for op in case["ops"]:
        op2 = dict(op)
        k = op["do"]
        if k in ("fit", "solver", "abort"):
            d = dict(s, **op["other"])
            A, b = sz.data(d)
            faults = None
            if k == "abort":
                probe = sz.make(s)
                _, prof = core.profile(lambda: quiet(lambda: probe.fit(A.copy(), b.copy())), "probe")
                if not prof:
                    continue
                st = core.resolve_fault(op["pick"], prof)
                op2["pick"], faults = ["step", st], {st: op["exc"]}
            params = cm.freeze(sm.get_params(deep=False)) if hasattr(sm, "get_params") else None
            A0, b0 = A.copy(), b.copy()
            o, fired = fit_outcome(sm, A, b, op.get("at"), op["exc"], faults)
            rep.outcome(o)
            if fired:
                rep.fault("solver-" + op["exc"], fired)
            fits += 1
            parts.append("%s%s%s" % (k, op["exc"] if k != "fit" else "", o.kind))
            if o.kind == "ok":
                d = zoo.diff(params, cm.freeze(sm.get_params(deep=False)) if hasattr(sm, "get_params") else None)
                if d:
                    rep.violation("configuration", "%s: fit changed a configured parameter: %s" % (s["name"], d))
                    return
        elif k == "predict":
            answers(sm, Q)
        elif k == "copy":
            sm = copy.deepcopy(sm)
        elif k == "pickle":
            sm = cm.roundtrip(sm)
        elif k == "clone":
            c = zoo.safe(clone, sm)
            sm = c if not isinstance(c, dict) else sm
        resolved.append(op2)
    rep.resolved = dict(case, ops=resolved)
    got, _ = fit_outcome(sm, X, y, at, case["last_solver"], limit=60 * ref.steps + 2000000)
    rep.outcome(got)
    if fits:
        rep.parts.append(s["name"] + "|".join(parts))
    rep.probe("earlier_fits", fits)
    if case["last_solver"]:
        rep.probe("last_fit_without_convergence_" + ref.kind)
    if (ref.kind, type(ref.exc)) != (got.kind, type(got.exc)):
        rep.violation("outcome", "%s after %d fits: %s, fresh smoother: %s" % (s["name"], fits, got.describe(), ref.describe()))
        return
    if ref.kind != "ok":
        return
    if struck and s["name"] in ("Seasonal", "Seasonal2", "Seasonal3", "SeasonalCustom"):
        d = zoo.diff(np.full(len(Q), float(sm.fallback_value)), want)
        if d:
            rep.violation("fallback", "%s: solver did not converge, prediction is not the fallback value: %s" % (s["name"], d))
            return
        rep.probe("fallback_used")
    for rnd in range(2):
        Q0 = zoo.clone_data(Q)
        g = zoo.safe(lambda: quiet(lambda: zoo.as_plain(sm.predict(Q))))
        d = zoo.diff(want, g)
        if d:
            rep.violation("remembers", "%s after %s (solver of the last fit: %s), prediction %d: %s" % (
                s["name"], parts, case["last_solver"], rnd + 1, d))
            return
        d = zoo.diff(zoo.as_plain(Q0), zoo.as_plain(Q))
        if d:
            rep.violation("input", "%s: predict changed its input: %s" % (s["name"], d))
            return
    # another copy that never answered anything agrees on other rows as well
    R = sz.query(s, s["ds"] + 2, 12)
    twin = sz.make(s)
    fit_outcome(twin, X, y, at, case["last_solver"])
    d = zoo.diff(answers(twin, R), answers(sm, R))
    if d:
        rep.violation("predict-changes", "%s: predictions changed the smoother: %s" % (s["name"], d))


def overlap(case, rep):
    s = case["sm"]
    sm, X, y, Q = cm.setup(sz.build, s)
    cm.setup(lambda: quiet(lambda: sm.fit(X, y)))
    twin, sm0 = copy.deepcopy(sm), copy.deepcopy(sm)
    qs = [Q] + [Q if case["same"] else sz.query(s, 100 + i) for i in range(1, case["n"])]
    refs = [core.solo(lambda q=q: zoo.as_plain(twin.predict(zoo.clone_data(q))), "ref") for q in qs]
    profiles = {}
    for i, q in enumerate(qs):
        _, profiles["p%d" % i] = core.profile(lambda: twin.predict(zoo.clone_data(q)), "p%d" % i)
    if not any(profiles.values()):
        raise cm.Skip("predict runs no package line")
    keep = [zoo.as_plain(q) for q in qs]
    tasks = [("t%d" % i, [("p%d" % i, (lambda q=q: zoo.as_plain(sm.predict(q))))]) for i, q in enumerate(qs)]
    sim = cm.run_sim(case, rep, tasks, {k: v for k, v in profiles.items()})
    cm.liveness(rep, sim)
    for i in range(len(qs)):
        o = sim.outcomes["p%d" % i]
        if o.fired:
            continue
        d = cm.same_outcome(refs[i], o)
        if d:
            rep.violation("overlap", "%s: overlapping prediction %d differs: %s" % (s["name"], i, d))
            return
    for i, q in enumerate(qs):
        d = zoo.diff(keep[i], zoo.as_plain(q))
        if d:
            rep.violation("input", "%s: overlapping predict changed its input: %s" % (s["name"], d))
            return
    R = sz.query(s, s["ds"] + 2, 12)
    d = zoo.diff(answers(copy.deepcopy(sm0), R), answers(sm, R))
    if d:
        rep.violation("predict-changes", "%s: predict changed the smoother: %s" % (s["name"], d))
    rep.probe("overlaps")


def simplify(case):
    out = []
    if case["mode"] == "history":
        if case["last_solver"]:
            out.append(dict(case, last_solver=None))
    elif case["faults"]:
        out.append(dict(case, faults=[]))
    return out
