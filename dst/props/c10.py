"""C10: a binning (re)fit that fails is all-or-nothing."""
import copy

import numpy as np
import pandas as pd

from .. import core, zoo
from . import common as cm

RUNS = {"quick": 3200, "thorough": 100000}
RULE = ("seeded: binning transformer (bin numbers or empirical CDF, frame or array, with or without properties, weights, "
        "in place) x 1-4 fit attempts (abort at a drawn line, unusable values in a drawn column, missing column, empty "
        "frame, complete) on other data, each followed by transformations of full and partial frames, then a final "
        "complete fit; distinct = different failure kinds and sites; non-trivial = at least one attempt failed")
REAL = cm.REAL
STUB = ["none: real fits, aborted by injected faults"]
ASSUME = cm.ASSUME
KINDS = ("KeyboardInterrupt", "MemoryError", "SystemExit", "RuntimeError", "OSError", "ValueError")


def generate(rng, tier):
    spec = zoo.gen_other(rng, rng.choice(["binner", "binner", "ecdf"]))
    spec["inplace"] = spec["kind"] == "binner" and rng.random() < 0.2
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops.append({"mode": rng.choice(["abort"] * 6 + ["text", "column", "empty", "complete", "nan"]),
                    "ds": rng.randrange(1, 10**6), "n": rng.choice([30, spec["n"], rng.randrange(12, 60)]), "exc": rng.choice(KINDS),
                    "pick": core.gen_pick(rng), "at": rng.randrange(8), "how": rng.choice(["fit", "fit", "fit_transform"]),
                    "hi": rng.choice([1.0, 4.0]), "scale": rng.choice([1.0] * 5 + [1e10]), "unseen": rng.random() < 0.5,
                    "void": rng.choice([None, None, None, rng.randrange(8)]), "copy": rng.choice([None, None, None, None, "deepcopy", "pickle"])})
    return {"spec": spec, "first": rng.random() < 0.75, "ops": ops, "qds": rng.randrange(1, 10**6),
            "sub": rng.randrange(5), "reuse": rng.random() < 0.4}


def make(spec):
    t = zoo.make_other(spec)
    if spec.get("inplace"):
        t.set_params(inplace=True)
    return t


def frame(spec, ds, n, **kw):
    return zoo.other_form(spec, zoo.make_X(ds, n, miss=spec["miss"], **kw))


def answers(t, queries):
    return [zoo.safe(lambda: zoo.as_plain(t.transform(zoo.clone_data(q)))) for q in queries]


def refused(a):
    return isinstance(a, dict) and set(a) == {"raises"}


def execute(case, rep):
    spec = case["spec"]
    t = cm.setup(make, spec)
    full = frame(spec, case["qds"], 9, unseen=True)
    queries = [full, full[:0] if spec["container"] == "np" else full.iloc[:0]]
    feats = [c for c in spec["cols"] if c in spec["props"]]
    if spec["container"] == "df":
        # a request for fewer features than were fitted
        queries.append(full[spec["cols"][:1 + case["sub"] % len(spec["cols"])]])
        queries.append(full[feats[case["sub"] % len(feats):]])
    else:
        queries.append(full[:, :1 + case["sub"] % full.shape[1]])
    old = None
    cX = cm.Container(case.get("reuse"))
    if case["first"]:
        A = cX.put(frame(spec, spec["ds"], spec["n"]))
        cm.setup(t.fit, A)
        old = answers(t, queries)
    resolved = []
    failed = 0
    for k, op in enumerate(case["ops"]):
        A = frame(spec, op["ds"], op["n"], hi=op["hi"], unseen=op["unseen"]) * op["scale"]
        if op["void"] is not None:
            j = op["void"] % A.shape[1]
            if isinstance(A, pd.DataFrame):
                A.iloc[:, j] = np.nan
            else:
                A[:, j] = np.nan
        faults, op2, new = {}, dict(op), None
        fresh = make(spec)
        mode = op["mode"]
        col = op["at"] % A.shape[1]
        if mode == "abort":
            _, prof = core.profile(lambda: getattr(fresh, op["how"])(zoo.clone_data(A)), "probe")
            st = core.resolve_fault(op["pick"], prof)
            op2["pick"], faults = ["step", st], {st: op["exc"]}
        elif mode == "text":
            A = A.astype(object)
            if isinstance(A, pd.DataFrame):
                A.iloc[op["at"] % len(A), col] = "x"
            else:
                A[op["at"] % len(A), col] = "x"
        elif mode == "column":
            A = A[:, :col] if isinstance(A, np.ndarray) else A.drop(columns=[A.columns[col]])
        elif mode == "empty":
            A = A[:0]
        elif mode == "nan":
            if isinstance(A, pd.DataFrame):
                A.iloc[:, col] = np.nan
            else:
                A[:, col] = np.nan
        fresh = make(spec)
        if core.solo(lambda: fresh.fit(zoo.clone_data(A)), "new").kind == "ok":
            new = answers(fresh, queries)
        B = cX.put(A)  # an in-place fit_transform may change its input
        o = core.solo(lambda: getattr(t, op["how"])(B) is None, "fit%d" % k, faults=faults, limit=20000000)
        rep.outcome(o)
        resolved.append(op2)
        if op["copy"]:
            t = copy.deepcopy(t) if op["copy"] == "deepcopy" else cm.roundtrip(t)
        got = answers(t, queries)
        if o.kind == "ok":
            d = zoo.diff(new, got) if new is not None else "fit succeeds, that of a fresh transformer fails"
            if d:
                rep.violation("remembers", "%s after %d failed fits: complete fit differs from a fresh transformer: %s" % (
                    spec["kind"], failed, d))
                return
            old = new
            continue
        failed += 1
        rep.probe("failed_" + mode)
        if not o.fired:
            rep.parts.append("%s:%s:%d" % (mode, type(o.exc).__name__, o.steps))
            rep.fault("%s-%s" % (mode, type(o.exc).__name__))
        match = {"old": True, "new": True}
        answered = 0
        for i, a in enumerate(got):
            if refused(a):
                continue
            answered += 1
            for name, ref in (("old", old), ("new", new)):
                if ref is None or zoo.diff(ref[i], a):
                    match[name] = False
        rep.probe("answered_after_failure" if answered else "refused_after_failure")
        if answered and not any(match.values()):
            # describe the first offending answer
            i = next(i for i, a in enumerate(got) if not refused(a))
            rep.violation("mixture", "%s: after a fit ended by %s, transform answers neither like the previous nor like the "
                          "new fit: query %d, old: %s, new: %s" % (
                              spec["kind"], o.describe(), i, old and zoo.diff(old[i], got[i]), new and zoo.diff(new[i], got[i])))
            return
        if match["new"] and not match["old"] and answered:
            old = new
    rep.resolved = dict(case, ops=resolved)
    B = frame(spec, case["qds"] + 1, 30)
    fresh = make(spec)
    r = core.solo(lambda: fresh.fit(zoo.clone_data(B)), "ref")
    B = cX.put(B)
    if cX.refilled:
        rep.fault("container-refilled", cX.refilled)
    g = core.solo(lambda: t.fit(B), "last")
    if (r.kind, type(r.exc)) != (g.kind, type(g.exc)):
        rep.violation("outcome", "%s after %d failed fits: %s, fresh transformer %s" % (
            spec["kind"], failed, g.describe(), r.describe()))
    elif r.kind == "ok":
        d = zoo.diff(answers(fresh, queries), answers(t, queries))
        if d:
            rep.violation("remembers", "%s after %d failed fits: fit differs from a fresh transformer: %s" % (
                spec["kind"], failed, d))


def simplify(case):
    out = cm.simplify_spec(case)
    if case["first"]:
        out.append(dict(case, first=False))
    for i, op in enumerate(case["ops"]):
        if op["how"] != "fit" or op["copy"]:
            ops = list(case["ops"])
            ops[i] = dict(op, how="fit", copy=None)
            out.append(dict(case, ops=ops))
    return out
