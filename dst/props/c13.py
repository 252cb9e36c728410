"""C13: the output column is written exactly once or not at all."""
import numpy as np
from sklearn.pipeline import Pipeline

from cyclic_boosting import binning

from .. import core, fakes, zoo
from . import common as cm

RUNS = {"quick": 2600, "thorough": 50000}
RULE = ("seeded: estimator with output column (alone, in a pipeline behind binning, or a chain of two whose second uses the "
        "first's column) x sequence of transform/fit_transform attempts on one frame, each aborted at a drawn line, failed "
        "by a callback/solver/target or undisturbed, until success, then repeated on the completed frame; distinct = "
        "different estimator and failure sites; non-trivial = at least one attempt failed")
REAL = cm.REAL
STUB = ["user callbacks (learning rate, observer) raise on demand"]
ASSUME = cm.ASSUME
HANDLED = ("MemoryError", "RuntimeError", "OSError", "ValueError")
KINDS = ("KeyboardInterrupt", "MemoryError", "SystemExit", "RuntimeError", "OSError", "ValueError")
EST = ["poisson", "nbinom", "location", "locpoisson", "classifier", "gbs"]


def generate(rng, tier):
    slow = rng.random() < 0.08
    spec = zoo.gen_spec(rng, kinds=["aquantile", "ageneric", "mquantile", "mgeneric"] if slow else EST, n=(24, 45), iters=(1, 4),
                        forms=("direct", "direct", "pipe"))
    # a target of another container kind or a frame with other index does not matter here
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append({"how": rng.choice(["transform", "fit_transform"]),
                    "mode": rng.choice(["abort"] * 4 + ["lr", "observer", "target", "column", "exists"]),
                    "exc": rng.choice(KINDS), "pick": core.gen_pick(rng), "u": round(rng.random(), 4)})
    return {"spec": spec, "chain": rng.random() < 0.3 and spec["kind"] in ("poisson", "location", "nbinom", "locpoisson")
            and not spec.get("prior") and not spec.get("nogroups"),
            "name": rng.choice(["OUT", "OUT", "yhat", "a_pred"]), "ops": ops, "last": rng.choice(["transform", "fit_transform"]),
            "fitted": rng.random() < 0.5, "extra": rng.random() < 0.4}


def build(case):
    """Fresh model; returns (model, learning rate, observer, names of the columns it writes)."""
    spec, name = case["spec"], case["name"]
    lr, rec = fakes.CtlLR(spec.get("lr")), fakes.Recorder()
    if not case["chain"]:
        return zoo.make_model(spec, observers_=[rec], output_column=name, learn_rate=lr), lr, rec, [name]
    base = dict(spec, form="direct")
    first = zoo.make_model(base, output_column=name)
    second = zoo.make_model(base, observers_=[rec], output_column=name + "2", learn_rate=lr, prior_prediction_column=name)
    steps = [("one", first), ("two", second)]
    if spec["form"] == "pipe":
        b = binning.BinNumberTransformer(n_bins=spec["nbins"], feature_properties=zoo.props_of(spec))
        steps.insert(0, ("binning", b))
    return Pipeline(steps), lr, rec, [name, name + "2"]


def same_frame(a, b):
    if list(a.columns) != list(b.columns):
        return "columns %s vs %s" % (list(a.columns), list(b.columns))
    if not np.array_equal(np.asarray(a.index), np.asarray(b.index)):
        return "row index differs"
    for c in a.columns:
        d = zoo.diff(a[c].values, b[c].values, str(c), 0.0, 0.0)
        if d or a[c].dtype != b[c].dtype:
            return d or "%s: dtype %s vs %s" % (c, a[c].dtype, b[c].dtype)
    return None


def execute(case, rep):
    spec = case["spec"]
    m, lr, rec, names = cm.setup(build, case)
    X, y = zoo.data(spec)
    if case["extra"] and not spec.get("nogroups"):
        X["untouched"] = ["t%d" % i for i in range(len(X))] if spec["form"] == "direct" else np.arange(len(X)) * 1.5
    clean = X.copy()
    A, b = zoo.data(spec, spec["ds"] + 1, spec["n"])
    A = A.reindex(columns=X.columns) if not case["extra"] else A.assign(untouched=0.0)[list(X.columns)] if "untouched" in X else A

    def reference(how, target):
        """Column values of an undisturbed call on an untouched frame, None if the call itself fails."""
        f, _, _, _ = build(case)
        if how == "transform":
            if case["fitted"]:
                f.fit(A.copy(), b) if not case["chain"] else f.fit_transform(A.copy(), b)
            G = clean.copy()
            o, prof = core.profile(lambda: f.transform(G), "ref")
        else:
            G = clean.copy()
            o, prof = core.profile(lambda: f.fit_transform(G, zoo.clone_data(target)), "ref")
        return (o.value if o.kind == "ok" else None), prof, f

    if case["fitted"]:
        cm.setup(m.fit if not case["chain"] else m.fit_transform, A.copy(), b)
    want, _, f = cm.setup(reference, "fit_transform", y)
    if want is None:
        raise cm.Skip("undisturbed fit_transform fails")
    # an undisturbed call must itself be right: the in-sample prediction for the frame as it was (before the clipping or
    # class decision that predict may add)
    if not case["chain"]:
        for n in names:
            d = column(want, n, None, f, clean)
            if d:
                rep.violation("wrong-column", "%s: column written by fit_transform: %s" % (spec["kind"], d))
                return
    direct = spec["form"] == "direct" and not case["chain"]
    resolved = []
    failed = 0
    state_known = True  # the object's training state equals that of the reference
    for k, op in enumerate(case["ops"]):
        op2, faults, target, F = dict(op), {}, y, X
        if op["how"] == "transform":
            if not (case["fitted"] and state_known):
                resolved.append(op2)
                continue
        ref, prof, _ = reference(op["how"], y)
        before = X.copy()
        if op["mode"] == "abort":
            st = core.resolve_fault(op["pick"], prof)
            faults = {st: op["exc"]}
            op2["pick"] = ["step", st]
        elif op["mode"] == "lr":
            lr.arm({"mode": "raise", "at": 1 + int(op["u"] * 4), "exc": op["exc"]})
        elif op["mode"] == "observer":
            rec.n, rec.raise_at, rec.exc = 0, 1 + int(op["u"] * 5), op["exc"]
        elif op["mode"] == "target":
            target = np.array(y, dtype=float)
            target[int(op["u"] * len(target))] = np.nan
            if op["u"] < 0.4:
                target = target[:-1]
        elif op["mode"] == "column":
            F = X.drop(columns=[spec["cols"][int(op["u"] * len(spec["cols"]))]])
            before = F.copy()
        elif op["mode"] == "exists":
            n = names[int(op["u"] * len(names))]
            F = X.copy()
            F[n] = [-3.5, np.nan, 0.0, 7, None, "", want[n].values][int(op["u"] * 997) % 7]
            before = F.copy()
        if op["how"] == "transform":
            o = core.solo(lambda: m.transform(F), "op%d" % k, faults=faults, limit=20000000)
        else:
            o = core.solo(lambda: m.fit_transform(F, target), "op%d" % k, faults=faults, limit=20000000)
        lr.arm(None)
        rec.raise_at = None
        rep.outcome(o)
        resolved.append(op2)
        where = "%s%s, %s/%s" % (spec["kind"], " chain" if case["chain"] else "", op["how"], op["mode"])
        if o.kind == "ok":
            if op["mode"] == "exists":
                rep.violation("overwritten", "%s: frame that already has column %s accepted" % (where, n))
                return
            if op["mode"] in ("column", "target"):
                state_known = False
                X = clean.copy()
                continue  # the frame was good enough without that column
            if o.fired and op["exc"] in HANDLED:
                # an ordinary error may be dealt with by a documented fallback (a solver that does not converge): the column
                # still has to hold what the model predicts
                rep.probe("error_handled")
                d = None if case["chain"] else column(
                    o.value, names[0], None if op["how"] == "fit_transform" else zoo.as_plain(m.predict(clean.copy())), m, clean)
            else:
                d = same_frame(ref, o.value) if ref is not None else "the undisturbed call fails"
            if d:
                rep.violation("wrong-column", "%s after %d failures: %s" % (where, failed, d))
                return
            if op["how"] == "fit_transform":
                state_known = False  # now trained on other data than the transform reference
            # start over with a frame without the column
            X = clean.copy()
            continue
        failed += 1
        rep.probe("failed_" + op["mode"])
        if not o.fired:
            rep.fault("%s-%s" % (op["mode"], type(o.exc).__name__))
            rep.parts.append("%s:%s:%d" % (where, type(o.exc).__name__, o.steps))
        if op["how"] == "fit_transform":
            state_known = False
        if op["mode"] == "exists":
            # in a chain the first estimator may have done its work before the second refuses
            d = same_frame(before, F[list(before.columns)] if case["chain"] else F)
            if d:
                rep.violation("refused-changed", "%s: refused frame was changed: %s" % (where, d))
                return
            continue
        d = same_frame(before, F)
        if d:
            # the complete, correct column(s) may be there already
            added = [c for c in F.columns if c not in before.columns]
            ok = ref is not None and op["mode"] in ("abort", "lr", "observer") and all(c in names for c in added) and \
                same_frame(ref[list(F.columns)], F) is None
            if not ok:
                rep.violation("half-written", "%s: failed call (%s) left the frame changed: %s" % (where, o.describe(), d))
                return
            rep.probe("column_complete_after_failure")
            X = clean.copy() if F is X else X
    rep.resolved = dict(case, ops=resolved)
    # retry until success on one frame
    ref, _, f = reference("fit_transform", y)
    o = core.solo(lambda: m.fit_transform(X, zoo.clone_data(y)), "last", limit=20000000)
    where = "%s%s" % (spec["kind"], " chain" if case["chain"] else "")
    if o.kind != "ok":
        rep.violation("retry", "%s after %d failures: %s" % (where, failed, o.describe()))
        return
    d = same_frame(ref, o.value)
    if d:
        rep.violation("retry", "%s after %d failures: %s" % (where, failed, d))
        return
    if list(o.value.columns) != list(clean.columns) + names:
        rep.violation("retry", "%s: columns %s" % (where, list(o.value.columns)))
        return
    if spec["form"] == "direct" and same_frame(clean, o.value[list(clean.columns)]):
        rep.violation("retry", "%s: other columns changed: %s" % (where, same_frame(clean, o.value[list(clean.columns)])))
        return
    # a second call on the completed frame is refused and leaves it alone
    done = o.value
    before = done.copy()
    if direct:
        call = m.transform if case["last"] == "transform" else (lambda F: m.fit_transform(F, zoo.clone_data(y)))
        o = core.solo(lambda: call(done), "again", limit=20000000)
        d = same_frame(before, done)
        if o.kind == "ok" or d:
            rep.violation("overwritten", "%s: second %s on a completed frame: %s, %s" % (where, case["last"], o.describe() if
                          o.kind == "exc" else "accepted", d))
            return
    # transform of the same rows gives the column the model predicts
    G, H = clean.copy(), clean.copy()
    o = core.solo(lambda: m.transform(G), "transform")
    p = core.solo(lambda: f.transform(H), "transform-ref")
    if o.kind != p.kind or (o.kind == "ok" and same_frame(p.value, o.value)):
        rep.violation("retry", "%s: transform after retries: %s" % (where, same_frame(p.value, o.value) if o.kind == p.kind
                                                                     else o.describe()))
        return
    if o.kind == "ok" and not case["chain"]:
        d = column(o.value, names[0], zoo.as_plain(m.predict(clean.copy())), m, clean)
        if d:
            rep.violation("wrong-column", "%s: column written by transform is not the prediction: %s" % (where, d))


def column(frame, name, predicted, m, clean):
    if name not in frame.columns:
        return "column %s missing" % name
    if predicted is None:
        predicted = zoo.served(m, clean.copy())
    return zoo.diff(np.asarray(predicted, dtype=float), frame[name].values.astype(float), name, 1e-7, 1e-9)


def simplify(case):
    out = cm.simplify_spec(case)
    for k in ("chain", "extra", "fitted"):
        if case[k]:
            out.append(dict(case, **{k: False}))
    return out
