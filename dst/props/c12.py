"""C12: an answer depends on its own row only, not on batching or request history."""
import numpy as np
import pandas as pd

from .. import core, zoo
from . import common as cm

RUNS = {"quick": 2200, "thorough": 50000}
RULE = ("seeded: fitted model x rows (known, unseen, missing, extreme values) x sequence of requests, each on a drawn selection "
        "of rows (batch, permutation, duplicates, single rows, other container, column order or index) mixed with malformed, "
        "empty and aborted requests; every row's answer is compared with that row asked alone of an untouched copy; distinct = "
        "different request sequence; non-trivial = at least two batches compared")
REAL = cm.REAL
STUB = ["none: real requests, some aborted by injected faults"]
ASSUME = cm.ASSUME
PER_ROW = ["predict", "proba", "contrib", "extended", "influence", "binned"]
BAD = ["missing_column", "text", "empty", "none", "short_array", "inf", "object", "huge"]


def generate(rng, tier):
    spec = zoo.any_spec(rng, p_other=0.25, kinds=zoo.FAST * 5 + zoo.SLOW, n=(24, 45), iters=(1, 4))
    if spec["kind"] in ("qpdS", "qpdB") and rng.random() < 0.5:
        spec = zoo.gen_other(rng, rng.choice(["binner", "ecdf"]))
    if spec["kind"] == "binner" and rng.random() < 0.2:
        # a column with more bins than small integers hold
        spec["props"]["k"], spec["n"], spec["nbins"], spec["noprops"] = rng.choice("UUO"), rng.randrange(330, 500), 300, False
        spec["cols"].append("k")
    n = rng.randrange(4, 14)
    names = [r for r in zoo.requests_for(spec) if r in PER_ROW + ["transform", "qpd"]]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        k = rng.choice(["good"] * 5 + ["bad", "bad", "abort", "refill", "refill"])
        op = {"do": k, "req": rng.choice(names)}
        if k == "bad":
            op["bad"] = rng.choice(BAD)
        style = rng.choice(["perm", "sub", "dup", "single", "rev", "tail"])
        idx = list(range(n))
        if style == "perm":
            rng.shuffle(idx)
        elif style == "sub":
            idx = sorted(rng.sample(idx, rng.randrange(1, n)))
        elif style == "dup":
            idx = [rng.randrange(n) for _ in range(rng.randrange(2, 3 * n))]
        elif style == "single":
            idx = [rng.randrange(n)] * rng.choice([1, 1, 3])
        elif style == "rev":
            idx = idx[::-1]
        else:
            idx = idx[rng.randrange(n - 1):]
        op["rows"] = idx
        if rng.random() < 0.05:
            op["rep"] = rng.choice([20, 130, 700, 700, 5000])
        op["index"] = rng.choice(["keep", "reset", "dup", "text", "neg"])
        op["cols"] = rng.choice(["keep", "keep", "shuffle", "extra"])
        op["ints"] = rng.choice([None, None, "int64", "int32"])
        op["layout"] = rng.choice(["keep", "fortran", "float32no", "view"])
        if k == "abort":
            op["pick"], op["exc"] = core.gen_pick(rng), rng.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError"])
        ops.append(op)
    return {"spec": spec, "qds": rng.randrange(1, 10**6), "n": n, "miss": rng.choice([0.0, 0.2, 0.5]), "ops": ops,
            "cseed": rng.randrange(1 << 30), "whole": rng.random() < 0.35}


def take(Q, op, spec, cseed):
    """The drawn rows in the drawn container."""
    if isinstance(Q, np.ndarray):
        A = Q[op["rows"]]
        if op["layout"] == "fortran":
            A = np.asfortranarray(A)
        elif op["layout"] == "view":
            big = np.full((2 * len(A), A.shape[1]), -7.0)
            big[::2] = A
            A = big[::2]
        return A
    A = Q.iloc[op["rows"]].copy()
    r = np.random.RandomState(cseed % 2**32)
    if op["index"] == "reset":
        A = A.reset_index(drop=True)
    elif op["index"] == "dup":
        A.index = np.zeros(len(A), dtype=int)
    elif op["index"] == "text":
        A.index = ["r%d" % i for i in r.permutation(len(A))]
    elif op["index"] == "neg":
        A.index = -np.arange(len(A)) * 5 - 1
    if op.get("ints"):
        for c in A.columns:
            v = A[c].values
            if v.dtype.kind == "f" and np.isfinite(v).all() and (v == np.round(v)).all() and (np.abs(v) < 2**31).all():
                A[c] = v.astype(op["ints"])
    loose = spec["kind"] not in ("ecdf",)  # its result has the columns of its input
    if op["cols"] == "shuffle" and loose:
        A = A[[A.columns[i] for i in r.permutation(len(A.columns))]]
    elif op["cols"] == "extra" and not spec.get("noprops") and loose:
        A = A.assign(zz_more=np.arange(len(A)) * 2.0)
    return A


def rowwise(v, n):
    """Per-row form of an answer: list of dicts of scalars/lists, one per row."""
    if isinstance(v, dict) and "raises" in v:
        return v
    if isinstance(v, dict) and set(v) == {"cols", "val", "index"}:
        return [{c: float(v["val"][i, j]) if not isinstance(v["val"][i, j], str) else v["val"][i, j]
                 for j, c in enumerate(v["cols"]) if c != "zz_more"} for i in range(n)]
    if isinstance(v, dict):
        return [{k: np.asarray(x)[i] if np.ndim(x) == 1 else np.asarray(x)[:, i] if np.asarray(x).shape[1:] == (n,) else
                 np.asarray(x)[i] for k, x in v.items()} for i in range(n)]
    v = np.asarray(v)
    return [{"v": v[i]} for i in range(n)]


def spoil(Q, op):
    """Malformed input."""
    b = op["bad"]
    if b == "none":
        return None
    if b == "empty":
        return Q[:0]
    if isinstance(Q, np.ndarray):
        if b in ("missing_column", "short_array"):
            return Q[:, :max(1, Q.shape[1] - 1)]
        if b in ("text", "object"):
            A = Q.astype(object)
            A[0, 0] = "x" if b == "text" else None
            return A
        A = Q.copy()
        A[0, :] = np.inf if b == "inf" else 1e300
        return A
    if b == "missing_column":
        return Q.drop(columns=[Q.columns[0]])
    if b == "short_array":
        return Q.values[:, :1]
    A = Q.copy()
    if b in ("text", "object"):
        A[A.columns[0]] = A[A.columns[0]].astype(object)
        A.iloc[0, 0] = "x" if b == "text" else None
        return A
    for c in A.columns:
        A[c] = A[c].astype(float)
    A.iloc[0, :] = np.inf if b == "inf" else 1e300
    return A


def rows_qpd(m, A):
    lo, med, hi, q = m.predict(A)
    return {"lo": np.asarray(lo, dtype=float), "med": np.asarray(med, dtype=float), "hi": np.asarray(hi, dtype=float),
            "ppf": np.asarray(q.ppf(0.4), dtype=float).reshape(-1)}


def ask(m, req, A):
    return rows_qpd(m, A) if req == "qpd" else zoo.REQ[req](m, A)


def execute(case, rep):
    spec = case["spec"]
    m = cm.setup(zoo.any_model, spec)
    X, y = zoo.any_data(spec)
    cm.setup(m.fit, X, y)
    Q = zoo.any_query(spec, case["qds"], case["n"], True, case["miss"])
    if spec["kind"] == "binner" and "k" in spec["cols"]:
        edge = np.random.RandomState(case["qds"] % 2**32).choice([0.0, 126, 127, 128, 129, 130, 255, 256, 257], case["n"])
        if isinstance(Q, np.ndarray):
            Q[:, spec["cols"].index("k")] = edge
        else:
            Q["k"] = edge
    if case["whole"]:
        # some rows hold whole numbers only
        for c in [c for c in "cd" if c in spec["cols"]]:
            j = np.arange(case["n"]) % 2 == 0
            if isinstance(Q, np.ndarray):
                Q[j, spec["cols"].index(c)] = np.round(Q[j, spec["cols"].index(c)])
            else:
                Q.loc[Q.index[j], c] = np.round(Q.loc[Q.index[j], c])
    fixed = zoo.any_query(spec, case["qds"] + 1, 5)
    at_start = zoo.outputs(m, spec, fixed)
    alone = {}
    compared, parts, resolved = 0, [], []

    def single(req, i):
        if (req, i) not in alone:
            row = Q[i:i + 1] if isinstance(Q, np.ndarray) else Q.iloc[[i]]
            alone[req, i] = rowwise(zoo.safe(lambda: ask(pristine, req, row.copy())), 1)
        return alone[req, i]

    pristine = cm.roundtrip(m)
    for k, op in enumerate(case["ops"]):
        op2 = dict(op)
        op = dict(op, rows=op["rows"] * op.get("rep", 1))
        A = take(Q, op, spec, case["cseed"] + k)
        if op["do"] == "bad":
            B = zoo.safe(spoil, A, op)
            o = core.solo(lambda: ask(m, op["req"], B), "bad%d" % k, limit=20000000)
            rep.outcome(o)
            rep.probe("bad_raises" if o.kind == "exc" else "bad_answered")
            rep.fault("malformed-" + op["bad"])
            parts.append("b:" + op["bad"])
        elif op["do"] == "abort":
            _, prof = core.profile(lambda: ask(cm.roundtrip(m), op["req"], A.copy()), "probe")
            if prof:
                st = core.resolve_fault(op["pick"], prof)
                op2["pick"] = ["step", st]
                o = core.solo(lambda: ask(m, op["req"], A), "abort%d" % k, faults={st: op["exc"]}, limit=20000000)
                rep.outcome(o)
        else:
            if op["do"] == "refill":
                # the caller reuses one container: asks, overwrites its content, asks again
                B = take(Q, dict(op, rows=op["rows"][::-1]), spec, case["cseed"] + k)
                rep.outcome(core.solo(lambda: ask(m, op["req"], B), "pre%d" % k, limit=20000000))
                if hasattr(B, "columns"):
                    for c in B.columns:
                        B[c] = A[c].values
                    B.index = A.index
                else:
                    B[...] = A
                A = B
                rep.fault("container-refilled")
            o = core.solo(lambda: ask(m, op["req"], A), "req%d" % k, limit=20000000)
            rep.outcome(o)
            got = rowwise(o.value, len(op["rows"])) if o.kind == "ok" else {"raises": type(o.exc).__name__}
            refs = [single(op["req"], i) for i in op["rows"]]
            where = "%s, request %d (%s, %d rows, index %s, columns %s)" % (
                spec["kind"], k, op["req"], len(op["rows"]), op["index"], op["cols"])
            parts.append("%s%s%d" % (op["req"], op["index"], len(op["rows"])))
            if isinstance(got, dict):
                if not any(isinstance(r, dict) for r in refs):
                    rep.violation("batch", "%s: raises %s, every row alone is answered" % (where, o.describe()))
                    return
            else:
                for j, (g, r) in enumerate(zip(got, refs)):
                    if isinstance(r, dict):
                        continue  # rows that cannot be asked alone
                    d = zoo.diff(r[0], g)
                    if d:
                        rep.violation("batch", "%s: answer for row %d differs from the row asked alone: %s" % (
                            where, op["rows"][j], d))
                        return
                compared += 1
        resolved.append(op2)
    rep.resolved = dict(case, ops=resolved)
    if compared >= 2:
        rep.parts.append(spec["kind"] + spec["form"] + "|".join(parts))
    rep.probe("batches_compared", compared)
    d = zoo.diff(at_start, zoo.outputs(m, spec, fixed))
    if d:
        rep.violation("history", "%s: requests changed what the model answers: %s" % (spec["kind"], d))


def simplify(case):
    out = cm.simplify_spec(case)
    for i, op in enumerate(case["ops"]):
        for alt in (dict(op, index="keep"), dict(op, cols="keep"), dict(op, layout="keep"), dict(op, rows=op["rows"][:1]),
                    dict(op, rows=op["rows"][:2]), dict(op, rep=1)):
            if alt != op:
                out.append(dict(case, ops=case["ops"][:i] + [alt] + case["ops"][i + 1:]))
    return out
