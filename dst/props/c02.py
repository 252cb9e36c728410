"""C02: trainings of different models running at the same time do not interact."""
from .. import core, fakes, zoo
from . import common as cm

RUNS = {"quick": 1040, "thorough": 16000}
RULE = ("seeded: 2-4 trainings (shared or separate smoother choice, feature properties, group lists, learning rate, "
        "data) plus serving threads x scheduling policy x aborts of some trainings; non-trivial = at least one "
        "preemption or abort, distinct = different sequence of (task, location, next task) and abort sites")
REAL = cm.REAL
STUB = cm.STUB_SCHED
ASSUME = cm.ASSUME

SIBLING = ["poisson", "nbinom", "location", "locpoisson", "classifier"]


def generate(rng, tier):
    base = zoo.gen_spec(rng, kinds=zoo.FAST * 4 + ["exponential"] * 4 + zoo.SLOW, n=(24, 50), iters=(1, 3))
    share = {k: rng.random() < 0.6 for k in ("sc", "props", "data", "groups", "lr")}
    if share["sc"] and base["smooth"] is None and rng.random() < 0.7:
        base["smooth"] = rng.choice(["wm", "gb", "exp", "exp2"])
    specs = [base]
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.75:
            s = dict(base)
            if base["kind"] in SIBLING and rng.random() < 0.5:
                s["kind"] = rng.choice(SIBLING)
                s.pop("par", None)
            if rng.random() < 0.5:
                s["iters"] = max(rng.randrange(1, 4), 2 if s.get("hier") else 1)
            if not share["data"]:
                s["ds"] = rng.randrange(1, 10**6)
            s["agg"] = rng.random() < 0.8 if base["kind"] not in ("exponential", "nbinomc") else True
            specs.append(s)
        else:
            specs.append(zoo.any_spec(rng, p_other=0.6, n=(24, 50), iters=(1, 3)))
    ids = ["fit%d" % i for i in range(len(specs))]
    tasks = [[{"id": i, "train": n}] for n, i in enumerate(ids)]
    if rng.random() < 0.4:
        n = rng.randrange(len(specs))
        ops = []
        for j in range(rng.choice([1, 2, 4])):
            op = {"id": "req%d" % j, "serve": n, "req": rng.choice(zoo.requests_for(specs[n])),
                  "qds": rng.randrange(1, 10**6), "n": rng.choice([1, 5, 12])}
            ops.append(op)
            ids.append(op["id"])
        tasks.append(ops)
    return {"specs": specs, "share": share, "tasks": tasks, "faults": cm.gen_faults(rng, ids[:len(specs)], 0.3),
            "sched": cm.gen_sched(rng, ids, gran_ins=0.08, horizon=9000)}


def compatible(a, b):
    return (b["kind"] not in zoo.OTHER and a["cols"] == b["cols"] and a["form"] == b["form"]
            and zoo.props_of(a) == zoo.props_of(b) and a["groups"] == b["groups"] and a.get("smooth") == b.get("smooth"))


def build(case, pool):
    """Models and data; with a `pool` the configuration objects and data are the same Python objects."""
    out, shared = [], pool is not None
    sh = case["share"]
    first = case["specs"][0]
    for s in case["specs"]:
        if s["kind"] in zoo.OTHER:
            m = zoo.make_other(s)
            X, y = zoo.any_data(s)
        else:
            kw = {}
            use = shared and compatible(first, s)
            if use and sh["sc"] and s.get("smooth"):
                kw["smoother_choice"] = pool.setdefault("sc", zoo._choice(s["smooth"], None))
            if use and sh["props"]:
                kw["feature_properties"] = pool.setdefault("props", zoo.props_of(s))
            if use and sh["lr"] and s.get("lr"):
                kw["learn_rate"] = pool.setdefault("lr" + s["lr"], fakes.CtlLR(s["lr"]))
            m = zoo.make_model(s, **kw)
            est = zoo.est_of(m)
            if use and sh["groups"] and s["kind"] not in ("exponential",) and not s.get("nogroups"):
                est.feature_groups = pool.setdefault("groups", est.feature_groups)
            X, y = zoo.data(s)
            if use and sh["data"] and s["ds"] == first["ds"] and s["n"] == first["n"]:
                X = pool.setdefault("X", X)
                if s["kind"] == first["kind"]:
                    y = pool.setdefault("y", y)
        out.append((m, X, y))
    return out


def execute(case, rep):
    specs = case["specs"]
    refs, profs = {}, {}
    alone = cm.setup(build, case, None)
    pool, servers = {}, {}
    live = cm.setup(build, case, pool)
    for n, (m, X, y) in enumerate(alone):
        o, profs["fit%d" % n] = core.profile(lambda m=m, X=X, y=y: m.fit(X, y) and None, "fit%d" % n)
        refs[n] = (o, zoo.outputs(m, specs[n], zoo.any_query(specs[n], 11, 8)) if o.kind == "ok" else None)
    tasks = []
    trained = []
    for i, t in enumerate(case["tasks"]):
        ops = []
        for op in t:
            if "train" in op:
                m, X, y = live[op["train"]]
                trained.append((op["id"], op["train"]))
                ops.append((op["id"], lambda m=m, X=X, y=y: m.fit(X, y) and None))
            else:
                s = specs[op["serve"]]
                if refs[op["serve"]][0].kind != "ok":
                    continue
                if op["serve"] not in servers:
                    servers[op["serve"]] = cm.setup(lambda k=op["serve"]: build(case, pool)[k])
                    cm.setup(zoo.fit, *servers[op["serve"]])
                sm = servers[op["serve"]][0]
                q = zoo.any_query(s, op["qds"], op["n"])
                req = zoo.REQ[op["req"]]
                o, profs[op["id"]] = core.profile(
                    lambda r=req, x=zoo.clone_data(q), k=op["serve"]: r(alone[k][0], x), op["id"])
                refs[op["id"]] = o
                ops.append((op["id"], lambda r=req, x=q, sm=sm: r(sm, x)))
        if ops:
            tasks.append(("task%d" % i, ops))
    if not tasks:
        return
    sim = cm.run_sim(case, rep, tasks, profs)
    cm.liveness(rep, sim)
    for op, n in trained:
        got = sim.outcomes[op]
        if got.fired:
            rep.probe("aborted_trainings")
            continue
        ref, outs = refs[n]
        if (ref.kind, type(ref.exc)) != (got.kind, type(got.exc)):
            rep.violation("training-outcome", "%s %s: %s instead of %s" % (
                specs[n]["kind"], op, got.describe(), ref.describe()))
            continue
        if got.kind != "ok":
            continue
        rep.probe("concurrent_trainings")
        d = zoo.diff(outs, zoo.outputs(live[n][0], specs[n], zoo.any_query(specs[n], 11, 8)))
        if d:
            rep.violation("interference", "%s %s: model differs from the one trained alone: %s" % (
                specs[n]["kind"], op, d))
    for t in case["tasks"]:
        for op in t:
            if "serve" in op and op["id"] in refs:
                got = sim.outcomes.get(op["id"])
                if got is not None and not got.fired:
                    d = cm.same_outcome(refs[op["id"]], got)
                    if d:
                        rep.violation("serving", "%s request beside trainings: %s" % (op["req"], d))


def simplify(case):
    out = []
    if len(case["specs"]) > 2:
        used = {op.get("train", op.get("serve")) for t in case["tasks"] for op in t}
        for i in range(len(case["specs"])):
            if i in used:
                out.append(dict(case, tasks=[[o for o in t if o.get("train", o.get("serve")) != i]
                                             for t in case["tasks"]]))
    for k in case["share"]:
        if case["share"][k]:
            out.append(dict(case, share=dict(case["share"], **{k: False})))
    return out
