"""C01: concurrent requests to one fitted model never influence each other."""
from .. import core, zoo
from . import common as cm

RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("seeded: model configuration x 2-4 client threads x 1-4 requests each x scheduling policy (random walk, bursts, "
        "PCT priorities, stalled victim, rendezvous; line or bytecode granularity) x aborts; non-trivial = at least one "
        "preemption or abort happened, distinct = different sequence of (task, location, next task) and abort sites")
REAL = cm.REAL
STUB = cm.STUB_SCHED
ASSUME = cm.ASSUME


def generate(rng, tier):
    spec = zoo.any_spec(rng, p_other=0.3, kinds=zoo.FAST * 3 + ["exponential"] * 4 + zoo.SLOW)
    reqs = zoo.requests_for(spec)
    tasks, ids = [], []
    share = rng.random() < 0.4
    for t in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for j in range(rng.choice([1, 1, 2, 3])):
            op = {"id": "t%do%d" % (t, j), "req": rng.choice(reqs), "qds": rng.randrange(1, 10**6),
                  "n": rng.choice([1, 3, 8, 20]), "unseen": rng.random() < 0.5}
            if share and rng.random() < 0.6:
                op["qds"], op["n"], op["unseen"], op["shared"] = 77, 9, True, True
            ops.append(op)
            ids.append(op["id"])
        tasks.append(ops)
    return {"spec": spec, "via": rng.choice(["fit", "fit", "pickle"]), "tasks": tasks,
            "faults": cm.gen_faults(rng, ids, 0.35), "sched": cm.gen_sched(rng, ids, horizon=1500)}


def build(case):
    m = zoo.any_model(case["spec"])
    X, y = zoo.any_data(case["spec"])
    zoo.fit(m, X, y)
    if case["via"] == "pickle":
        m = cm.roundtrip(m)
    return m


def execute(case, rep):
    spec = case["spec"]
    m, twin = cm.setup(build, case), cm.setup(build, case)
    shared = {}
    fns, refs, profs = {}, {}, {}
    tasks = []
    for i, t in enumerate(case["tasks"]):
        ops = []
        for op in t:
            if op.get("shared"):
                key = (op["qds"], op["n"])
                X = shared.setdefault(key, zoo.any_query(spec, op["qds"], op["n"], op["unseen"]))
            else:
                X = zoo.any_query(spec, op["qds"], op["n"], op["unseen"])
            req = zoo.REQ[op["req"]]
            refs[op["id"]], profs[op["id"]] = core.profile(lambda r=req, x=zoo.clone_data(X): r(twin, x), op["id"])
            fn = lambda r=req, x=X: r(m, x)  # noqa: E731
            fns[op["id"]] = fn
            ops.append((op["id"], fn))
        if ops:
            tasks.append(("client%d" % i, ops))
    if not tasks:
        return
    sim = cm.run_sim(case, rep, tasks, profs)
    cm.liveness(rep, sim)
    for op, ref in refs.items():
        got = sim.outcomes.get(op)
        if got is None or got.fired:
            continue
        d = cm.same_outcome(ref, got)
        if d:
            rep.violation("interference", "%s %s: concurrent answer differs from the answer alone: %s" % (
                spec["kind"], op, d))
    rep.probe("concurrent_requests", len(refs))
    for op, fn in fns.items():
        got = core.solo(fn, "after-" + op)
        d = cm.same_outcome(refs[op], got)
        if d:
            rep.violation("lasting", "%s %s: answer after the concurrent phase differs: %s" % (spec["kind"], op, d))
            break


def simplify(case):
    return cm.simplify_spec(case)
