"""C09: saved and copied models answer identically, and saving disturbs nothing."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from cyclic_boosting import observers

from .. import core, zoo
from ..fakes import CtlLR, Recorder, Stream
from . import c15
from . import common as cm
from . import smooth_zoo as sz

RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("seeded: model, transformer, quantile chain or smoother x way of copying (pickle protocols, deepcopy) x instant: idle, "
        "from a callback in the middle of training, or overlapping requests under a drawn schedule (a switch is possible at "
        "every object visited and every write) x failing sink (k-th write, full, k-th object) or abort; or a restart in a "
        "fresh process with another hash seed; distinct = different model, instant, fault site and interleaving; "
        "non-trivial = a copy was taken or a save failed")
REAL = cm.REAL + ["pickle and copy"]
STUB = cm.STUB_SCHED + ["save target (in-memory sink failing on demand)"]
ASSUME = cm.ASSUME
EXACT = dict(rtol=1e-13, atol=1e-15)
EXC = ["OSError", "MemoryError", "KeyboardInterrupt"]


class Visit:
    """Counts the objects a copy visits: each is a scheduling point, the n-th may fail."""

    def __init__(self, fail_at=None, exc="OSError"):
        self.n, self.fail_at, self.exc, self.fired = 0, fail_at, exc, 0

    def __call__(self):
        self.n += 1
        core.io_point("visit")
        if self.n == self.fail_at:
            self.fired += 1
            raise core.make_exc(self.exc, "object %d" % self.n)


class PointPickler(pickle.Pickler):
    visit = None

    def reducer_override(self, obj):
        self.visit()
        return NotImplemented


class PointMemo(dict):
    visit = None

    def get(self, *a):
        self.visit()
        return dict.get(self, *a)


def take(m, snap, stat):
    """Copy `m` the drawn way; returns the copy.  `stat` learns whether the injected failure fired."""
    visit = Visit(snap.get("visit"), snap.get("exc", "OSError"))
    stat["visit"] = visit
    if snap["how"] == "deepcopy":
        memo = PointMemo()
        memo.visit = visit
        return copy.deepcopy(m, memo)
    sink = Stream(fail_at=snap.get("write"), capacity=snap.get("full"), exc=snap.get("exc", "OSError"))
    stat["sink"] = sink
    p = PointPickler(sink, snap["how"])
    p.visit = visit
    p.dump(m)
    return pickle.loads(bytes(sink.buf))


def struck(stat):
    return sum(x.fired for x in stat.values())


def gen_snap(rng, p_fail=0.4):
    snap = {"how": rng.choice(["deepcopy", "deepcopy", 2, 3, 4, 5, 5])}
    if rng.random() < p_fail:
        snap["exc"] = rng.choice(EXC)
        k = rng.choice(["visit", "visit", "write", "full"])
        if snap["how"] == "deepcopy":
            k = "visit"
        snap[k] = {"visit": lambda: rng.choice([1, 2, 5, 20, 60, 150]) + rng.randrange(10),
                   "write": lambda: rng.choice([1, 1, 2, 3]), "full": lambda: rng.choice([0, 10, 1000, 20000])}[k]()
    return snap


def generate(rng, tier):
    k = rng.random()
    if k < 0.02:
        ops = [{"spec": zoo.any_spec(rng, p_other=0.3, kinds=zoo.FAST * 5 + zoo.SLOW, n=(24, 50), iters=(1, 3))}
               for _ in range(6)] + [{"sm": sz.gen(rng)} for _ in range(6)]
        return {"mode": "process", "hash": rng.choice([1, 2, 7, 42, 4242, 99991]), "proto": rng.choice([2, 3, 4, 5]), "ops": ops}
    if k < 0.17:
        return {"mode": "smoother", "sm": sz.gen(rng), "snap": gen_snap(rng), "other": rng.randrange(1 << 30)}
    spec = zoo.any_spec(rng, p_other=0.25, kinds=zoo.FAST * 4 + zoo.SLOW, n=(24, 50), iters=(1, 4))
    if spec["kind"] in ("qpdS", "qpdB") and rng.random() < 0.5:
        spec = zoo.gen_spec(rng, kinds=zoo.FAST, n=(24, 50), iters=(1, 4))
    case = {"mode": "idle", "spec": spec, "snap": gen_snap(rng), "qds": rng.randrange(1, 10**6),
            "obs": rng.choice([None, None, -1, 1])}
    if k < 0.45:
        ops = ["save"] + (["save2"] if rng.random() < 0.3 else [])
        case.update(mode="overlap", snap2=gen_snap(rng, 0.2), reqs=[], sched=None, faults=[])
        for i in range(rng.choice([1, 2, 3])):
            case["reqs"].append([rng.choice(zoo.requests_for(spec)) for _ in range(rng.choice([1, 1, 2, 3]))])
        ids = ops + ["r%d_%d" % (i, j) for i, t in enumerate(case["reqs"]) for j in range(len(t))]
        case["two"] = len(ops) > 1
        case["sched"] = cm.gen_sched(rng, ids, horizon=900)
        case["faults"] = cm.gen_faults(rng, ids, 0.2)
    elif k < 0.7 and spec["kind"] not in zoo.OTHER:
        case.update(mode="training", at=rng.choice([1, 1, 2, 3, 5, 8]), via=rng.choice(["observer", "observer", "rate"]),
                    every=rng.random() < 0.3)
    else:
        case["pick"] = core.gen_pick(rng) if rng.random() < 0.2 else None
        case["unfitted"] = rng.random() < 0.1
    return case


def make(case, **kw):
    spec = case["spec"]
    if spec["kind"] in zoo.OTHER:
        return zoo.make_other(spec)
    obs = [observers.PlottingObserver(iteration=case["obs"])] if case.get("obs") else []
    return zoo.make_model(spec, observers_=(obs + kw.pop("recorders", [])) or None, **kw)


def fitted(case):
    m = make(case)
    m.fit(*zoo.any_data(case["spec"]))
    return m


def observed(m, spec, X):
    """All answers plus what its plotting observers hold."""
    return {"out": zoo.outputs(m, spec, zoo.clone_data(X)), "rec": recordings(m)}


def recordings(m):
    return [cm.recording(o) for o in getattr(zoo.est_of(m), "observers", None) or []
            if isinstance(o, observers.PlottingObserver)]


def execute(case, rep):
    {"process": process, "smoother": smoother, "overlap": overlap, "training": training, "idle": idle}[case["mode"]](case, rep)


def note(case, rep, stat, o):
    rep.outcome(o)
    for k, x in stat.items():
        if x.fired:
            rep.fault("save-%s-%s" % (k, x.exc), x.fired)
    rep.parts.append("%s/%s/%s/%s/%s" % (case["mode"], (case.get("spec") or case.get("sm")).get("kind"), case["snap"],
                                         o.kind, stat["visit"].n if "visit" in stat else 0))


def judge_save(case, rep, o, stat, what):
    """A failed save raises, one without failure succeeds; returns the copy or None."""
    hit = struck(stat)
    if hit and not o.fired:
        want = core.EXC[case["snap"]["exc"]]
        if o.kind == "ok" or not isinstance(o.exc, want):
            rep.violation("swallowed", "%s: the save target failed with %s but the save ended %s" % (
                what, case["snap"]["exc"], o.describe()))
        return None
    if o.fired:
        if o.kind == "ok":
            rep.violation("swallowed", "%s: save aborted by %s ended normally" % (what, o.fired))
        return None
    if o.kind != "ok":
        rep.violation("unsaveable", "%s: %s" % (what, o.describe()))
        return None
    rep.probe("copies")
    return o.value


def retrain(rep, case, c, ref, Q, what):
    """The copy retrains like a fresh object."""
    spec = case["spec"]
    o = core.solo(lambda: c.fit(*zoo.any_data(spec)), "retrain")
    rep.steps += o.steps
    if o.kind != "ok":
        rep.violation("retrain", "%s: the copy cannot be retrained: %s" % (what, o.describe()))
        return
    d = zoo.diff(ref["out"], zoo.outputs(c, spec, zoo.clone_data(Q)))
    if d:
        rep.violation("retrain", "%s: the copy retrains to another model than a fresh one: %s" % (what, d))
    rep.probe("copies_retrained")


def idle(case, rep):
    spec = case["spec"]
    what = "%s idle %s" % (spec["kind"], case["snap"]["how"])
    m = cm.setup(make if case["unfitted"] else fitted, case)
    ref = observed(cm.setup(fitted, case), spec, zoo.any_query(spec, case["qds"], 11))
    Q = zoo.any_query(spec, case["qds"], 11)
    faults = None
    rep.resolved = dict(case)
    if case["pick"]:
        _, prof = core.profile(lambda: take(m, {"how": case["snap"]["how"]}, {}), "probe")
        if prof:
            st = core.resolve_fault(case["pick"], prof)
            faults = {st: "KeyboardInterrupt"}
            rep.resolved["pick"] = ["step", st]
    stat = {}
    o = core.solo(lambda: take(m, case["snap"], stat), "save", faults=faults)
    note(case, rep, stat, o)
    c = judge_save(case, rep, o, stat, what)
    if case["unfitted"]:
        for x, name in ((m, "original"), (c, "copy")):
            if x is not None:
                retrain(rep, case, x, ref, Q, what + " unfitted " + name)
        return
    d = zoo.diff(ref, observed(m, spec, Q), **EXACT)
    if d:
        rep.violation("disturbed", "%s: the live model answers differently after the save: %s" % (what, d))
    if c is None:
        c = zoo.safe(take, m, {"how": case["snap"]["how"]}, {})
        if isinstance(c, dict):
            rep.violation("retry", "%s: repeating the save after the failure raises %s" % (what, c["raises"]))
            return
    d = zoo.diff(ref, observed(c, spec, Q), **EXACT)
    if d:
        rep.violation("copy", "%s: the copy answers differently: %s" % (what, d))
    # original and copy are separate objects: training one leaves the other alone
    other = zoo.any_data(spec, case["qds"] + 1, 30)
    if not isinstance(zoo.safe(lambda: c.fit(*other)), dict):
        d = zoo.diff(ref, observed(m, spec, Q), **EXACT)
        if d:
            rep.violation("shared", "%s: training the copy changes the original: %s" % (what, d))
    retrain(rep, case, c, ref, Q, what)
    mine = observed(c, spec, Q)
    if not isinstance(zoo.safe(lambda: m.fit(*other)), dict):
        d = zoo.diff(mine, observed(c, spec, Q), **EXACT)
        if d:
            rep.violation("shared", "%s: training the original changes the copy: %s" % (what, d))


def training(case, rep):
    spec = case["spec"]
    what = "%s in training (%s %d) %s" % (spec["kind"], case["via"], case["at"], case["snap"]["how"])
    box, copies, n = {}, [], [0]

    def snapshot(*_):
        n[0] += 1
        if n[0] != case["at"] and not (case["every"] and n[0] > case["at"] and len(copies) < 3):
            return
        stat = {}
        try:
            c = take(box["m"], case["snap"], stat)
            copies.append((c, zoo.outputs(cm.roundtrip(c), spec, zoo.clone_data(Q))))
        except BaseException as e:  # noqa
            if not struck(stat):
                rep.violation("unsaveable", "%s: %s: %s" % (what, type(e).__name__, e))
            box["failed"] = stat
        else:
            if struck(stat):
                rep.violation("swallowed", "%s: failing save target ended normally" % what)

    def build(hook):
        if case["via"] == "observer":
            return make(case, recorders=[Recorder(hook=hook)])
        lr = CtlLR(spec.get("lr"))
        if hook:
            lr.arm({"mode": "hook", "at": case["at"], "fn": lambda: [n.__setitem__(0, case["at"] - 1), snapshot()]})
        return make(case, learn_rate=lr)

    twin = cm.setup(build, None)
    ref_o = core.solo(lambda: twin.fit(*zoo.any_data(spec)), "ref")
    if ref_o.kind != "ok":
        raise cm.Skip(ref_o.describe())
    Q = zoo.any_query(spec, case["qds"], 11)
    ref = observed(twin, spec, Q)
    m = box["m"] = build(snapshot)
    o = core.solo(lambda: m.fit(*zoo.any_data(spec)), "live", limit=60 * ref_o.steps + 2000000)
    rep.outcome(o)
    rep.resolved = dict(case)
    if o.kind != "ok":
        rep.violation("disturbed", "%s: the training ended %s" % (what, o.describe()))
        return
    d = zoo.diff(ref, observed(m, spec, Q), **EXACT)
    if d:
        rep.violation("disturbed", "%s: the live training ends differently: %s" % (what, d))
    for x in box.get("failed", {}).values():
        if x.fired:
            rep.fault("save-in-training-" + x.exc, x.fired)
    if n[0] >= case["at"]:
        rep.parts.append("training/%s/%s/%s/%d" % (spec["kind"], case["snap"], case["via"], case["at"]))
    for c, then in copies[:2]:
        rep.probe("copies_in_training")
        d = zoo.diff(then, zoo.outputs(cm.roundtrip(c), spec, zoo.clone_data(Q)), **EXACT)
        if d:
            rep.violation("shared", "%s: the training going on changed the copy: %s" % (what, d))
        retrain(rep, case, c, ref, Q, what)


def overlap(case, rep):
    spec = case["spec"]
    what = "%s under load" % spec["kind"]
    m, twin = cm.setup(fitted, case), cm.setup(fitted, case)
    Q = zoo.any_query(spec, case["qds"], 11)
    ref = observed(twin, spec, Q)
    stats = {"save": {}, "save2": {}}
    snaps = {"save": case["snap"], "save2": case["snap2"]}
    profs, refs, tasks = {}, {}, []
    for s in ["save"] + (["save2"] if case["two"] else []):
        _, profs[s] = core.profile(lambda s=s: take(twin, {"how": snaps[s]["how"]}, {}), s)
        profs[s] = profs[s] or [(core._IO_CODE, 0)]
        tasks.append((s, [(s, lambda s=s: take(m, snaps[s], stats[s]))]))
    for i, t in enumerate(case["reqs"]):
        ops = []
        for j, r in enumerate(t):
            op, req = "r%d_%d" % (i, j), zoo.REQ[r]
            q = zoo.any_query(spec, case["qds"] + 7 * i + j, 6)
            refs[op], profs[op] = core.profile(lambda req=req, q=zoo.clone_data(q): req(twin, q), op)
            ops.append((op, lambda req=req, q=q: req(m, q)))
        tasks.append(("client%d" % i, ops))
    sim = cm.run_sim(case, rep, tasks, profs)
    cm.liveness(rep, sim)
    for op, r in refs.items():
        got = sim.outcomes.get(op)
        if got is None or got.fired:
            continue
        d = cm.same_outcome(r, got)
        if d:
            rep.violation("disturbed", "%s: request %s differs while a copy is taken: %s" % (what, op, d))
    for s in stats:
        o = sim.outcomes.get(s)
        if o is None:
            continue
        for k, x in stats[s].items():
            if x.fired:
                rep.fault("save-%s-%s" % (k, x.exc), x.fired)
        c = judge_save(dict(case, snap=snaps[s]), rep, o, stats[s], what)
        if c is None:
            continue
        rep.probe("copies_under_load")
        d = zoo.diff(ref, observed(c, spec, Q), **EXACT)
        if d:
            rep.violation("copy", "%s: the copy answers differently: %s" % (what, d))
        if not case["faults"]:
            retrain(rep, case, c, ref, Q, what)
    d = zoo.diff(ref, observed(m, spec, Q), **EXACT)
    if d:
        rep.violation("disturbed", "%s: the live model answers differently afterwards: %s" % (what, d))


def smoother(case, rep):
    s = case["sm"]
    sm, X, y, Q = cm.setup(sz.build, s)
    o, _ = c15.fit_outcome(sm, X, y)
    if o.kind != "ok":
        raise cm.Skip(o.describe())
    Q = sz.query(s, case["other"], 25)
    want = c15.answers(sm, Q)
    stat = {}
    o = core.solo(lambda: take(sm, case["snap"], stat), "save")
    note(case, rep, stat, o)
    rep.resolved = dict(case)
    c = judge_save(case, rep, o, stat, s["name"])
    d = zoo.diff(want, c15.answers(sm, Q), **EXACT)
    if d:
        rep.violation("disturbed", "%s: the smoother answers differently after the save: %s" % (s["name"], d))
    if c is None:
        c = zoo.safe(take, sm, {"how": case["snap"]["how"]}, {})
        if isinstance(c, dict):
            rep.violation("retry", "%s: repeating the save raises %s" % (s["name"], c["raises"]))
            return
    d = zoo.diff(want, c15.answers(c, Q), **EXACT)
    if d:
        rep.violation("copy", "%s: the copy answers differently: %s" % (s["name"], d))
    c2 = zoo.safe(take, c, {"how": 5}, {})
    d = zoo.diff(want, c2 if isinstance(c2, dict) else c15.answers(c2, Q), **EXACT)
    if d:
        rep.violation("copy", "%s: the copy of the copy answers differently: %s" % (s["name"], d))
    other = dict(s, ds=s["ds"] + 1 + case["other"] % 1000)
    A, b = sz.data(other)
    fresh = sz.make(s)
    r, _ = c15.fit_outcome(fresh, A, b)
    g, _ = c15.fit_outcome(c, A, b)
    if (r.kind, type(r.exc)) != (g.kind, type(g.exc)):
        rep.violation("retrain", "%s: refitting the copy %s, a fresh one %s" % (s["name"], g.describe(), r.describe()))
    elif r.kind == "ok":
        d = zoo.diff(c15.answers(fresh, Q), c15.answers(c, Q))
        if d:
            rep.violation("retrain", "%s: the copy refits differently from a fresh one: %s" % (s["name"], d))
    d = zoo.diff(want, c15.answers(sm, Q), **EXACT)
    if d:
        rep.violation("shared", "%s: refitting the copy changes the original: %s" % (s["name"], d))


def prepare(op):
    """(fitted object, function giving its answers, function retraining it)"""
    if "sm" in op:
        s = op["sm"]
        sm, X, y, _ = sz.build(s)
        Q = sz.query(s, s["ds"] + 5, 25)
        return sm, lambda o: c15.quiet(lambda: o.fit(X.copy(), y.copy())), lambda o: c15.answers(o, Q)
    spec = op["spec"]
    Q = zoo.any_query(spec, 23, 11)
    return zoo.any_model(spec), lambda o: o.fit(*zoo.any_data(spec)), lambda o: zoo.outputs(o, spec, zoo.clone_data(Q))


def process(case, rep):
    """Models saved here answer the same in a fresh process, before and after being trained again there."""
    here, blobs, ops = [], [], []
    for op in case["ops"]:
        try:
            m, fit, ask = prepare(op)
            fit(m)
        except Exception:  # noqa
            continue
        ops.append(op)
        blobs.append(base64.b64encode(pickle.dumps(m, case["proto"])).decode())
        here.append(ask(m))
    env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]))
    p = subprocess.run([sys.executable, "-m", "dst.props.c09_child"], input=json.dumps({"ops": ops, "blobs": blobs}),
                       capture_output=True, text=True, env=env, timeout=400,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    if p.returncode != 0:
        raise RuntimeError("child process failed: " + p.stderr[-1500:])
    there = pickle.loads(base64.b64decode(p.stdout.strip().splitlines()[-1]))
    rep.fault("restart", len(ops))
    rep.probe("copies_in_fresh_processes", len(ops))
    rep.parts.append("process/%d/%d/%s" % (case["hash"], case["proto"], len(ops)))
    rep.resolved = dict(case)
    for op, a, (restored, again) in zip(ops, here, there):
        label = op["sm"]["name"] if "sm" in op else op["spec"]["kind"]
        d = zoo.diff(a, restored, **EXACT)
        if d:
            rep.violation("restart", "%s restored in a fresh process answers differently: %s" % (label, d))
        d = zoo.diff(a, again)
        if d:
            rep.violation("retrain", "%s restored in a fresh process retrains differently: %s" % (label, d))


def simplify(case):
    out = []
    if case["mode"] == "process":
        if len(case["ops"]) > 1:
            out += [dict(case, ops=[op]) for op in case["ops"]]
        return out
    if case["snap"].get("exc"):
        out.append(dict(case, snap={"how": case["snap"]["how"]}))
    if case.get("obs"):
        out.append(dict(case, obs=None))
    if case["mode"] == "overlap":
        if case["two"]:
            out.append(dict(case, two=False))
        for i in range(len(case["reqs"])):
            out.append(dict(case, reqs=case["reqs"][:i] + case["reqs"][i + 1:]))
    if "spec" in case:
        out += cm.simplify_spec(case)
    return out
