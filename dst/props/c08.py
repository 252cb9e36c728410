"""C08: a report is either complete or an error; failed writes leave nothing behind."""
import builtins
import errno
import gc
import io
import os
import re
import shutil
import tempfile

import matplotlib
import matplotlib.pyplot as plt

from cyclic_boosting import observers, plots

from .. import core, fakes, zoo
from . import common as cm

RUNS = {"quick": 340, "thorough": 12000}
MIN = 100
RULE = ("seeded: model x target (stream or file) x fault (write k fails once or for good with a drawn error, device full "
        "after k bytes, short writes, abort at a drawn line of the plotting code, unfilled observer); distinct = different "
        "fault kind and site; non-trivial = the fault fired")
REAL = cm.REAL + ["matplotlib's PDF writer"]
STUB = ["the stream/disk the report is written to"]
ASSUME = cm.ASSUME + ["SOURCE_DATE_EPOCH is set, so documents carry no wall-clock time"]

_real_open = builtins.open


class Disk:
    """Files below one scratch directory are opened through a raw device that fails on demand."""

    def __init__(self, root, plan):
        self.root, self.plan = root, plan
        self.writes = self.bytes = self.fired = 0

    def raw(self, path, mode):
        disk = self

        class Raw(io.FileIO):
            def write(self, b):
                return disk.write(super().write, b)

        return Raw(path, mode)

    def write(self, real, b):
        p = self.plan
        self.writes += 1
        if p["kind"] == "write" and (self.writes == p["at"] or (self.writes > p["at"] and p["sticky"])):
            self.fired += 1
            raise OSError(errno.EIO, "simulated device error at write %d" % self.writes)
        if p["kind"] == "full" and self.bytes + len(b) > p["cap"]:
            room = p["cap"] - self.bytes
            self.fired += 1
            if room > 0:
                n = real(bytes(b)[:room])
                self.bytes += n
                return n
            raise OSError(errno.ENOSPC, "simulated full device")
        if p["kind"] == "short" and len(b) > 1 and self.writes % 2:
            self.fired += 1
            n = real(bytes(b)[:max(1, len(b) // 3)])
            self.bytes += n
            return n
        n = real(b)
        self.bytes += n
        return n

    def open(self, file, mode="r", buffering=-1, *a, **kw):
        try:
            path = os.path.abspath(os.fspath(file))
        except TypeError:
            return _real_open(file, mode, buffering, *a, **kw)
        if path.startswith(self.root + os.sep) and "b" in mode and ("w" in mode or "x" in mode):
            raw = self.raw(path, mode.replace("b", ""))
            return raw if buffering == 0 else io.BufferedWriter(raw)
        return _real_open(file, mode, buffering, *a, **kw)

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = _real_open


def generate(rng, tier):
    spec = zoo.gen_spec(rng, kinds=["poisson", "location", "classifier", "nbinom", "nbinomc", "locpoisson", "gbs",
                                    "exponential"], n=(24, 40), iters=(1, 3), forms=("pipe", "direct"))
    while len(spec["groups"]) > 2:
        spec["groups"].pop(rng.randrange(len(spec["groups"])))
    # flags the plotting code refuses, with an error
    spec["props"] = {k: "CM" if v in ("MI", "MD") else v[0] if v.endswith("G") else v for k, v in spec["props"].items()}
    if spec.get("ext"):
        spec["ext"] = [spec["groups"][0]]
    case = {"spec": spec, "binners": rng.random() < 0.3, "yp": rng.random() < 0.7, "tight": rng.random() < 0.4,
            "target": rng.choice(["stream", "stream", "file", "file", "path"]), "u": round(rng.random(), 5),
            "obs": rng.choice([-1, -1, -1, 1 if spec["iters"] > 2 else -1]), "ext": rng.random() < 0.5, "faults": []}
    k = rng.random()
    if k < 0.72:
        case["kind"] = rng.choice(["write", "write", "full", "short"])
        case["sticky"] = rng.random() < 0.6
        case["exc"] = rng.choice(["OSError", "OSError", "RuntimeError", "KeyboardInterrupt", "MemoryError", "ValueError"])
    elif k < 0.93:
        case["kind"] = "abort"
        case["faults"] = [{"op": "plot", "pick": core.gen_pick(rng),
                           "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "SystemExit"])}]
    else:
        case["kind"] = "unfilled"
    return case


def pages(doc):
    return len(re.findall(rb"/Type /Page\b(?!s)", doc))


def handles(root):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith(root):
            out.append(t)
    return out


class OnceStream(fakes.Stream):
    def __init__(self, sticky=True, short=False, **kw):
        super().__init__(**kw)
        self.sticky = sticky
        self.raised = []

    def write(self, b):
        if not self.sticky and self.fired:
            self.fail_at = self.capacity = None
        try:
            return super().write(b)
        except BaseException as e:
            self.raised.append(e)
            raise


def execute(case, rep):
    root = os.path.realpath(tempfile.mkdtemp(prefix="vf08"))
    try:
        _execute(case, rep, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _execute(case, rep, root):
    spec = case["spec"]
    o = observers.PlottingObserver(iteration=case["obs"])
    m = zoo.make_model(spec, observers_=[o])
    X, y = zoo.data(spec)
    q = zoo.query(spec, 3, 6)
    if case["kind"] != "unfilled":
        cm.setup(m.fit, X, y)
        if not cm.is_filled(o):
            raise cm.Skip("observer of an iteration that was not reached")
    binners = [m[0]] if case["binners"] and hasattr(m, "steps") else None

    def plot(target, obs=o):
        plots.plot_analysis(obs, target, binners=binners, figsize=(4, 3), use_tightlayout=case["tight"],
                            plot_yp=case["yp"])

    def path(name):
        p = os.path.join(root, name + (".pdf" if case["ext"] else ""))
        if case["target"] == "path":
            import pathlib

            return pathlib.Path(os.path.join(root, name + ".pdf"))
        return p

    def read(name):
        p = os.path.join(root, name + ".pdf")
        if not os.path.exists(p):
            return None
        with _real_open(p, "rb") as f:
            return f.read()

    ref, prof = b"", []
    plt.close("all")
    state = None
    if case["kind"] != "unfilled":
        s = fakes.Stream()
        r, prof = core.profile(lambda: plot(s), "plot")
        if r.kind != "ok":
            raise cm.Skip("undisturbed report fails: " + r.describe())
        ref, nwrites = bytes(s.buf), s.writes
        want = len(o.features) + (1 if spec["kind"] == "nbinomc" else 2)
        if pages(ref) != want:
            rep.violation("incomplete", "%s: undisturbed report has %d pages, %d features" % (
                spec["kind"], pages(ref), len(o.features)))
            return
        if plt.get_fignums():
            rep.violation("figures", "%s: figures %s still open after a successful report" % (spec["kind"], plt.get_fignums()))
            return
        state = (zoo.outputs(m, spec, q), cm.recording(o))
    rc = {k: repr(v) for k, v in matplotlib.rcParams.items()}
    table, resolved = cm.resolve_faults(case["faults"], {"plot": prof})
    stream, disk = None, None
    if case["target"] == "stream" or case["kind"] == "unfilled" and case["target"] != "file":
        kw = {}
        if case["kind"] == "write":
            kw = dict(fail_at=1 + int(case["u"] * nwrites), exc=case["exc"])
        elif case["kind"] == "full":
            kw = dict(capacity=int(case["u"] * len(ref)), exc=case["exc"])
        stream = OnceStream(sticky=case.get("sticky", True), **kw)
        call = lambda: plot(stream)  # noqa
        out = core.solo(call, "plot", faults=table.get("plot"), limit=20000000)
        fired, doc = stream.fired, bytes(stream.buf)
    else:
        plan = {"kind": case["kind"], "sticky": case.get("sticky", True), "at": 1 + int(case["u"] * (len(ref) // 8192 + 1)),
                "cap": int(case["u"] * len(ref))}
        with Disk(root, plan) as disk:
            out = core.solo(lambda: plot(path("report")), "plot", faults=table.get("plot"), limit=20000000)
        fired, doc = disk.fired, read("report")
    open_now = handles(root)
    rep.outcome(out)
    rep.resolved = dict(case, faults=resolved)
    rep.probe("target_" + case["target"])
    if fired and case["kind"] in ("write", "full", "short"):
        rep.fault("%s-%s%s" % (case["target"], case["kind"], "-" + case["exc"] if stream is not None else ""), fired)
        rep.parts.append("%s/%s/%s/%s" % (case["target"], case["kind"], case.get("sticky"), int(case["u"] * 200)))
    where = "%s, %s/%s" % (spec["kind"], case["target"], case["kind"])
    failed = out.kind == "exc"
    if case["kind"] == "unfilled":
        rep.parts.append("unfilled/%s/%s" % (spec["kind"], case["target"]))
        if not failed:
            rep.violation("unfilled", "%s: report of an unfilled observer succeeded" % where)
            return
    elif failed:
        injected = isinstance(out.exc, core.Injected) or (
            isinstance(out.exc, OSError) and out.exc.errno in (errno.EIO, errno.ENOSPC) and fired)
        if not injected:
            rep.violation("other-error", "%s: failing write surfaced as %s" % (where, out.describe()))
            return
        if stream is not None and stream.raised and not out.fired and type(out.exc) is not type(stream.raised[0]):
            rep.violation("other-error", "%s: failing write surfaced as %s" % (where, out.describe()))
            return
    else:
        if doc != ref:
            rep.violation("silent", "%s: call succeeded although %d writes failed; the document has %s of %d bytes, %d of %d "
                          "pages" % (where, fired, None if doc is None else len(doc), len(ref), pages(doc or b""), pages(ref)))
            return
    if out.exc is not None:
        out.exc.__context__ = out.exc.__cause__ = None
    if plt.get_fignums():
        rep.violation("figures", "%s: figures %s left open (%s)" % (where, plt.get_fignums(), out.describe()))
        return
    if open_now:
        gc.collect()
        still = handles(root)
        rep.violation("handles", "%s: %s left open, after gc %s (%s)" % (
            where, [os.path.basename(h) for h in open_now], [os.path.basename(h) for h in still], out.describe()))
        return
    d = zoo.diff(rc, {k: repr(v) for k, v in matplotlib.rcParams.items()})
    if d:
        rep.violation("rcparams", "%s: matplotlib settings changed: %s" % (where, d))
        return
    if state is None:
        return
    d = zoo.diff(list(state), [zoo.outputs(m, spec, q), cm.recording(o)])
    if d:
        rep.violation("model-changed", "%s: model or recorded data changed: %s" % (where, d))
        return
    # retry on a healthy target
    if case["target"] == "stream":
        s = fakes.Stream()
        r = core.solo(lambda: plot(s), "retry")
        doc = bytes(s.buf)
    else:
        r = core.solo(lambda: plot(path("report")), "retry")
        doc = read("report")
    if r.kind != "ok":
        rep.violation("retry", "%s: retry fails: %s" % (where, r.describe()))
    elif doc != ref:
        rep.violation("retry", "%s: retry gives another document (%d bytes, %d pages instead of %d, %d)" % (
            where, len(doc), pages(doc), len(ref), pages(ref)))
    elif plt.get_fignums() or handles(root):
        rep.violation("figures", "%s: resources left open by the retry" % where)


def simplify(case):
    out = cm.simplify_spec(case)
    for k in ("binners", "tight"):
        if case[k]:
            out.append(dict(case, **{k: False}))
    return out
