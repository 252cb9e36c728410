"""Controllable stand-ins for what the library calls: learning rates, cost functions, observers, streams."""
import io

import numpy as np

from . import core, zoo


def boom(kind, tag):
    return core.make_exc(kind, tag)


class Rates:
    """Learning rates drawn per iteration."""

    def __init__(self, values):
        self.values = values

    def __call__(self, iteration, maximal_iteration, feature=None):
        return self.values[(iteration - 1) % len(self.values)]


class CtlLR:
    """Learning-rate callback with an adversary's switch; `plan` is plain JSON."""

    def __init__(self, base=None):
        self.base = base
        self.plan = None
        self.n = 0

    def arm(self, plan):
        self.plan, self.n = plan, 0

    def __call__(self, iteration, maximal_iteration, feature=None):
        self.n += 1
        p = self.plan
        if p is not None:
            if p["mode"] == "raise" and self.n == p["at"]:
                raise boom(p["exc"], "learn rate call %d" % self.n)
            if p["mode"] == "const":
                return p["value"]
            if p.get("values"):
                return p["values"][(iteration - 1) % len(p["values"])]
            if p["mode"] == "hook" and self.n == p["at"]:
                p["fn"]()
        return zoo.LR[self.base or "one"](iteration, maximal_iteration, feature)

    def __getstate__(self):
        return {"base": self.base, "plan": None, "n": 0}

    def __eq__(self, o):
        return type(o) is CtlLR and o.base == self.base

    def __hash__(self):
        return hash(("CtlLR", self.base))


class Recorder:
    """Observer noting what it is told; optionally raises at its n-th notification."""

    def __init__(self, name="r", raise_at=None, exc="RuntimeError", hook=None):
        self.name, self.raise_at, self.exc, self.hook = name, raise_at, exc, hook
        self.log = []
        self.n = 0
        self.raised = None

    def _tick(self):
        self.n += 1
        if self.raise_at is not None and self.n == self.raise_at:
            self.raised = boom(self.exc, "observer %s notification %d" % (self.name, self.n))
            raise self.raised
        if self.hook is not None:
            self.hook(self)

    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
        est = estimator_state["link_function"]
        self.log.append({
            "what": "it", "iteration": iteration, "est_iteration": est.iteration_,
            "prediction": np.array(prediction, dtype=float), "loss": estimator_state["insample_loss"],
            "delta": delta, "factors": [None if getattr(f, "fitted_aggregated", None) is None else np.array(f.fitted_aggregated)
                                        for f in estimator_state["features"]],
            "weights": np.array(weights), "y": np.array(y), "n_features": len(estimator_state["features"]),
        })
        self._tick()

    def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
        self.log.append({"what": "fe", "iteration": iteration, "feature": feature_i,
                         "est_iteration": estimator_state["link_function"].iteration_,
                         "prediction": np.array(prediction, dtype=float)})
        self._tick()

    def __getstate__(self):
        return {"name": self.name, "raise_at": None, "exc": self.exc, "hook": None, "log": [], "n": 0, "raised": None}


class Stream(io.RawIOBase):
    """In-memory binary sink.  Fails at the k-th write or when it is full; every write is a scheduling point."""

    def __init__(self, fail_at=None, capacity=None, exc="OSError", short=False):
        super().__init__()
        self.buf = bytearray()
        self.pos = 0
        self.writes = 0
        self.fail_at, self.capacity, self.exc = fail_at, capacity, exc
        self.fired = 0
        self.closed_by_callee = False

    def writable(self):
        return True

    def seekable(self):
        return True

    def readable(self):
        return False

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = {0: pos, 1: self.pos + pos, 2: len(self.buf) + pos}[whence]
        return self.pos

    def flush(self):
        pass

    def write(self, b):
        data = bytes(b)
        self.writes += 1
        core.io_point("write")
        if (self.fail_at is not None and self.writes >= self.fail_at) or (
                self.capacity is not None and self.pos + len(data) > self.capacity):
            self.fired += 1
            raise core.make_exc(self.exc, "write %d failed" % self.writes)
        end = self.pos + len(data)
        if len(self.buf) < end:
            self.buf.extend(b"\0" * (end - len(self.buf)))
        self.buf[self.pos:end] = data
        self.pos = end
        return len(data)
