"""Process set-up shared by checks, replays and demonstrations of determinism."""
import importlib
import logging
import os
import pkgutil
import sys
import warnings

ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "NUMEXPR_MAX_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "NUMBA_THREADING_LAYER": "workqueue",
    "SOURCE_DATE_EPOCH": "1700000000",
}


def boot():
    """Import the package from the working tree under the lock seam and instrument it."""
    from . import core

    core.install_lock_seam()
    core.install_clock_seam()
    sys.path.insert(0, core.REPO)
    import cyclic_boosting

    got = os.path.realpath(cyclic_boosting.__file__)
    want = os.path.realpath(core.REPO)
    if not got.startswith(want + os.sep):
        raise RuntimeError("cyclic_boosting imported from %s, expected %s" % (got, want))
    for m in pkgutil.walk_packages(cyclic_boosting.__path__, "cyclic_boosting."):
        importlib.import_module(m.name)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    n = core.setup_monitoring()
    if n < 50:
        raise RuntimeError("only %d functions of the package found" % n)
    return n


def warm(kinds=None):
    """Trigger numba compilation once, before workers are forked."""
    import random

    from . import zoo

    rng = random.Random(7)
    kinds = list(kinds or zoo.ALL + ["binner", "ecdf", "qpdS", "qpdB"])
    for k in kinds:
        if k in zoo.OTHER:
            s = zoo.gen_other(rng, k)
            if k in ("binner", "ecdf"):
                s.update(cols=["a", "b", "c"], props={"a": "U", "b": "OG", "c": "C"}, weight=False, noprops=False,
                         container="df", nbins_dict=False)
            m = zoo.make_other(s)
            X, y = zoo.any_data(s)
            zoo.safe(m.fit, X, y)
            zoo.outputs(m, s, zoo.any_query(s, 5, 6))
            continue
        for form in ("pipe", "direct", "numpy"):
            if form == "numpy" and k == "nbinomc":
                continue
            s = zoo.gen_spec(rng, kinds=[k], rich=False)
            s.update(form=form, smooth=None, lr=None, n=30, iters=2, props={"a": "U", "b": "O", "c": "C", "d": "S"},
                     groups=[["a"], ["b"], ["c"], ["d"], ["a", "c"], ["a", "b", "c"]],
                     cols=["a", "b", "c", "d", "w", "pr"], weight=True, prior=True)
            if k in zoo.SLOW:
                s.update(groups=[["a"], ["a", "c"]])
            if k == "gbs":
                s.pop("prior")
            if k == "exponential":
                s["cols"].append("p")
                s["ext"] = [["a"]]
            if k == "nbinomc":
                s["cols"].append("mu")
            m = zoo.make_model(s)
            X, y = zoo.data(s)
            if zoo.safe(zoo.fit, m, X, y) is m:
                zoo.safe(zoo.outputs, m, s, zoo.query(s, 5, 6))
    from cyclic_boosting import utils
    import numpy as np

    utils.multidim_binnos_to_lexicographic_binnos(np.asarray([[0.0, 1.0], [1.0, 0.0]]))
