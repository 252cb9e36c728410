"""Regenerates /verif/MANIFEST.json from the scenario modules present: python -m dst.manifest"""
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = {
    "C01": "seeded search over schedules of real client threads and aborts of requests; oracle: the same request alone",
    "C02": "seeded search over schedules of real training threads sharing configuration objects; oracle: training alone",
    "C03": "seeded search over abort points and failing callbacks/solvers; oracle: fresh object",
    "C04": "seeded search over histories of trainings, requests, copies; oracle: fresh object",
    "C05": "input digests evaluated at simulated steps under aborts; oracle: digest before the call",
    "C06": "seeded search over aborts and overlaps; oracle: snapshot of process-wide state before the calls",
    "C07": "recorded notification history checked against a reference model of the training loop; failing observers",
    "C08": "failing streams/files at drawn writes; oracle: undisturbed document and resource census",
    "C09": "saves scheduled between the steps of requests/trainings, failing targets; oracle: undisturbed model",
    "C10": "aborts at drawn lines of a (re)fit; oracle: set of complete fits",
    "C11": "adversarial learning rates/costs per iteration; oracle: executable model of the stop rules",
    "C12": "seeded histories of batchings, orders, containers and failing requests; oracle: row-by-row answers",
    "C13": "aborts at drawn lines and retries; oracle: exactly-once column with the reference predictions",
    "C14": "adversarial learning rates driving divergence; oracle: training's last prediction vs serving vs contributions",
    "C15": "failing solvers, refit histories and overlapping predictions; oracle: fresh smoother",
    "C16": "seeded interference with RNGs, gc, hash seeds and process history; oracle: bit-identical reference",
    "C17": "interrupts at drawn lines of every kind of call, failing callbacks; oracle: the very same exception",
}
NA = {
    "C18": "Binning guarantees are a pure function of one input column; there is no schedule, fault, time or history for a "
           "simulated run to vary (aborted and repeated fits are covered by C10).",
    "C19": "Link functions are pure element-wise functions; nothing for a scheduler or fault injector to decide.",
    "C20": "Quantile-parameterised distributions are pure functions of a quantile triplet; no concurrency, I/O, time or history.",
    "C21": "Weight/repetition equivalence compares two deterministic single-call trainings; the verdict depends on data only.",
    "C22": "Monotonicity of learned factors is a pure function of one training's data; no schedule or fault enters.",
}


def main():
    checks, na = [], [{"property": k, "reason": v} for k, v in sorted(NA.items())]
    for p in sorted(NOTE):
        if os.path.exists(os.path.join(ROOT, "dst", "props", p.lower() + ".py")):
            checks.append({
                "property": p,
                "quick_cmd": "VERIF_TIER=quick ./run check %s" % p,
                "thorough_cmd": "VERIF_TIER=thorough ./run check %s" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": "deterministic simulation with fault injection",
                "level": "exploration",
                "level_note": NOTE[p],
            })
        else:
            na.append({"property": p, "reason": "check still under construction"})
    m = {
        "version": 1,
        "setup_cmd": "bash /opt/vp/build.sh && ./run selftest",
        "checks": checks,
        "hooks": {"guard": "none", "enable": "none: the simulator uses sys.monitoring events, module attributes and "
                  "user callbacks; /repo contains no hook", "source_commits": []},
        "not_applicable": na,
        "notes": "One engine (/verif/dst): real package code, simulated scheduling, faults, callbacks, solvers and streams. "
                 "VERIF_SEED selects the seed, VERIF_TIER the number of runs. Replay: cd /verif && ./run replay FILE.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
