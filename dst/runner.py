"""Runs a property's simulated executions in forked workers, minimises failures, writes evidence."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from . import boot as _boot

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def run_seed(seed, prop, index):
    h = hashlib.sha256(("%s|%s|%s" % (seed, prop, index)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Skip(Exception):
    """The drawn scenario cannot be set up (e.g. its fault-free training legitimately fails)."""


class Rep:
    """Collects what one simulated run did."""

    def __init__(self):
        self.v = None
        self.steps = 0
        self.switches = 0
        self.faults = {}
        self.probes = {}
        self.locs = set()
        self.parts = []
        self.resolved = None
        self.hash = hashlib.sha256()
        self.note_ = []

    def violation(self, cls, msg):
        if self.v is None:
            self.v = {"cls": cls, "msg": str(msg)[:600]}

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def mix(self, *a):
        self.hash.update(repr(a).encode())

    def sim(self, s):
        """Account for a finished Sim."""
        self.steps += s.steps
        self.switches += len([t for t in s.trace if t[0] not in ("start", "end")])
        self.locs.update(s.switch_locs)
        self.parts.append("s%08x" % (s.hash & 0xFFFFFFFF))
        for o in s.outcomes.values():
            self.outcome(o, steps=False)

    def outcome(self, o, steps=True):
        if steps:
            self.steps += o.steps
        for st, kind, loc in o.fired:
            self.fault(kind)
            self.locs.add("!" + loc)
            self.parts.append("%s@%s#%d" % (kind, loc, st))
        self.mix(o.op, o.kind, o.describe() if o.kind == "exc" else "", o.steps)

    def result(self):
        parts = "|".join(self.parts)
        return {
            "v": self.v, "steps": self.steps, "switches": self.switches, "faults": self.faults,
            "probes": self.probes, "locs": [hash_s(x) for x in sorted(self.locs)],
            "parts": hash_s(parts) if self.parts else None, "digest": self.hash.hexdigest()[:16] + hash_s(parts),
            "case": self.resolved, "notes": self.note_[:40],
        }


def hash_s(s):
    return hashlib.md5(s.encode()).hexdigest()[:12]


def _child(mod, case, wfd):
    rep = Rep()
    try:
        mod.execute(case, rep)
        res = rep.result()
    except Skip as e:
        res = {"skip": str(e)[:200]} if rep.v is None else rep.result()
    except BaseException:  # noqa
        res = {"error": traceback.format_exc()[-3000:]}
        if rep.v is not None:
            res = rep.result()
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


class Pool:
    """At most `width` forked children, one simulated run each."""

    def __init__(self, mod, width=WORKERS, limit=180.0):
        self.mod, self.width, self.limit = mod, width, limit
        self.live = {}

    def start(self, key, case):
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for o in self.live.values():
                os.close(o["fd"])
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            _child(self.mod, case, w)
        os.close(w)
        self.live[pid] = {"fd": r, "key": key, "case": case, "t": time.time(), "buf": b""}

    def poll(self):
        """Finished (key, case, result) triples; blocks briefly."""
        done = []
        fds = {o["fd"]: pid for pid, o in self.live.items()}
        ready, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in ready:
            pid = fds[fd]
            o = self.live[pid]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                o["buf"] += chunk
                continue
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            del self.live[pid]
            if o["buf"]:
                try:
                    res = pickle.loads(o["buf"])
                except Exception:
                    res = {"error": "truncated result (status %d)" % status}
            else:
                res = {"error": "worker died, status %d" % status}
            done.append((o["key"], o["case"], res))
        now = time.time()
        for pid, o in list(self.live.items()):
            if now - o["t"] > self.limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(o["fd"])
                del self.live[pid]
                done.append((o["key"], o["case"], {"hang": True}))
        return done

    def one(self, case):
        self.start("one", case)
        while True:
            for _, _, res in self.poll():
                return res

    def many(self, cases):
        """Run a batch, results in order."""
        out = [None] * len(cases)
        todo = list(enumerate(cases))
        while todo or self.live:
            while todo and len(self.live) < self.width:
                i, c = todo.pop(0)
                self.start(i, c)
            for k, _, res in self.poll():
                out[k] = res
        return out


# --------------------------------------------------------------------------------------- minimise


def _same(res, cls):
    return bool(res and res.get("v") and res["v"]["cls"] == cls)


def minimise(mod, pool, case, cls, budget=75.0):
    """Greedy parallel reduction of ops, faults, switches and property specific simplifications."""
    t0 = time.time()
    best = case
    tried = 0

    def attempt(cands):
        nonlocal best, tried
        for i in range(0, len(cands), pool.width):
            if time.time() - t0 > budget:
                return False
            batch = cands[i:i + pool.width]
            tried += len(batch)
            for c, r in zip(batch, pool.many(batch)):
                if _same(r, cls):
                    best = c
                    return True
        return False

    def drop_faults(c):
        fs = c.get("faults") or []
        return [dict(c, faults=fs[:i] + fs[i + 1:]) for i in range(len(fs))]

    def drop_ops(c):
        out = []
        if isinstance(c.get("tasks"), list):
            for i, t in enumerate(c["tasks"]):
                for j in range(len(t)):
                    if len(t) > 1 or sum(1 for x in c["tasks"] if x) > 1:
                        tasks = [list(x) for x in c["tasks"]]
                        del tasks[i][j]
                        out.append(dict(c, tasks=tasks))
        if isinstance(c.get("ops"), list):
            for i in range(len(c["ops"])):
                out.append(dict(c, ops=c["ops"][:i] + c["ops"][i + 1:]))
        return out

    def drop_switches(c):
        s = c.get("sched")
        if not s or s.get("kind") != "trace":
            return []
        sw = s["switches"]
        out = []
        n = len(sw)
        size = n // 2
        while size >= 1 and len(out) < 64:
            for i in range(0, n, size):
                out.append(dict(c, sched=dict(s, switches=sw[:i] + sw[i + size:])))
            size //= 2
        return out

    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for gen in (drop_faults, drop_ops, drop_switches, getattr(mod, "simplify", lambda c: [])):
            while time.time() - t0 < budget and attempt(gen(best)):
                progress = True
    return best, tried


# ------------------------------------------------------------------------------------------- main


def load_known():
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def known_match(known, prop, v):
    for k in known:
        if k.get("property") == prop and k.get("class") == v["cls"] and k.get("match", "\0") in v["msg"]:
            return k
    return None


def generate(mod, prop, seed, index, tier):
    rng = random.Random(run_seed(seed, prop, index))
    case = mod.generate(rng, tier)
    case["_run"] = {"prop": prop, "seed": seed, "index": index}
    return case


def main(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import importlib

    nfun = _boot.boot()
    mod = importlib.import_module("dst.props.%s" % prop.lower())
    if hasattr(mod, "warm"):
        mod.warm()
    else:
        _boot.warm(getattr(mod, "WARM", None))
    t_boot = time.time() - t0
    runs = int(os.environ.get("VERIF_RUNS", mod.RUNS[tier]))
    wall = float(os.environ.get("VERIF_WALL", {"quick": 420, "thorough": 7200}[tier]))
    pool = Pool(mod, limit=getattr(mod, "LIMIT", 150.0))
    known = load_known()

    stats = {"evaluations": 0, "steps": 0, "switches": 0, "faults": {}, "probes": {}, "errors": 0, "hangs": 0}
    parts, locs, samples = set(), set(), []
    nontrivial_runs, skips = 0, {}
    errors, viols, known_hits, digests = [], [], {}, {}
    nxt = 0
    tt = time.time()
    stop = False
    while (nxt < runs and not stop) or pool.live:
        while nxt < runs and not stop and len(pool.live) < pool.width:
            if time.time() - t0 > wall:
                stop = True
                break
            pool.start(nxt, generate(mod, prop, seed, nxt, tier))
            nxt += 1
        if not pool.live:
            break
        for key, case, res in pool.poll():
            if res.get("error"):
                stats["errors"] += 1
                errors.append((key, res["error"]))
                if len(errors) > 20:
                    stop = True
                continue
            if res.get("skip"):
                skips[res["skip"][:60]] = skips.get(res["skip"][:60], 0) + 1
                continue
            if res.get("hang"):
                stats["hangs"] += 1
                errors.append((key, "run exceeded wall limit"))
                if stats["hangs"] > 3:
                    stop = True
                continue
            stats["evaluations"] += 1
            stats["steps"] += res["steps"]
            stats["switches"] += res["switches"]
            for d in ("faults", "probes"):
                for k, n in res[d].items():
                    stats[d][k] = stats[d].get(k, 0) + n
            locs.update(res["locs"])
            if res["parts"] is not None:
                nontrivial_runs += 1
                parts.add(res["parts"])
            digests[key] = res["digest"]
            if len(samples) < 3 and res["parts"] is not None:
                samples.append({"index": key, "case": trim(res["case"] or case), "notes": res.get("notes")})
            if res["v"] is not None:
                k = known_match(known, prop, res["v"])
                if k is not None:
                    known_hits.setdefault(k["id"], (k, res["v"]))
                    continue
                viols.append((key, case, res))
                if len(viols) >= 4:
                    stop = True
    t_runs = time.time() - tt

    # determinism: re-execute some runs and compare digests
    redo = [i for i in sorted(digests) if i % max(1, len(digests) // 6) == 0][:8]
    same = 0
    if redo and not viols:
        again = pool.many([generate(mod, prop, seed, i, tier) for i in redo])
        for i, r in zip(redo, again):
            same += int(bool(r) and r.get("digest") == digests[i])

    code, lines, replay_info = 0, [], None
    if viols:
        viols.sort(key=lambda x: x[0])
        key, case, res = viols[0]
        cls = res["v"]["cls"]
        resolved = res.get("case") or case
        check = pool.one(resolved)
        start = resolved if _same(check, cls) else case
        best, tried = minimise(mod, pool, start, cls)
        final = pool.one(best)
        v = final["v"] if _same(final, cls) else res["v"]
        rdir = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-seed%d-run%d.json" % (prop, seed, key))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "index": key, "class": cls, "message": v["msg"],
                       "minimised": _same(final, cls), "candidates_tried": tried, "case": best,
                       "original_case": case, "notes": (final or {}).get("notes")}, f, indent=1, default=str)
        ok = subprocess.run([sys.executable, "-m", "dst.replay", path], cwd=ROOT, capture_output=True, text=True,
                            env=dict(os.environ, VERIF_NESTED="1"))
        replay_info = {"path": path, "class": cls, "message": v["msg"], "fresh_process_reproduced": ok.returncode == 1}
        lines.append("seed=%d run=%d class=%s: %s" % (seed, key, cls, v["msg"]))
        lines.append("minimised after %d candidate executions; fresh-process replay reproduced: %s" % (
            tried, ok.returncode == 1))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif errors:
        for k, e in errors[:3]:
            lines.append("run %s: %s" % (k, e))
        lines.append("check error: %d of %d simulated runs did not complete" % (len(errors), nxt))
        code = 2
    elif sum(skips.values()) > 0.5 * nxt:
        lines.append("check error: %d of %d scenarios could not be set up: %s" % (sum(skips.values()), nxt, skips))
        code = 2
    elif stats["evaluations"] < max(1, min(runs, getattr(mod, "MIN", runs // 5))):
        lines.append("check error: only %d of %d runs fitted in the time budget" % (stats["evaluations"], runs))
        code = 2
    for kid, (k, v) in sorted(known_hits.items()):
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    wall_s = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": len(parts),
            "rule": mod.RULE,
            "samples": samples,
            "planned_runs": runs,
            "skipped_setups": skips,
            "nontrivial_runs": nontrivial_runs,
            "runs_per_hour": int(stats["evaluations"] / max(t_runs, 1e-9) * 3600),
            "run_seeds": "sha256(VERIF_SEED|property|index), index 0..%d" % (nxt - 1),
            "simulated_time_steps": stats["steps"],
            "context_switches": stats["switches"],
            "faults_injected": stats["faults"],
            "probes": stats["probes"],
            "distinct_switch_or_fault_locations": len(locs),
            "determinism_reruns": len(redo) if not viols else 0,
            "determinism_identical": same,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "instrumented_functions": nfun,
            "boot_s": round(t_boot, 2),
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall_s, 2),
        "violations": len(viols),
    }
    if replay_info:
        ev["coverage"]["violation"] = replay_info
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ROOT, "evidence", "%s.json" % prop))
    print("%s tier=%s seed=%d: %d runs (%d distinct non-trivial), %d steps, %d switches, faults %s, probes %s, %.1f s" % (
        prop, tier, seed, stats["evaluations"], len(parts), stats["steps"], stats["switches"], stats["faults"],
        stats["probes"], wall_s))
    if redo and not viols and same != len(redo):
        print("note: %d of %d re-executed runs differed in their digest" % (len(redo) - same, len(redo)))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return code


def trim(case):
    s = json.dumps(case, default=str)
    if len(s) < 6000:
        return json.loads(s)
    c = json.loads(s)
    if isinstance(c.get("sched"), dict) and len(c["sched"].get("switches", [])) > 40:
        c["sched"]["switches"] = c["sched"]["switches"][:40] + ["... %d more" % (len(c["sched"]["switches"]) - 40)]
    return c
