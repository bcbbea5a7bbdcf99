"""Shared machinery: importing the code under test, the monitor, the runner."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def load_pycba():
    """Import pycba from /repo's working tree (it is pure Python)."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import pycba

    here = os.path.realpath(os.path.dirname(pycba.__file__))
    want = os.path.realpath(os.path.join(SRC, "pycba"))
    if here != want:
        raise SystemExit(f"pycba imported from {here}, not {want}")
    return pycba


# share of the cases which are rewritten in other units (mm, N, ft, kip, ...)
UNIT_SHARE = float(os.environ.get("VP_UNITS", "0.2"))


class CaseTimeout(Exception):
    pass


class Monitor:
    """
    Collects what one case's monitors observed: event counts, state classes seen
    and violations.  Verdicts are three-valued: a case with a violation, a case on
    which at least one oracle comparison happened, or a case that observed nothing.
    """

    MAXV = 6

    def __init__(self):
        self.events = {}
        self.seen = set()
        self.viol = []
        self.checks = 0
        self.worst = {}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def state(self, *key):
        self.seen.add("|".join(str(k) for k in key))

    def fail(self, key, msg):
        if len(self.viol) < self.MAXV:
            self.viol.append((key, msg))

    def check(self, cond, key, msg=""):
        self.checks += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, got, want, tol, key, msg=""):
        """max |got - want| <= tol  (NaN never passes); tol absolute"""
        self.checks += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w)
            except ValueError:
                self.fail(key, f"{msg}: shape {g.shape} vs expected {w.shape}")
                return False
        if g.size == 0:
            return True
        with np.errstate(all="ignore"):
            e = np.abs(g - w)
        ok = bool(np.all(e <= tol))
        if ok:
            if np.ndim(tol) == 0 and tol > 0:
                r = float(e.max()) / float(tol)
                if r > self.worst.get(key, 0.0):
                    self.worst[key] = r
            return True
        bad = ~(e <= tol)
        k = int(np.argmax(np.where(np.isnan(e), np.inf, np.where(bad, e, -1.0)).ravel()))
        t = float(np.broadcast_to(np.asarray(tol, float), e.shape).ravel()[k])
        self.fail(
            key,
            f"{msg}: got {g.ravel()[k]!r} expected {w.ravel()[k]!r} "
            f"(index {k}, |err| {e.ravel()[k]:.3e} > tol {t:.3e})",
        )
        return False

    def raises(self, exc, fn, key, msg=""):
        """fn() must raise one of `exc`"""
        self.checks += 1
        try:
            out = fn()
        except exc:
            return True
        except CaseTimeout:
            raise
        except Exception as e:  # noqa
            self.fail(key, f"{msg}: raised {type(e).__name__}: {e}")
            return False
        self.fail(key, f"{msg}: accepted (returned {str(out)[:60]})")
        return False


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_one(mod, case, limit=120):
    """Run one case under a watchdog -> dict"""
    mon = Monitor()
    cpu0 = time.process_time()
    out = {"timeout": False}

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        # keep a case free of any global random state
        np.random.seed(0)
        mod.run(case, mon)
    except CaseTimeout:
        out["timeout"] = True
        if time.process_time() - cpu0 > 0.6 * limit:
            # not a busy machine: this much processor time is over ten times that of
            # the slowest case on code which works
            out["timeout"] = False
            mon.fail("hang", f"no answer after {time.process_time() - cpu0:.0f} s of processor time")
    except MemoryError:
        out["timeout"] = True
    except Exception as e:  # the code under test (or what it returned) misbehaved
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/pycba/" in f.filename]
        loc = where[-1] if where else tb[-1]
        mon.fail(
            "exception",
            f"{type(e).__name__}: {e} [{os.path.basename(loc.filename)}:{loc.name}] "
            + ("in the code under test" if where else "while reading its results"),
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out.update(
        events=mon.events,
        seen=sorted(mon.seen),
        viol=mon.viol,
        checks=mon.checks,
        worst=mon.worst,
    )
    return out


def make_case(mod, seed, i, tier):
    import zlib

    key = [int(seed), zlib.crc32(mod.ID.encode()), int(i)]
    case = mod.gen(np.random.default_rng(key), i, tier)
    keys = getattr(mod, "UNITS", None)
    rng = np.random.default_rng(key + [7])
    if keys is not None and rng.random() < UNIT_SHARE:
        from . import units

        a, f = units.PAIRS[int(rng.integers(0, len(units.PAIRS)))]
        case = keys(case, a, f) if callable(keys) else units.case(case, a, f, keys)
        case["units"] = [a, f]
    return case


def clean(o):
    """JSON-able copy with plain Python numbers"""
    if isinstance(o, dict):
        return {k: clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, np.ndarray):
        return clean(o.tolist())
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    return o


_MOD = None
_CFG = None


def _init(name, cfg):
    global _MOD, _CFG
    import warnings

    warnings.simplefilter("ignore")
    load_pycba()
    _MOD = importlib.import_module(name)
    _CFG = cfg
    if hasattr(_MOD, "worker_init"):
        _MOD.worker_init()


def _task(job):
    kind, i = job
    seed, tier, stop_at = _CFG
    if time.time() > stop_at:
        return None
    if kind == "s":
        case = clean(_MOD.specials(tier)[i])
    else:
        case = clean(make_case(_MOD, seed, i, tier))
    t = time.time()
    out = run_one(_MOD, case)
    out["dt"] = time.time() - t
    out["digest"] = digest(case)
    out["job"] = (kind, i)
    if out["viol"] or out["timeout"] or (kind == "s" and i < 2) or (kind == "r" and i < 3):
        out["case"] = case
    return out


def read_findings():
    """known-findings.txt -> {property: [(key, text)]} (open findings only)"""
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            body = line[len("known:") :].strip()
            parts = body.split(None, 2)
            pid = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            known.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else key
    return known


def main(mod, tier, seed, replay=None, jobs=None):
    t0 = time.time()
    name = mod.__name__
    cap = 780.0 if tier == "thorough" else 400.0
    stop_at = t0 + cap
    jobs = jobs or min(8, os.cpu_count() or 1)
    evid = os.path.join(VERIF, "evidence", mod.ID + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    if replay:
        case = json.load(open(replay))["case"]
        _init(name, (seed, tier, stop_at))
        out = run_one(mod, case, 600)
        for k, m in out["viol"]:
            print(f"  [{k}] {m}")
        print("checks", out["checks"], "events", out["events"])
        if out["viol"]:
            print(f"VIOLATION property={mod.ID} replay={replay}")
            return 1
        return 0

    load_pycba()
    specials = mod.specials(tier) if hasattr(mod, "specials") else []
    n = mod.N_THOROUGH if tier == "thorough" else mod.N_QUICK
    work = [("s", i) for i in range(len(specials))] + [("r", i) for i in range(n)]
    events, seen, worst = {}, set(), {}
    digests, nontriv = set(), set()
    samples, viols, timeouts = [], [], []
    evals = checks = skipped = 0
    slow, hung = 0.0, 0
    known = read_findings().get(mod.ID, {})
    hit_known = {}
    chunk = max(1, min(16, len(work) // (jobs * 8) or 1))
    chunk = getattr(mod, "CHUNK", chunk)
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, _init, (name, (seed, tier, stop_at))) as pool:
        for out in pool.imap_unordered(_task, work, chunksize=chunk):
            if out is None:
                skipped += 1
                continue
            evals += 1
            slow = max(slow, out["dt"])
            digests.add(out["digest"])
            checks += out["checks"]
            for k, v in out["events"].items():
                events[k] = events.get(k, 0) + v
            seen.update(out["seen"])
            for k, v in out["worst"].items():
                if v > worst.get(k, 0.0):
                    worst[k] = v
            if out["checks"]:
                nontriv.add(out["digest"])
            if out["timeout"]:
                timeouts.append(out)
            fresh = []
            for k, m in out["viol"]:
                if k in known:
                    hit_known.setdefault(k, m)
                else:
                    fresh.append((k, m))
            if fresh:
                viols.append((out["job"], fresh, out["case"]))
            elif "case" in out and len(samples) < 4 and out["checks"]:
                samples.append(out["case"])
            hung += any(k == "hang" for k, _ in out["viol"])
            if len(viols) >= 12 or hung >= 2:
                pool.terminate()
                break
    wall = time.time() - t0
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": samples or [c for _, _, c in viols[:1]] or ["none"],
        "oracle_comparisons": checks,
        "events_observed": events,
        "distinct_states_seen": len(seen),
        "states_sample": sorted(seen)[:40],
        "not_run_time_cap": skipped,
        "case_timeouts": len(timeouts),
        "slowest_case_s": round(slow, 3),
        "largest_error_over_tolerance": {
            k: float(f"{v:.3g}") for k, v in sorted(worst.items(), key=lambda t: -t[1])[:20]
        },
    }
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": int(seed),
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMES", []),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(evid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(known):
        probe = "" if k in hit_known else " (not reached by this run)"
        print(f"KNOWN-FINDING: property={mod.ID} [{k}] {known[k]}{probe}")
    print(
        f"{mod.ID} {tier} seed={seed}: {evals} executions, {checks} oracle comparisons, "
        f"{len(seen)} state classes, {wall:.1f} s"
    )
    if viols:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        viols.sort(key=lambda v: (len(json.dumps(v[2])), v[0]))
        path = os.path.join(rdir, f"{mod.ID}-{digest(viols[0][2])}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": mod.ID, "job": viols[0][0], "messages": viols[0][1], "case": viols[0][2]},
                f,
                indent=1,
            )
        for job, msgs, case in viols[:4]:
            for k, m in msgs[:3]:
                print(f"  case {job[0]}{job[1]} [{k}] {m}"[:600])
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    need = set(getattr(mod, "MUST_SEE", ()))
    miss = sorted(k for k in need if not events.get(k))
    if timeouts or miss or not checks or skipped > 0.5 * len(work):
        print(
            f"INCONCLUSIVE: timeouts={len(timeouts)} unreached monitors={miss} "
            f"comparisons={checks} not run={skipped}/{len(work)}"
        )
        return 2
    return 0
