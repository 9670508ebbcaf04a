"""Explicit-state exploration driver.

A check is an object with

  PID        property id
  RULE       one-line statement of what a state is and what is compared
  BOUNDS     {tier: text}
  space(tier)      -> iterator over JSON-able configurations (the whole finite
                      space, in a fixed order; nothing is drawn at random)
  run(cfg, ctx)    -> None; drives the *real* code on that configuration and
                      calls ctx.check(...)/ctx.fail(...)

The driver forks one worker per core, hands every configuration of the space
to exactly one worker, and stops at the first violation (after confirming it by
running the configuration once more).  Counts are measured:

  states       distinct configurations visited
  transitions  calls made into discorpy
  validated    comparisons of an implementation result with the reference model
  outcomes     distinct result signatures seen (guards against vacuity)
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    pass


class ConfigTimeout(Exception):
    pass


class Ctx:
    """Collects what one configuration did."""

    def __init__(self):
        self.calls = 0
        self.validated = 0
        self.nontrivial = 0
        self.outcomes = set()
        self.samples = []

    def call(self, func, *args, **kwargs):
        """Make one call into the implementation."""
        self.calls += 1
        return func(*args, **kwargs)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.validated += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def raises(self, exc, func, *args, **kwargs):
        """The call must raise one of exc (and nothing else)."""
        self.calls += 1
        self.validated += 1
        try:
            res = func(*args, **kwargs)
        except exc:
            return
        except Violation:
            raise
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, ConfigTimeout)):
                raise
            raise Violation(f"expected {exc} but got {type(e).__name__}: {e}")
        raise Violation(f"expected {exc} but the call returned {short(res)}")

    def outcome(self, obj):
        self.outcomes.add(sig(obj))

    def interesting(self, yes=True):
        if yes:
            self.nontrivial += 1


def short(x, n=300):
    s = repr(x)
    return s if len(s) < n else s[:n] + "..."


def sig(obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        h = hashlib.md5()
        h.update(str(obj.dtype).encode())
        h.update(str(obj.shape).encode())
        h.update(np.ascontiguousarray(obj).tobytes())
        return h.hexdigest()[:12]
    if isinstance(obj, (list, tuple)):
        return hashlib.md5("|".join(sig(o) for o in obj).encode()).hexdigest()[:12]
    return hashlib.md5(repr(obj).encode()).hexdigest()[:12]


def _alarm(signum, frame):
    raise ConfigTimeout("no result within the time limit")


def run_one(check, cfg, limit):
    """Returns (ctx, None) or (ctx, message)."""
    ctx = Ctx()
    msg = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        check.run(cfg, ctx)
    except Violation as v:
        msg = str(v)
    except ConfigTimeout:
        msg = f"no result within {limit} s (the call does not terminate)"
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # an exception of the code under test
        tb = traceback.format_exc(limit=-6)
        msg = f"unexpected {type(e).__name__}: {e}\n{tb}"
    finally:
        signal.alarm(0)
    return ctx, msg


_CHECK = None
_LIMIT = 60
_STOP = None


def _init(check, limit, stop):
    global _CHECK, _LIMIT, _STOP
    _CHECK, _LIMIT, _STOP = check, limit, stop
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if hasattr(check, "worker_init"):
        check.worker_init()


def _work(batch):
    calls = val = nontriv = n = 0
    outs = set()
    for cfg in batch:
        if _STOP.is_set():
            break
        ctx, msg = run_one(_CHECK, cfg, _LIMIT)
        n += 1
        calls += ctx.calls
        val += ctx.validated
        nontriv += ctx.nontrivial
        outs |= ctx.outcomes
        if msg is not None:
            # confirm before reporting
            ctx2, msg2 = run_one(_CHECK, cfg, _LIMIT)
            known = None
            if hasattr(_CHECK, "known"):
                known = _CHECK.known(cfg, msg)
            if known:
                outs.add("known:" + known)
                continue
            _STOP.set()
            return (n, calls, val, nontriv, outs, cfg, msg, msg2)
    return (n, calls, val, nontriv, outs, None, None, None)


def _batches(it, size):
    b = []
    for c in it:
        b.append(c)
        if len(b) >= size:
            yield b
            b = []
    if b:
        yield b


def explore(check, tier, seed, deadline=None):
    pid = check.PID
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    cfgs = list(check.space(tier))
    keys = set()
    uniq = []
    for c in cfgs:
        k = json.dumps(c, sort_keys=True)
        if k not in keys:
            keys.add(k)
            uniq.append(c)
    cfgs = uniq
    total = len(cfgs)
    nw = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1))
    nw = max(1, min(nw, total))
    size = getattr(check, "BATCH", None) or max(1, min(16, total // (nw * 16) or 1))
    # interleave so that every worker gets a similar mixture
    limit = getattr(check, "LIMIT", 120)
    mctx = mp.get_context("fork")
    stop = mctx.Event()
    states = calls = val = nontriv = 0
    outs = set()
    bad = None
    crashed = False
    ex = ProcessPoolExecutor(nw, mp_context=mctx, initializer=_init,
                             initargs=(check, limit, stop))
    try:
        futs = [ex.submit(_work, b) for b in _batches(iter(cfgs), size)]
        for fu in as_completed(futs):
            n, c, v, nt, o, cfg, msg, msg2 = fu.result()
            states += n
            calls += c
            val += v
            nontriv += nt
            outs |= o
            if cfg is not None and bad is None:
                bad = (cfg, msg, msg2)
    except BrokenProcessPool as e:
        crashed = True
        print("internal: a worker process died:", e)
    finally:
        ex.shutdown(wait=not crashed, cancel_futures=True)
    wall = time.time() - t0
    known_hits = sorted(o[6:] for o in outs if o.startswith("known:"))
    outs = {o for o in outs if not o.startswith("known:")}
    violations = []
    replay = None
    if bad:
        cfg, msg, msg2 = bad
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f"{pid}.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "tier": tier, "config": cfg,
                       "message": msg, "second_run": msg2,
                       "command": f"/verif/check.sh {pid} replay {replay}"},
                      f, indent=1)
        violations.append({"config": cfg, "message": msg[:2000], "replay": replay})
    samples = [json.loads(json.dumps(c)) for c in
               ([cfgs[0], cfgs[total // 3], cfgs[(2 * total) // 3], cfgs[-1]] if total > 3 else cfgs)]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": calls,
            "traces_validated_against_impl": val,
            "exhaustive": bool(states == total and not bad),
            "space_size": total,
            "distinct_outcomes": len(outs),
            "distinct_nontrivial": nontriv,
            "rule": check.RULE,
            "bounds": check.BOUNDS.get(tier) or check.BOUNDS.get("quick"),
            "samples": samples,
            "known_findings_hit": known_hits,
        },
        "wall_s": round(wall, 2),
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])) + [
            "numpy, scipy, h5py, Pillow, matplotlib and OpenCV behave as documented",
            "the property is decided on the stated finite space only"],
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violation_details"] = violations
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_hits:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if bad:
        print(bad[1])
        print("configuration:", short(bad[0], 1500))
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if states != total:
        print(f"internal: explored {states} of {total} configurations")
        return 2
    print(f"{pid} {tier}: {states} states, {calls} calls, {val} comparisons, "
          f"{len(outs)} distinct outcomes, {wall:.1f} s: property held")
    return 0


def replay_file(check, path):
    with open(path) as f:
        rec = json.load(f)
    if hasattr(check, "worker_init"):
        check.worker_init()
    ctx, msg = run_one(check, rec["config"], getattr(check, "LIMIT", 120))
    if msg is None:
        print("replay: property held on this configuration")
        return 0
    print(msg)
    print(f"VIOLATION property={check.PID} replay={path}")
    return 1
