"""Development tool: which argument values the quick checks give to every
public function.  usage: argcov.py PID STRIDE  -> JSON on stdout"""
import collections
import importlib
import inspect
import json
import sys
import numpy as np
sys.path.insert(0, "/verif")
from mc import core
pid, stride = sys.argv[1], int(sys.argv[2])
check = importlib.import_module(f"mc.checks.{pid.lower()}").Check()
rec = collections.defaultdict(lambda: collections.defaultdict(collections.Counter))


def bucket(n):
    return n if n < 4 else "4-8" if n < 9 else "9-16" if n < 17 else "17-64" if n < 65 else "65-256" if n < 257 else "257-1024" if n < 1025 else "1025-4096" if n < 4097 else "4097-32767" if n < 32768 else ">32767"


def summ(v):
    if isinstance(v, np.ndarray):
        neg = "neg" if v.size and v.dtype.kind in "if" and v.min() < 0 else ""
        big = "big" if v.size and v.dtype.kind in "iuf" and np.nanmax(np.abs(v.astype(float))) > 3e4 else ""
        return f"arr {v.dtype} {v.ndim}D max{bucket(max(v.shape, default=0))} {neg}{big}{'' if v.flags.c_contiguous else ' strided'}"
    if isinstance(v, (list, tuple)):
        return f"{type(v).__name__}[{bucket(len(v))}] of {summ(v[0]) if len(v) else ''}"
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return repr(v)[:30]
    if isinstance(v, (int, np.integer)):
        return f"{type(v).__name__} {'-' if v < 0 else ''}{bucket(abs(int(v)))}"
    if isinstance(v, (float, np.floating)):
        s = "0" if v == 0 else ("-" if v < 0 else "") + ("<.01" if abs(v) < .01 else "<1" if abs(v) < 1 else "1" if abs(v) == 1 else "<10" if abs(v) < 10 else "<100" if abs(v) < 100 else "<1e4" if abs(v) < 1e4 else "big")
        return f"{type(v).__name__} {s}{'' if v == int(v) else ' frac'}"
    return type(v).__name__


def prof(frame, event, arg):
    if event != "call":
        return
    co = frame.f_code
    if "/discorpy/" not in co.co_filename or co.co_name.startswith(("_", "<")):
        return
    b = frame.f_back
    if b and "/discorpy/" in b.f_code.co_filename:
        return
    loc = frame.f_locals
    for n in co.co_varnames[:co.co_argcount]:
        rec[co.co_name][n][summ(loc[n])] += 1


for i, g in enumerate(check.space("quick")):
    if i % stride:
        continue
    ctx = core.Ctx()
    sys.setprofile(prof)
    try:
        check.run(g, ctx)
    except Exception as e:
        print("!", e, file=sys.stderr)
    finally:
        sys.setprofile(None)
json.dump({f: {a: dict(c) for a, c in d.items()} for f, d in rec.items()}, open(f"/tmp/argcov/{pid}.json", "w"))
