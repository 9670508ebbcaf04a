import os
import random
import warnings
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from mc import ref, scratch, fork
from mc.calls import CALLS

ref.require_repo()
NAMES = list(CALLS)
# warm up what libraries load lazily, without calling discorpy
import scipy.optimize, scipy.ndimage, skimage.transform, skimage.measure, skimage.morphology, h5py, PIL.Image, PIL.PngImagePlugin, PIL.TiffImagePlugin, cv2  # noqa


def freeze(x):
    """Comparable deep copy."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)([freeze(i) for i in x]) if type(x) in (list, tuple) else [freeze(i) for i in x]
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    return x


def same(a, b, tol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a_, b_ = np.asarray(a), np.asarray(b)
        if type(a) is not type(b) or a_.shape != b_.shape or a_.dtype != b_.dtype:
            return False
        if tol and a_.dtype.kind == "f":
            t = tol if a_.dtype.itemsize > 4 else max(tol, 1e-5)
            return bool(np.allclose(a_, b_, rtol=t, atol=t, equal_nan=True))
        return a_.tobytes() == b_.tobytes()
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a))
    try:
        return bool(a == b)
    except Exception:
        return a is b


def settings():
    s = np.random.get_state()
    return {"numpy error handling": dict(np.geterr()), "print options": str(np.get_printoptions()),
            "numpy random state": (s[0], s[1].tobytes(), s[2:]), "random state": random.getstate(),
            "warning filters": [str(f) for f in warnings.filters], "plot settings": dict(matplotlib.rcParams),
            "open figures": plt.get_fignums(), "folder": os.getcwd(), "environment": dict(os.environ)}


def scribble(x):
    """What a caller may do with a result it owns."""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fiu":
        x[...] = 77
    elif isinstance(x, (list, tuple)):
        for i in x:
            scribble(i)
        if isinstance(x, list):
            x.clear()


def poke(x, v):
    """Copy with an unusual value at some places."""
    y = x.copy()
    y.flat[::7] = v
    return y


def near(x):
    """A slightly different value of the same kind, or None."""
    if isinstance(x, (bool, np.bool_)):
        return not x
    if isinstance(x, (float, np.floating)):
        return x + 0.2
    if isinstance(x, (int, np.integer)):
        return x + 1
    if isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fiu":
        y = x.copy()
        j = x.size - 1 if x.ndim == 1 else np.ravel_multi_index(tuple(n // 2 for n in x.shape), x.shape)
        y.flat[j] = y.flat[j] * 1.01 + (1e-3 if x.ndim > 1 else 0) if x.dtype.kind == "f" else y.flat[j] + 1
        return y
    if isinstance(x, (list, tuple)) and len(x):
        y = list(freeze(x))
        if isinstance(y[-1], (float, np.floating)) and y[-1]:
            y[-1] = y[-1] * 1.01
        else:
            j = len(y) // 2 if isinstance(y[-1], (np.ndarray, list, tuple)) else len(y) - 1
            y[j] = near(y[j])
            if y[j] is None:
                return None
        return type(x)(y)
    return None


def tiny(x):
    """Different in the fourth or fifth digit only, or None."""
    if isinstance(x, (float, np.floating)):
        return type(x)(x * 1.0003) if x else None
    if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "f":
        return (x * np.asarray(1.0003, x.dtype)).astype(x.dtype)
    if isinstance(x, (list, tuple)) and len(x):
        y = [tiny(v) for v in x]
        if isinstance(x[-1], (float, np.floating)):
            y = [None] * (len(x) - 1) + y[-1:]
        if all(v is None for v in y):
            return None
        return type(x)(v if w is None else w for v, w in zip(freeze(x), y))
    return None


def order_f(x):
    return np.asfortranarray(x)


def locked(x):
    y = x.copy(order="K")
    y.setflags(write=False)
    return y


ODD = {"nan": lambda x: poke(x, np.nan) if x.dtype.kind == "f" else None,
       "infinite": lambda x: poke(x, np.inf) if x.dtype.kind == "f" else None,
       "zero": lambda x: np.zeros_like(x),
       "constant": lambda x: np.full_like(x, 5),
       "negative": lambda x: -x if x.dtype.kind in "fi" else None,
       "empty": lambda x: x[:0].copy(),
       "huge": lambda x: x * 1e30 if x.dtype.kind == "f" else None,
       "single precision": lambda x: x.astype(np.float32) if x.dtype.kind == "f" else None,
       "integer": lambda x: np.rint(x).astype(np.int64) if x.dtype.kind == "f" else None,
       "column order": order_f, "read-only": locked, "view": lambda x: np.repeat(x, 2, axis=0)[::2]}


def turn(x, f):
    """(copy with every array passed through f, whether it applied)"""
    if isinstance(x, np.ndarray) and x.ndim:
        y = f(x)
        return (x, False) if y is None else (y, True)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        p = [turn(i, f) for i in x]
        return type(x)([i for i, _ in p]), any(o for _, o in p)
    return x, False


def overwrite(dst, src):
    """Give the arrays of dst the contents of src, in place; False if not the same layout."""
    if isinstance(dst, np.ndarray):
        if not isinstance(src, np.ndarray) or dst.shape != src.shape or dst.dtype != src.dtype:
            return False
        dst[...] = src
        return True
    if isinstance(dst, list):
        if not isinstance(src, list) or len(dst) != len(src):
            return False
        for i, (a, b) in enumerate(zip(dst, src)):
            if isinstance(a, (np.ndarray, list)):
                if not overwrite(a, b):
                    return False
            else:
                dst[i] = b
        return True
    return same(dst, src)


class Bad(Exception):
    pass


class Check:
    PID = "C40"
    TECHNIQUE = "stateful exploration of call histories on the real code: every ordered pair of public calls in fresh processes, with all results, arguments and process settings monitored after every step"
    RULE = "state = history of calls in a fresh process; after each call its result is compared with the result of the call alone in a fresh process, its arguments and all earlier results with copies, and the process settings with those at the start"
    BOUNDS = {"quick": "92 calls covering every public function except the video loop: for each first call, all 92 x 2 (function, data) second calls (data of other shapes; other data of the same shapes), each followed by the first call again (34000 transitions); every function on the same arrays refilled in place, all together and one argument at a time (with other data, or slightly changed), and after the caller overwrites its results; every function on 12 kinds of unusual arrays (nan, infinite, zero, empty, read-only, ...)",
              "thorough": "for each of 92 x 3 first calls all 92 x 3 second calls, each followed by the first again (150000 transitions), and every pair of 92 x 92 in a fresh process of its own"}
    LIMIT = 600
    BATCH = 1
    base = None

    def baseline(self):
        if self.base is None:
            out = {}
            for n in NAMES:
                for v in (0, 1, 2):
                    st, r = fork.child(lambda: self.alone(n, v))
                    out[n, v] = (st, r)
            self.base = out
        return self.base

    def alone(self, n, v):
        warnings.simplefilter("ignore")
        f, b = CALLS[n]
        with scratch.folder() as d:
            a, k = b(v, d)
            return freeze(f(*a, **k))

    def space(self, tier):
        self.baseline()
        deep = tier == "thorough"
        k = 23
        seconds = [(n, v) for n in NAMES for v in ((0, 1, 2) if deep else (1, 2))]
        for n in NAMES:
            yield {"k": "self", "a": n}
        for n in NAMES:
            for v in (0, 1, 2) if deep else (0, 1):
                yield {"k": "odd", "a": n, "v": v}
        for v in ((0, 1, 2) if deep else (0,)):
            for n in NAMES:
                for i in range(0, len(seconds), k * 4):
                    yield {"k": "chain", "a": [n, v], "b": [list(s) for s in seconds[i:i + k * 4]]}
        if deep:
            for n in NAMES:
                yield {"k": "pairs", "a": n}

    def worker_init(self):
        self.baseline()

    def run(self, g, ctx):
        getattr(self, "do_" + g["k"])(g, ctx)

    # -- in the child ----------------------------------------------------------
    def history(self, steps, d):
        """Runs the steps; returns the number of comparisons."""
        warnings.simplefilter("ignore")
        s0 = settings()
        kept = []
        done = 0
        for n, (name, v) in enumerate(steps):
            f, b = CALLS[name]
            a, k = b(v, d)
            fa, fk = freeze(a), freeze(k)
            r = f(*a, **k)
            what = f"after {steps[:n]}: {name} (data {v})" if n < 6 else f"after {steps[0]}, ... {steps[n - 2:n]}: {name} (data {v})"
            st, e = self.base[name, v]
            if st != "ok":
                raise Bad(f"{name} (data {v}) alone: {e}")
            if not same(r, e, 1e-7):
                raise Bad(f"{what}: the result differs from the result of the call alone")
            if not (same(fa, a) and same(fk, k)):
                raise Bad(f"{what}: an argument was changed by the call")
            for (nm, r0, c0, a0, ca0) in kept:
                if not same(r0, c0):
                    raise Bad(f"{what}: the result returned before by {nm} was changed")
                if not same(a0, ca0):
                    raise Bad(f"{what}: the arguments given before to {nm} were changed")
            if len(kept) < 3:
                kept.append((name, r, freeze(r), a, fa))
            else:
                kept[1:] = kept[2:] + [(name, r, freeze(r), a, fa)]
            s1 = settings()
            for key in s0:
                if not same(s0[key], s1[key]):
                    raise Bad(f"{what}: the {key} changed")
            done += 3 + len(s0)
        return done

    def selfhist(self, name, d):
        """The same function: data exchanged in place, results overwritten."""
        warnings.simplefilter("ignore")
        f, b = CALLS[name]
        done = 0
        for v, u in ((0, 2), (2, 0), (0, 0), (1, 1)):
            a, k = b(v, d)
            r = f(*a, **k)
            if not same(r, self.base[name, v][1], 1e-7):
                raise Bad(f"{name} (data {v}): the result differs from the result of the call alone (history of the same function)")
            scribble(r)
            a, k = b(v, d)
            r = f(*a, **k)
            if not same(r, self.base[name, v][1], 1e-7):
                raise Bad(f"{name} (data {v}): the result changed after the caller overwrote the arrays returned by the same call before")
            if u == v:
                done += 2
                continue
            # the caller reuses its arrays for other data
            a2, k2 = b(u, d)
            fits = True
            na = []
            for x, y in zip(a, a2):
                if isinstance(x, (np.ndarray, list)) and not isinstance(y, str):
                    ok = overwrite(x, y)
                    fits = fits and ok
                    na.append(x)
                else:
                    na.append(y)
            if fits:
                r = f(*na, **k2)
                if not same(r, self.base[name, u][1], 1e-7):
                    raise Bad(f"{name}: called again with the same arrays holding other data (data {u}), the result is not that of the new data")
            done += 3
        return done

    def mixed(self, name, i, d, history, how):
        """Call with the data 0 but argument i of the data 2 or slightly changed; with a
        history, after the same call with argument i of the data 0 in the same container."""
        warnings.simplefilter("ignore")
        f, b = CALLS[name]
        a, k = b(0, d)
        a2, k2 = b(2, d)
        arg = dict(enumerate(a))
        arg.update(k)
        if history:
            f(*a, **k)
        new = near(arg[i]) if how == "near" else tiny(arg[i]) if how == "tiny" else dict(list(enumerate(a2)) + list(k2.items())).get(i)
        if new is None:
            return "skip"
        if isinstance(arg[i], (np.ndarray, list)) and isinstance(new, (np.ndarray, list)):
            if not overwrite(arg[i], new):
                return "skip"
        else:
            arg[i] = new
        try:
            return "ok", freeze(f(*[arg[j] for j in range(len(a))], **{j: arg[j] for j in k}))
        except Exception as e:
            return "raised", type(e).__name__

    def odd(self, name, v, d):
        """Unusual arrays: answered or refused, but never changed."""
        warnings.simplefilter("ignore")
        f, b = CALLS[name]
        s0 = settings()
        done = 0
        for kind, t in ODD.items():
            a, k = b(v, d)
            a, ok = turn(tuple(a), t)
            if not ok:
                continue
            fa, fk = freeze(a), freeze(k)
            same_data = kind in ("column order", "read-only", "view")
            try:
                r = f(*a, **k)
            except Exception as e:
                if same_data:
                    raise Bad(f"{name} (data {v}) with {kind} arrays: {type(e).__name__}: {e}")
                r = None
            if same_data and not same(r, self.base[name, v][1], 1e-6):
                raise Bad(f"{name} (data {v}) with {kind} arrays: the result differs from that of ordinary arrays")
            if not (same(fa, a) and same(fk, k)):
                raise Bad(f"{name} (data {v}) with {kind} arrays: an argument was changed by the call")
            s1 = settings()
            for key in s0:
                if not same(s0[key], s1[key]):
                    raise Bad(f"{name} (data {v}) with {kind} arrays: the {key} changed")
            done += 2 + len(s0)
        return done

    # -- in the worker -----------------------------------------------------------
    def settle(self, ctx, st, r, calls):
        ctx.calls += calls
        if st == "ok":
            ctx.validated += r
            return
        ctx.fail(r.split("\nTraceback")[0] if r.startswith("Bad:") else r)

    def do_self(self, g, ctx):
        for v in (0, 1, 2):
            st, e = self.base[g["a"], v]
            ctx.check(st == "ok", lambda: f"{g['a']} (data {v}): {e}")
            ctx.outcome(repr(e))
        with scratch.folder() as d:
            self.settle(ctx, *fork.child(lambda: self.selfhist(g["a"], d)), 11)
            args, kw = CALLS[g["a"]][1](0, d)
        for i, x in list(enumerate(args)) + list(kw.items()):
            if isinstance(x, (str, bytes, os.PathLike)):
                continue
            for how in ("other", "near", "tiny"):
                with scratch.folder() as d:
                    s1, r1 = fork.child(lambda: self.mixed(g["a"], i, d, False, how))
                with scratch.folder() as d:
                    s2, r2 = fork.child(lambda: self.mixed(g["a"], i, d, True, how))
                ctx.calls += 3
                ctx.check(s1 == s2, lambda: f"{g['a']}, argument {i} changed: {r1 if s1 != 'ok' else r2}")
                if s1 == "ok":
                    ctx.check(same(r1, r2, 1e-9), lambda: f"{g['a']}: called again after only argument {i} changed ({how}; in place if it is an array or list), the result is not that of the new arguments")
        ctx.interesting()

    def do_odd(self, g, ctx):
        with scratch.folder() as d:
            self.settle(ctx, *fork.child(lambda: self.odd(g["a"], g["v"], d), 300), len(ODD))
        ctx.outcome((g["a"], g["v"]))
        ctx.interesting()

    def do_chain(self, g, ctx):
        a = tuple(g["a"])
        steps = [a]
        for b in g["b"]:
            steps += [tuple(b), a]
        with scratch.folder() as d:
            self.settle(ctx, *fork.child(lambda: self.history(steps, d), 500), len(steps))
        ctx.interesting()

    def do_pairs(self, g, ctx):
        for b in NAMES:
            with scratch.folder() as d:
                self.settle(ctx, *fork.child(lambda: self.history([(g["a"], 2), (b, 0)], d)), 2)
        ctx.interesting()
