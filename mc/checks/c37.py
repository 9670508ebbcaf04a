import itertools
import os
import warnings
import h5py
import numpy as np
from mc import ref, scratch
from discorpy.losa import loadersaver as losa

ref.require_repo()


class Check:
    PID = "C37"
    RULE = "state = (dataset shape, type, key, axis, index); the loaded array is compared with slicing of the array stored (h5py is used only to write it)"
    BOUNDS = {"quick": "axes of up to 33000 slices; all shapes up to 3x4x5 (60) x axes -1..3 x all single indices, all (start, stop) and all (start, stop, step) up to the size + 1, as tuple and list, int and numpy int, explicit and default key; 2D shapes up to 4x4 of 9 types; trees of groups for the default key; wrong keys, files, dimensions",
              "thorough": "all shapes up to 5x6x7 (210), all steps up to the size + 1, longer explicit index lists of length 4..5, 9 types"}

    def space(self, tier):
        deep = tier == "thorough"
        a, b, c = (5, 6, 7) if deep else (3, 4, 5)
        for s in itertools.product(range(1, a + 1), range(1, b + 1), range(1, c + 1)):
            yield {"k": "cube", "s": list(s), "deep": deep}
        for s in itertools.product(range(1, 5), repeat=2):
            yield {"k": "flat", "s": list(s)}
        for dt in ("float64", "uint8", "int16", "uint16", "int32", "uint32", "int64", "float16", "bool"):
            yield {"k": "type", "dt": dt}
        for ax in range(3):
            for n in (40, 130, 300, 1100, 5000, 33000):
                yield {"k": "long", "ax": ax, "n": n}
        for i in range(16):
            yield {"k": "key", "i": i}
        yield {"k": "error"}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        with scratch.folder() as d:
            getattr(self, "do_" + g["k"])(g, ctx, d)

    def write(self, p, items):
        with h5py.File(p, "w") as f:
            for k, v in items:
                if v is None:
                    f.require_group(k)
                else:
                    f.create_dataset(k, data=v)

    def compare(self, ctx, p, a, key, index, axis, sel, what):
        ax = min(max(axis, 0), 2)
        n = a.shape[ax]
        kw = {"axis": axis}
        if sel is not None and len(sel) == 0:
            ctx.raises(ValueError, losa.load_hdf_file, p, key, index=index, axis=axis)
            return
        if sel is not None and any(i < 0 or i >= n for i in sel):
            ctx.raises(IndexError, losa.load_hdf_file, p, key, index=index, axis=axis)
            return
        r = ctx.call(losa.load_hdf_file, p, key, index=index, axis=axis)
        e = a if sel is None else np.take(a, sel, axis=ax)
        if sel is not None and len(sel) == 1:
            e = np.take(e, 0, axis=ax)
        ctx.check(isinstance(r, np.ndarray) and r.shape == e.shape, lambda: f"{what}: shape {getattr(r, 'shape', r)} instead of {e.shape}")
        ctx.check(r.dtype == np.float32 and np.array_equal(r, e.astype(np.float32)), lambda: f"{what}: {r.tolist()} instead of {e.tolist()}")
        ctx.outcome(r)

    def do_long(self, g, ctx, d):
        """Long axes: first, last and middle slices, ranges across them."""
        n, ax = g["n"], g["ax"]
        s = [2, 3, 2]
        s[ax] = n
        a = (np.arange(np.prod(s)).reshape(s) * 1.25 + 3).astype(np.float32)
        p = os.path.join(d, "x.hdf")
        self.write(p, [("entry/data", a)])
        key = "entry/data"
        self.compare(ctx, p, a, key, None, ax, None, f"{s}")
        for i in sorted({0, 1, 15, 16, 31, 32, 33, n // 2, n - 2, n - 1}):
            self.compare(ctx, p, a, key, i, ax, [i], f"{s} axis {ax} index {i}")
        for i, j in ((0, n), (1, n - 1), (5, 38), (n // 2, n), (0, n // 2), (n - 3, n)):
            self.compare(ctx, p, a, key, (i, j), ax, list(range(i, j)), f"{s} axis {ax} index {(i, j)}")
            for st in (1, 2, 7, n // 3):
                self.compare(ctx, p, a, key, (i, j, st), ax, list(range(i, j, st)), f"{s} axis {ax} index {(i, j, st)}")
        for b in (a[0, :, :] if ax else a[:, 0, :],):
            self.write(p, [(key, b)])
            r = ctx.call(losa.load_hdf_file, p, key)
            ctx.check(r.shape == b.shape and np.array_equal(r, b), lambda: f"2D dataset {b.shape}: loaded different")
        ctx.interesting()

    def do_cube(self, g, ctx, d):
        s = tuple(g["s"])
        a = (np.arange(np.prod(s)).reshape(s) * 1.25 + 3).astype(np.float32)
        p = os.path.join(d, "x.hdf")
        self.write(p, [("entry/data", a)])
        for axis in (-1, 0, 1, 2, 3):
            ax = min(max(axis, 0), 2)
            n = s[ax]
            for key in ("entry/data", None):
                w = f"{s} axis {axis} key {key}"
                self.compare(ctx, p, a, key, None, axis, None, w)
                for i in range(0, n):
                    for v in (i, np.int64(i), np.int32(i)):
                        self.compare(ctx, p, a, key, v, axis, [i], f"{w} index {v!r}")
                for i in (n, n + 3):
                    ctx.raises(IndexError, losa.load_hdf_file, p, key, index=i, axis=axis)
            key = "entry/data"
            for i, j in itertools.product(range(0, n + 1), range(0, n + 2)):
                for conv in (tuple, list):
                    self.compare(ctx, p, a, key, conv((i, j)), axis, list(range(i, j)), f"{s} axis {axis} index {conv((i, j))}")
                for st in range(1, n + 2 if g["deep"] else 4):
                    for conv in (tuple, list):
                        self.compare(ctx, p, a, key, conv((i, j, st)), axis, list(range(i, j, st)), f"{s} axis {axis} index {conv((i, j, st))}")
            if n >= 4:
                for m in (4, 5) if g["deep"] else (4,):
                    for sel in itertools.combinations(range(n), m):
                        for conv in (tuple, list):
                            self.compare(ctx, p, a, key, conv(sel), axis, list(sel), f"{s} axis {axis} list {conv(sel)}")
            self.compare(ctx, p, a, key, (0,), axis, [0], f"{s} axis {axis} list (0,)")
            self.compare(ctx, p, a, key, [n - 1], axis, [n - 1], f"{s} axis {axis} list [{n - 1}]")
        # default axis is the first
        r = ctx.call(losa.load_hdf_file, p, "entry/data", 0)
        ctx.check(np.array_equal(r, a[0]), f"{s}: default axis")
        ctx.interesting(max(s) > 1)

    def do_flat(self, g, ctx, d):
        s = tuple(g["s"])
        for dt in ("float32", "float64", "uint8", "int16", "uint16", "int32", "int64", "bool", "float16"):
            a = ((np.arange(np.prod(s)).reshape(s) * 7) % 5 - 1).astype(dt)
            p = os.path.join(d, "x.nxs")
            self.write(p, [("e/f/data", a)])
            for key in ("e/f/data", None, "/e/f/data"):
                r = ctx.call(losa.load_hdf_file, p, key)
                ctx.check(r.dtype == a.dtype and r.shape == s and np.array_equal(r, a), lambda: f"2D {s} {dt}: {r!r} instead of {a!r}")
                ctx.outcome(r)
            o = ctx.call(losa.load_hdf_object, p, "e/f/data")
            ctx.check(np.array_equal(o[()], a) and o.dtype == a.dtype, f"load_hdf_object {s} {dt}")
            o.file.close()
        ctx.interesting()

    def do_type(self, g, ctx, d):
        s = (3, 4, 5)
        dt = np.dtype(g["dt"])
        hi = 1 if dt.kind == "b" else 60000 if dt.kind == "f" else np.iinfo(dt).max
        lo = 0 if dt.kind in "bu" else -60000 if dt.kind == "f" else np.iinfo(dt).min
        a = np.array([lo, hi, 0, 1, hi // 3])[np.arange(60) % 5].astype(dt).reshape(s)
        p = os.path.join(d, "x.h5")
        self.write(p, [("k/data", a)])
        for axis in (0, 1, 2):
            for idx, sel in ((None, None), (1, [1]), ((0, 2), [0, 1]), ((0, 3, 2), [0, 2]), ((2, 3), [2])):
                self.compare(ctx, p, a, "k/data", idx, axis, sel, f"{dt} axis {axis} index {idx}")
        ctx.interesting()

    def do_key(self, g, ctx, d):
        """The default key is the dataset called data, wherever it is."""
        p = os.path.join(d, "x.hdf")
        a = np.arange(24, dtype=np.float32).reshape(2, 3, 4)
        decoys = [("other/image", a + 1), ("entry/empty", None), ("entry/data2", a + 2), ("a/xdata", a + 3)]
        where = ["entry/data", "a/b/data", "z/y/x/data", "entry/dat/data"]
        items = [(where[g["i"] % 4], a)]
        for b, it in enumerate(decoys):
            if (g["i"] // 4) >> 0 & 1 and b < 2 or (g["i"] // 4) >> 1 & 1 and b >= 2:
                items.append(it)
        for order in (items, items[::-1]):
            self.write(p, order)
            r = ctx.call(losa.load_hdf_file, p)
            ctx.check(np.array_equal(r, a), lambda: f"tree {[k for k, _ in order]}: default dataset is {r.tolist()}")
            for k, v in order:
                if v is not None:
                    r = ctx.call(losa.load_hdf_file, p, k)
                    ctx.check(np.array_equal(r, v), lambda: f"key {k}: {r.tolist()}")
                    ctx.outcome((k, r))
        # a group called data is not a dataset
        self.write(p, [("entry/data/image", a)])
        ctx.raises(ValueError, losa.load_hdf_file, p)
        ctx.interesting()

    def do_error(self, g, ctx, d):
        p = os.path.join(d, "x.hdf")
        for f in (lambda *x: losa.load_hdf_file(*x), lambda q, k=None: losa.load_hdf_object(q, k or "entry/data")):
            ctx.raises(ValueError, f, os.path.join(d, "missing.hdf"), "entry/data")
            ctx.raises(ValueError, f, os.path.join(d, "missing.hdf"))
            q = os.path.join(d, "text.hdf")
            for content in (b"", b"not hdf", b"\x89HDF\r\n\x1a\n", b"\x89HDF\r\n\x1a\n" + b"\0" * 100):
                with open(q, "wb") as h:
                    h.write(content)
                ctx.raises(ValueError, f, q, "entry/data")
            ctx.raises(ValueError, f, d, "entry/data")
        a = np.arange(24.0).reshape(2, 3, 4)
        self.write(p, [("entry/data", a), ("v/one", np.arange(4.0)), ("v/four", np.zeros((2, 2, 2, 2))), ("v/zero", np.float64(3))])
        for key in ("entry/dat", "data", "entry/data2", "v/none", "nothing"):
            ctx.raises(ValueError, losa.load_hdf_file, p, key)
            ctx.raises(ValueError, losa.load_hdf_object, p, key)
        for key in ("v/one", "v/four", "v/zero"):
            ctx.raises(ValueError, losa.load_hdf_file, p, key)
        self.write(p, [("a/b", a), ("c", np.zeros((2, 2)))])
        ctx.raises(ValueError, losa.load_hdf_file, p)
        self.write(p, [])
        ctx.raises(ValueError, losa.load_hdf_file, p)
        ctx.interesting()
