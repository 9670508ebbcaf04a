import itertools
import os
import struct
import warnings
from pathlib import Path
import numpy as np
from PIL import Image
from mc import ref, scratch
from discorpy.losa import loadersaver as losa

ref.require_repo()

DOUBLES = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
           -1e-5, 123456789.123456789, 1e16, 9007199254740993.0, -2.5e-9, 1100.4000000000001, 512.0, np.inf, -np.inf, np.nan]
NAMES = ["a", "a.b", "UPPER", "sp ace", "x_0000"]


def bits(x):
    return struct.pack("<d", float(x))


def same(a, b):
    return bits(a) == bits(b) or (a != a and b != b)


class Check:
    PID = "C35"
    RULE = "state = (format, value(s), numeric type, list length, name, extension, str or Path, depth of missing folders); saved, located on disk, loaded back and compared bit for bit"
    BOUNDS = {"quick": "20x20 centre pairs of extreme doubles x {txt,json} ; coefficient lists of length 0..5 over 7 types; 12 nested Python lists; lists of up to 70000 items, 1100 coefficients, images and datasets with sides up to 70000; 11 dtypes x 8 shapes x 4 keys (hdf); 6 image dtypes x 7 shapes x 9 extensions; names x extensions x folders x {str, Path}",
              "thorough": "20x20 centres x 20 first coefficients; lists of length 0..12 (all one-position placements of extreme doubles) over 7 types; 14 hdf shapes; 16 image shapes x 8 value patterns"}

    def space(self, tier):
        deep = tier == "thorough"
        for fmt in ("txt", "json"):
            for i, _ in enumerate(DOUBLES):
                yield {"k": "centre", "fmt": fmt, "i": i, "deep": deep}
            for n in range(0, 13 if deep else 6):
                for t in ("list", "tuple", "f64", "f32", "mixed", "npfloat", "ints"):
                    if fmt == "json" and t in ("mixed",) and False:
                        continue
                    yield {"k": "facts", "fmt": fmt, "n": n, "t": t}
            for ext in ["", ".txt", ".dat", ".TXT", ".Dat", ".json", ".JSON", ".tif", ".hdf", ".c"]:
                yield {"k": "name", "fmt": fmt, "ext": ext}
        for ext in ["", ".pkl", ".PKL", ".Pkl", ".txt", ".p"]:
            yield {"k": "name", "fmt": "pkl", "ext": ext}
        for ext in ["", ".hdf", ".HDF", ".h5", ".H5", ".nxs", ".NXS", ".hdf5", ".Hdf5", ".txt", ".tif", ".h"]:
            yield {"k": "name", "fmt": "hdf", "ext": ext}
            yield {"k": "name", "fmt": "stream", "ext": ext}
        for i in range(len(self.objects())):
            yield {"k": "pickle", "i": i}
        for n in (20, 70, 300, 1100, 5000, 70000):
            yield {"k": "long", "n": n}
        shapes = [(1,), (7,), (1, 1), (3, 4), (1, 5), (2, 3, 4), (1, 1, 3), (2, 2, 2, 2)] + ([(5, 1, 1), (0, 3), (16, 9), (3, 1, 4), (40, 30), (6, 5, 4)] if deep else [])
        for dt in ("float32", "float64", "float16", "int8", "uint8", "int16", "uint16", "int32", "int64", "bool", "complex64"):
            for s in shapes:
                yield {"k": "hdf", "dt": dt, "s": list(s)}
        sh = [(1, 1), (1, 6), (6, 1), (3, 4), (5, 3), (8, 8), (2, 3)] + ([(3, 3), (2, 2), (4, 7), (16, 1), (1, 20), (17, 9), (3, 20), (20, 3), (4, 4)] if deep else [])
        for dt in ("float32", "uint8", "float64", "int32", "uint16", "bool", "int16", "int64"):
            for s in sh:
                yield {"k": "img", "dt": dt, "s": list(s), "deep": deep}
        for s in sh:
            yield {"k": "rgb", "s": list(s)}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        with scratch.folder() as d, np.errstate(all="ignore"):
            getattr(self, "do_" + g["k"])(g, ctx, d)

    def path(self, ctx, p, ext, what):
        """The returned path must be an existing file with that extension."""
        p = str(p)
        ctx.check(os.path.isfile(p), lambda: f"{what}: no file at the returned path {p}")
        return p

    # -- calibration -----------------------------------------------------
    def saver(self, fmt):
        return ((losa.save_metadata_txt, losa.load_metadata_txt) if fmt == "txt" else
                (losa.save_metadata_json, losa.load_metadata_json))

    def roundtrip(self, ctx, d, fmt, xc, yc, facts, what):
        save, load = self.saver(fmt)
        p = self.path(ctx, ctx.call(save, os.path.join(d, "coef." + fmt), xc, yc, facts), "." + fmt, what)
        ctx.check(os.path.samefile(p, os.path.join(d, "coef." + fmt)), lambda: f"{what}: saved to {p}")
        for q in (p, Path(p)):
            x, y, f = ctx.call(load, q)
            ctx.check(same(x, xc), lambda: f"{what}: xcenter {xc!r} loaded as {x!r}")
            ctx.check(same(y, yc), lambda: f"{what}: ycenter {yc!r} loaded as {y!r}")
            ctx.check(len(f) == len(facts), lambda: f"{what}: {len(facts)} coefficients loaded as {len(f)}")
            for a, b in zip(facts, f):
                if isinstance(a, np.float32):
                    ok = np.float32(b) == a or (a != a and b != b)
                else:
                    ok = same(a, b)
                ctx.check(ok, lambda: f"{what}: coefficient {a!r} loaded as {b!r}")
        ctx.outcome((x, y, list(f)))

    def do_centre(self, g, ctx, d):
        x = DOUBLES[g["i"]]
        for y in DOUBLES:
            facts = [[1.0, x, y]] + ([[z, 1.0, z] for z in DOUBLES] if g["deep"] else [])
            for f in facts:
                self.roundtrip(ctx, d, g["fmt"], x, y, f, f"{g['fmt']} {x!r} {y!r} {f}")
        for conv in (np.float64, np.float32):
            v = conv(x)
            self.roundtrip(ctx, d, g["fmt"], np.float64(v), np.float64(v), [np.float64(v)], f"{g['fmt']} {v!r}")
        ctx.interesting()

    def do_facts(self, g, ctx, d):
        n, t = g["n"], g["t"]
        base = [1.0, 1e-5, -2.5e-9, 1 / 3e12, 3e-17, -1e-20, 0.0, 7e-25, 1e-30, -1e-35, 5.5, 1e300, 5e-324][:n]
        vals = [list(base)]
        for i in range(n):
            for x in DOUBLES:
                v = list(base)
                v[i] = x
                vals.append(v)
        for v in vals:
            if t == "list":
                f = v
            elif t == "tuple":
                f = tuple(v)
            elif t == "f64":
                f = np.asarray(v, dtype=np.float64)
            elif t == "f32":
                f = np.asarray(v, dtype=np.float32)
            elif t == "mixed":
                f = [np.float64(a) if i % 2 else a for i, a in enumerate(v)]
            elif t == "npfloat":
                f = [np.float64(a) for a in v]
            else:
                f = [int(a) if np.isfinite(a) and abs(a) < 1e6 else 3 for a in v]
            self.roundtrip(ctx, d, g["fmt"], 12.25, -7.5, f, f"{g['fmt']} {t} {v}")
        ctx.interesting(n > 0)

    def do_long(self, g, ctx, d):
        """Long lists, large datasets and images: nothing is cut off."""
        n = g["n"]
        i = np.arange(n)
        if n <= 1100:
            facts = [float(v) for v in np.sin(i + 1.0) * 10.0 ** (-(i % 40))]
            for fmt in ("txt", "json"):
                self.roundtrip(ctx, d, fmt, 12.25, -7.5, facts, f"{fmt} {n} coefficients")
        obj = [[float(v), [int(v), str(v)]] for v in i]
        arr = [np.column_stack((i, i * 0.5)), i.astype(np.int16)]
        for o in (obj, arr, [i] * min(n, 3000)):
            p = ctx.call(losa.save_python_list, os.path.join(d, "l.pkl"), o)
            r = ctx.call(losa.load_python_list, p)
            ok = len(r) == len(o) and all((np.array_equal(a, b) and a.dtype == b.dtype) if isinstance(a, np.ndarray) else a == b for a, b in zip(o, r))
            ctx.check(ok, lambda: f"a list of {len(o)} items of {n} loads as {len(r)} items or with other values")
        mats = [(i * 0.37).astype(np.float32).reshape(1, n), (i % 251).astype(np.uint8).reshape(n, 1), (i % 251).astype(np.uint8).reshape(1, n)]
        mats.append(((np.arange(min(n, 1100) * 300) * 7) % 253).astype(np.uint8).reshape(-1, 300))
        mats.append(mats[-1].T.astype(np.float32) - 0.5)
        for a in mats:
            for ext in (".tif",) + ((".png",) if a.dtype == np.uint8 else ()):
                p = ctx.call(losa.save_image, os.path.join(d, "i" + ext), a)
                r = ctx.call(losa.load_image, p)
                ctx.check(r.shape == a.shape and np.array_equal(r, a.astype(np.float32)), lambda: f"{a.dtype} image {a.shape} saved as {ext} loads different")
            p = ctx.call(losa.save_hdf_file, os.path.join(d, "h.hdf"), a)
            r = ctx.call(losa.load_hdf_file, p, "entry/data")
            ctx.check(r.shape == a.shape and r.dtype == a.dtype and np.array_equal(r, a), lambda: f"{a.dtype} dataset {a.shape} loads different")
            ctx.outcome(np.asarray(a.shape))
        ctx.interesting()

    # -- names -------------------------------------------------------------
    def do_name(self, g, ctx, d):
        fmt, ext = g["fmt"], g["ext"]
        good = {"txt": {".txt", ".dat"}, "json": {".json"}, "pkl": {".pkl"}, "hdf": {".hdf", ".h5", ".nxs", ".hdf5"}}
        good["stream"] = good["hdf"]
        std = {"txt": ".txt", "json": ".json", "pkl": ".pkl", "hdf": ".hdf", "stream": ".hdf"}[fmt]
        k = 0
        for name in NAMES:
            for sub in ("", "n1", os.path.join("n1", "n2"), os.path.join("v1.5", "n")):
                for conv in (str, Path):
                    k += 1
                    root = os.path.join(d, f"c{k}", sub)
                    full = os.path.join(root, name + ext)
                    what = f"{fmt} {conv.__name__} {sub}/{name}{ext}"
                    arr = np.arange(6.0).reshape(2, 3) + k
                    if fmt in ("txt", "json"):
                        save, load = self.saver(fmt)
                        p = ctx.call(save, conv(full), 1.5, k + .25, [1.0, k])
                        p = self.path(ctx, p, std, what)
                        ctx.check(tuple(map(str, ctx.call(load, p))) == tuple(map(str, (1.5, k + .25, [1.0, float(k) if fmt == "txt" else k]))),
                                  lambda: f"{what}: loaded {load(p)}")
                    elif fmt == "pkl":
                        p = self.path(ctx, ctx.call(losa.save_python_list, conv(full), [k, "a"]), std, what)
                        ctx.check(ctx.call(losa.load_python_list, p) == [k, "a"], lambda: f"{what}: wrong content")
                    elif fmt == "hdf":
                        p = self.path(ctx, ctx.call(losa.save_hdf_file, conv(full), arr), std, what)
                        ctx.check(np.array_equal(ctx.call(losa.load_hdf_file, p), arr), lambda: f"{what}: wrong content")
                    else:
                        s = ctx.call(losa.open_hdf_stream, conv(full), (2, 3))
                        s[:] = arr
                        p = s.file.filename
                        s.file.close()
                        p = self.path(ctx, p, std, what)
                        ctx.check(np.array_equal(ctx.call(losa.load_hdf_file, p, "entry/data"), arr), lambda: f"{what}: wrong content")
                    pp = Path(p)
                    want = full if Path(full).suffix.lower() in good[fmt] else str(Path(full).with_suffix(std))
                    ctx.check(os.path.realpath(p) == os.path.realpath(want), lambda: f"{what}: saved at {p}, expected {want}")
                    ctx.check(sorted(os.listdir(pp.parent)) == [pp.name], lambda: f"{what}: folder has {os.listdir(pp.parent)}")
                    ctx.outcome(pp.name)
        ctx.interesting()

    # -- python objects and hdf -----------------------------------------------
    def objects(self):
        a = [np.float32(1.5), 2, "x", None, True]
        return [[], [1], [[1, 2], [3, [4, [5]]]], a, [a, a], list(range(500)), [np.arange(5.0), np.zeros((2, 3), np.float32)],
                [(1, 2), {"k": [1]}], [float("inf"), -0.0, 5e-324], ["", "é\n\t"], [b"\x00\xff"], [[np.array([[1.0, 2.0]]), np.array([3], np.int16)]]]

    def eq(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, np.ndarray):
            return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, float):
            return bits(a) == bits(b)
        return a == b

    def do_pickle(self, g, ctx, d):
        o = self.objects()[g["i"]]
        for name in ("p.pkl", "q", "r.PKL"):
            p = self.path(ctx, ctx.call(losa.save_python_list, os.path.join(d, "sub", name), o), ".pkl", str(o))
            r = ctx.call(losa.load_python_list, p)
            ctx.check(self.eq(o, r), lambda: f"list {o!r} loaded as {r!r}")
            ctx.outcome(repr(r))
        ctx.interesting()

    def values(self, dt, s):
        n = int(np.prod(s))
        dt = np.dtype(dt)
        out = []
        if dt.kind == "f":
            fi = np.finfo(dt)
            pool = np.array([0, -0.0, 1, -1, fi.max, fi.min, fi.tiny, fi.eps, 1 / 3, np.inf, -np.inf], dt)
        elif dt.kind == "c":
            pool = np.array([0, 1j, -1, 2.5 - 3j], dt)
        elif dt.kind == "b":
            pool = np.array([True, False])
        else:
            ii = np.iinfo(dt)
            pool = np.array([0, 1, ii.max, ii.min, ii.max // 2, 3], dt)
        for off in range(len(pool)):
            out.append(np.resize(np.roll(pool, off), n).astype(dt).reshape(s))
        return out

    def do_hdf(self, g, ctx, d):
        s = g["s"]
        for i, arr in enumerate(self.values(g["dt"], s)):
            for key in ("entry", "a/b", "a/b/c", "data"):
                p = self.path(ctx, ctx.call(losa.save_hdf_file, os.path.join(d, "n", f"f{i}.hdf"), arr, key_path=key), ".hdf", str(g))
                o = ctx.call(losa.load_hdf_object, p, key + "/data")
                got = o[()]
                f = o.file
                ctx.check(o.dtype == arr.dtype and o.shape == arr.shape and np.asarray(got).tobytes() == arr.tobytes(),
                          lambda: f"{g} {key}: {arr!r} loaded as {got!r}")
                f.close()
                if len(s) == 2:
                    m = ctx.call(losa.load_hdf_file, p, key + "/data")
                    ctx.check(m.dtype == arr.dtype and m.tobytes() == arr.tobytes(), lambda: f"{g} {key}: load_hdf_file gives {m!r} for {arr!r}")
                elif len(s) == 3 and arr.dtype.kind != "c":
                    m = ctx.call(losa.load_hdf_file, p)
                    ctx.check(m.dtype == np.float32 and m.tobytes() == arr.astype(np.float32).tobytes(), lambda: f"{g} {key}: load_hdf_file gives {m!r} for {arr!r}")
                ctx.outcome(got)
        ctx.interesting()

    # -- images ----------------------------------------------------------------
    def image_values(self, dt, s, deep):
        h, w = s
        r = np.arange(h * w).reshape(h, w)
        if dt == "bool":
            return [r % 2 == 0, r % 3 == 0, np.zeros((h, w), bool), np.ones((h, w), bool)]
        if dt == "uint8":
            v = [r % 256, 255 - r % 256, r * 0, r * 0 + 255, (r * 37) % 256]
        elif dt == "float32":
            v = [r * 0.37 - 3.0, np.sqrt(r) * 1e-30, r * 1e30, r * 0.0, (r % 5) / 3.0, r * 0 + 254.0]
        elif dt == "float64":
            v = [r * 0.37 - 3.0, (r % 5) / 3.0, r * 1e-9 + 7.0, r * 1e200, r * 0 + 254.0]
        else:
            ii = np.iinfo(dt)
            v = [r % 5, r * 10 + 7, ii.max - r % 5, ii.min + (r % 2) * (ii.max // 2), np.where(r % 2, ii.max, ii.min), r * 0 + 9]
            if dt == "int64":
                v = v[:2] + v[5:]
        if deep:
            v += [r % 2, (r * r) % 11, np.where(r == r.max(), 100, 0)]
        return [np.asarray(a).astype(dt) for a in v]

    def do_img(self, g, ctx, d):
        for i, m in enumerate(self.image_values(g["dt"], g["s"], g["deep"])):
            keep = m.copy()
            for ext in (".tif", ".tiff", ".TIF", ".TIFF", ".Tif", ".png", ".PNG", ".bmp", ".jpg"):
                tif = ext.lower().startswith(".tif")
                if tif and g["dt"] not in ("float32", "uint8"):
                    continue
                p = self.path(ctx, ctx.call(losa.save_image, os.path.join(d, "deep", "im", f"i{i}{ext}"), m), ext, str(g))
                what = f"{g['dt']} {g['s']} pattern {i} {ext}"
                ctx.check(Path(p).suffix == ext and Path(p).stem == f"i{i}", lambda: f"{what}: saved at {p}")
                r = ctx.call(losa.load_image, p)
                ctx.check(r.shape == m.shape and r.dtype == np.float32, lambda: f"{what}: loaded shape {r.shape} {r.dtype}")
                if tif or g["dt"] == "uint8":
                    tol = 3 if ext == ".jpg" and np.ptp(m) <= 4 else None
                    if ext == ".jpg" and tol is None:
                        continue
                    ctx.check(np.array_equal(r, m.astype(np.float32)) if tol is None else np.abs(r - m).max() <= tol,
                              lambda: f"{what}: {m.tolist()} loaded as {r.tolist()}")
                elif ext != ".jpg":
                    a = m.astype(np.float64)
                    lo, hi = a.min(), a.max()
                    if lo == hi:
                        v = a
                        ctx.check(np.array_equal(r, v) if 0 <= lo <= 255 and lo == int(lo) else True, lambda: f"{what}: constant {lo} saved as {r.tolist()}")
                    else:
                        v = 255.0 * ((a - lo) / (hi - lo))
                        # truncation or rounding of the stretched value
                        ctx.check(np.all((r - v <= 0.51) & (v - r < 1.01)), lambda: f"{what}: {m.tolist()} saved as {r.tolist()}, stretched values are {v.tolist()}")
                        ctx.check(r.min() == 0 and r.max() >= 254, lambda: f"{what}: levels {r.min()}..{r.max()}")
                ctx.check(m.tobytes() == keep.tobytes(), f"{what}: the image given was changed")
                ctx.outcome(r)
        ctx.interesting()

    def do_rgb(self, g, ctx, d):
        h, w = g["s"]
        for c in (3, 4):
            m = ((np.arange(h * w * c) * 29) % 256).astype(np.uint8).reshape(h, w, c)
            p = self.path(ctx, ctx.call(losa.save_image, os.path.join(d, "q", f"c{c}.png"), m), ".png", str(g))
            r = ctx.call(losa.load_image, p, average=False)
            ctx.check(r.dtype == np.float32 and np.array_equal(r, m), lambda: f"colour {m.shape}: loaded {r.shape} {r.tolist()}")
            ctx.outcome(r)
        ctx.interesting()
