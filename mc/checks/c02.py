import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post

ref.require_repo()
CO = ["id", "grow", "shrink", "lin", "barrel", "pin", "five", "strong"]


def stack(d, h, w, dt):
    a = np.stack([ref.texture(h, w, k) for k in range(d)])
    if dt in ("uint8", "int16", "uint16", "int32"):
        a = a % 251
    return a.astype(dt)


class Check:
    PID = "C02"
    RULE = ("state = (stack shape, dtype, centre, model, start, stop); transition = one slice/chunk call; every "
            "returned row compared with an independent model of whole-frame correction and with the library's own whole-frame result")
    BOUNDS = {
        "quick": "all stacks up to 2x6x5, all slices, all (start, stop) ranges incl. -1 and all rejected ranges within 2 of the border; 9 larger stacks; long, wide and deep ones up to 4200x3, 3x33000 and 260 frames; heights 32700..70000",
        "thorough": "all stacks up to 3x9x7, all ranges; 16 larger stacks with all ranges of a stride; heights 32700..140000",
    }

    def space(self, tier):
        deep = tier == "thorough"
        H, W, D = (9, 7, 3) if deep else (6, 5, 2)
        for d, h, w in itertools.product(range(1, D + 1), range(1, H + 1), range(1, W + 1)):
            for c in CO:
                for ci in range(5):
                    yield {"k": "small", "s": [d, h, w], "c": c, "ci": ci, "dt": "float64"}
        big = [(2, 64, 48), (3, 33, 57), (2, 57, 33), (1, 300, 20), (1, 20, 300), (2, 128, 128), (5, 17, 16), (1, 200, 201), (12, 9, 8)]
        if deep:
            big += [(1, 600, 64), (2, 257, 258), (40, 12, 15), (1, 64, 600), (4, 100, 90), (2, 90, 100), (1, 1025, 33)]
        for s in big:
            for c in CO:
                for ci in range(5):
                    for dt in (["float32"] if not deep else ["float32", "float64"]):
                        yield {"k": "big", "s": list(s), "c": c, "ci": ci, "dt": dt, "n": 12 if deep else 6}
        for dt in ["uint8", "uint16", "int16", "int32", "float32", "float64"]:
            for s in [(2, 12, 19), (2, 19, 12)]:
                for c in CO:
                    for src in ("array", "hdf", "strided"):
                        yield {"k": "dt", "s": list(s), "c": c, "ci": 1, "dt": dt, "src": src}
        for s in [(17, 9, 6), (40, 5, 7), (70, 4, 3)] + ([(300, 6, 5), (1000, 3, 4)] if deep else []):
            for c in CO:
                for dt in ("float32", "uint16"):
                    yield {"k": "small", "s": list(s), "c": c, "ci": 1, "dt": dt}
        for s in [(2, 9, 14), (1, 30, 11)]:
            for c in CO:
                for ci in (5, 6, 7, 8):
                    yield {"k": "small" if s[1] < 10 else "big", "s": list(s), "c": c, "ci": ci, "dt": "float64", "n": 6}
        tall = [32700, 32767, 32768, 32769, 40000, 65535, 65537, 70000]
        if deep:
            tall += [33000, 50000, 100000, 131073, 140000]
        for h in tall:
            for c in ["id", "barrel", "pin", "lin"]:
                yield {"k": "tall", "s": [1, h, 3], "c": c, "dt": "float32"}
                yield {"k": "tall", "s": [1, h, 3], "c": c, "dt": "float64"}
        for s in [(1, 5, 700), (1, 4, 1100), (1, 3, 2100), (1, 3, 4200), (130, 3, 3), (260, 2, 3), (1, 3, 33000)]:
            for c in CO:
                yield {"k": "small", "s": list(s), "c": c, "ci": 1, "dt": "float64"}
        for s in [(1, 700, 6), (1, 1100, 5), (1, 2100, 4), (1, 4200, 3)]:
            for c in CO:
                yield {"k": "big", "s": list(s), "c": c, "ci": 1, "dt": "float32", "n": 3}
        for d in (1, 2):
            for h in (1, 3, 5):
                yield {"k": "rej", "s": [d, h, 4]}
        yield {"k": "rej", "s": [1, 400, 3]}
        yield {"k": "rej", "s": [1, 40000, 2]}

    def rows(self, a, xc, yc, co, r0, r1):
        """Reference: rows r0..r1 (inclusive) of every corrected frame."""
        d, h, w = a.shape
        yy, xx = np.mgrid[r0:r1 + 1, 0:w]
        y, x = ref.radial(yy, xx, xc, yc, co)
        y = np.clip(y, 0, h - 1)
        x = np.clip(x, 0, w - 1)
        return np.stack([ref.bilinear(a[i], y, x) for i in range(d)]), y, x

    def tol(self, a, y, x, h, w):
        t = 1e-5 * max(1.0, float(np.max(np.abs(a))))
        rng = 201.0
        eps = 1.3e-7 * max(h, w, 16) + 2e-6
        t += 3 * eps * rng
        if np.issubdtype(a.dtype, np.integer):
            t += 0.501
        return t

    def run(self, g, ctx):
        d, h, w = g["s"]
        if g["k"] == "rej":
            return self.reject(g, ctx)
        a = stack(d, h, w, g["dt"])
        R = max(1.0, 0.5 * np.hypot(h, w))
        co = ref.rel_coefs(g["c"], R)
        fx, fy = [(0.5, 0.5), (0.3, 0.65), (0.0, 0.0), (1.3, 0.8), (0.6, -0.4), (-7.0, 3.0), (60.0, -45.0), (0.4, 900.0), (-200.0, 0.3)][g.get("ci", 0)]
        xc, yc = fx * (w - 1), fy * (h - 1)
        if g.get("ci", 0) > 4:
            co = ref.rel_coefs(g["c"], max(np.hypot(cx - xc, cy - yc) for cx in (0, w - 1) for cy in (0, h - 1)))
            y, x = ref.radial((h - 1) / 2.0, (w - 1) / 2.0, xc, yc, co)
            k = np.hypot((w - 1) / 2.0 - xc, (h - 1) / 2.0 - yc) / np.hypot(x - xc, y - yc)
            co = [k * v for v in co]
        if not ref.is_monotonic(co, 3.0 * R):
            rmax = max(np.hypot(cx - xc, cy - yc) for cx in (0, w - 1) for cy in (0, h - 1))
            if not ref.is_monotonic(co, rmax):
                return
        if g["k"] == "small":
            idx = list(range(h))
            rng = [(s, e) for s in range(h) for e in range(s, h)]
            rng += [(s, -1) for s in range(h)]
        elif g["k"] == "big":
            n = g["n"]
            step = max(1, h // n)
            idx = sorted(set(list(range(0, h, step)) + [h - 1, h - 2, h // 2]))
            pts = sorted(set(list(range(0, h, 2 * step)) + [h - 1]))
            rng = [(s, e) for s in pts for e in pts if e >= s] + [(s, -1) for s in pts]
        elif g["k"] == "dt":
            idx = list(range(h))
            rng = [(0, h - 1), (0, -1), (2, h - 3), (h - 1, h - 1), (h // 2, h // 2 + 1), (np.int64(1), np.int32(4))]
        else:
            idx = [0, 1, h // 3, h // 2, h - 2, h - 1, min(h - 1, 32767), min(h - 1, 32766), min(h - 1, 32768)]
            rng = [(0, 2), (h - 3, h - 1), (h - 2, -1), (h // 2 - 1, h // 2 + 1), (h - 40, h - 30),
                   (32690, min(h - 1, 32790))]
        src = a
        hf = None
        if g.get("src") == "hdf":
            import h5py
            hf = h5py.File("mem.h5", "w", driver="core", backing_store=False)
            src = hf.create_dataset("d", data=a)
        elif g.get("src") == "strided":
            b = np.zeros((d, h, 2 * w), dtype=a.dtype)
            b[:, :, ::2] = a
            src = b[:, :, ::2]
        try:
            for i in idx:
                got = ctx.call(post.unwarp_slice_backward, src, xc, yc, co, i)
                exp, y, x = self.rows(a, xc, yc, co, i, i)
                t = self.tol(a, y, x, h, w)
                ctx.check(got.shape == (d, w), f"slice {i}: shape {got.shape} instead of {(d, w)}")
                dev = np.max(np.abs(got.astype(np.float64) - exp[:, 0, :]))
                ctx.check(dev <= t, lambda: f"slice {i} of stack {g['s']} deviates by {dev} from the rows of the corrected frames")
                ctx.outcome(got)
            whole = None
            if h * w <= 4000 or g["k"] == "dt":
                whole = np.stack([ctx.call(post.unwarp_image_backward, a[k], xc, yc, co) for k in range(d)])
            for s, e in rng:
                got = ctx.call(post.unwarp_chunk_slices_backward, src, xc, yc, co, s, e)
                e2 = h - 1 if e == -1 else int(e)
                s2 = int(s)
                exp, y, x = self.rows(a, xc, yc, co, s2, e2)
                t = self.tol(a, y, x, h, w)
                ctx.check(got.shape == (d, e2 - s2 + 1, w),
                          lambda: f"chunk {s}..{e}: shape {got.shape} instead of {(d, e2 - s2 + 1, w)}")
                dev = np.max(np.abs(got.astype(np.float64) - exp))
                ctx.check(dev <= t, lambda: f"chunk {s}..{e} of stack {g['s']} deviates by {dev} from the rows of the corrected frames")
                if whole is not None:
                    dev2 = np.max(np.abs(got.astype(np.float64) - whole[:, s2:e2 + 1, :].astype(np.float64)))
                    lim = 1.0 if np.issubdtype(a.dtype, np.integer) else 2 * t
                    ctx.check(dev2 <= lim, lambda: f"chunk {s}..{e} deviates by {dev2} from the library's whole-frame result")
                ctx.outcome(got)
                ctx.interesting(g["c"] != "id")
        finally:
            if hf is not None:
                hf.close()

    def reject(self, g, ctx):
        d, h, w = g["s"]
        a = stack(d, h, w, "float64")
        f = post.unwarp_chunk_slices_backward
        for s, e in [(h, h), (0, h), (0, h + 1), (-1, 0), (-2, h - 1), (h, -1), (0, -2), (h + 5, h + 9), (0, h + 70000), (-h, h - 1)]:
            ctx.raises(ValueError, f, a, 1.0, 1.0, [1.0], s, e)
        for b in (a[0], a[0, 0], a[None]):
            ctx.raises(ValueError, f, b, 1.0, 1.0, [1.0], 0, 0)
            ctx.raises(ValueError, post.unwarp_slice_backward, b, 1.0, 1.0, [1.0], 0)
        ctx.outcome(g["s"])
