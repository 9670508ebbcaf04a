import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post

ref.require_repo()

MODES = ["reflect", "grid-mirror", "constant", "grid-constant", "nearest",
         "mirror", "grid-wrap", "wrap"]
DTYPES = ["float64", "float32", "uint8", "uint16", "int16", "int32", "uint32",
          "int64", ">f4", ">i2"]


def image(kind, h, w):
    yy, xx = np.mgrid[0:h, 0:w]
    if kind == "rx":
        return xx.astype(np.float64)
    if kind == "ry":
        return yy.astype(np.float64)
    if kind == "tex":
        return ref.texture(h, w)
    if kind == "smooth":
        return ref.smooth(h, w)
    raise ValueError(kind)


def centre(h, w, fx, fy):
    return fx * (w - 1), fy * (h - 1)


class Check:
    PID = "C01"
    RULE = ("state = (shape, dtype/layout, centre, coefficient list, order, mode, image); "
            "every output pixel compared with an independent float64 model of the mapping")
    BOUNDS = {
        "quick": "all shapes 1..4 x 1..4 with all half-integer centres from -1 to size, 24 larger shapes up to 1100x30 "
                 "with 8 centre positions and 16 coefficient families, 10 dtypes, all 6 orders x 8 modes",
        "thorough": "all shapes 1..7 x 1..7 with all half-integer centres, 45 larger shapes up to 2100 rows or columns with 14 centre positions "
                    "and 16 coefficient families, 10 dtypes and 5 memory layouts, all 6 orders x 8 modes on 8 shapes",
    }

    def space(self, tier):
        deep = tier == "thorough"
        n = 7 if deep else 4
        for h, w in itertools.product(range(1, n + 1), repeat=2):
            for cx2 in range(-2, 2 * w + 1):
                yield {"k": "small", "h": h, "w": w, "xc": cx2 / 2}
        shapes = [(7, 12), (12, 7), (9, 9), (16, 16), (33, 20), (20, 33), (64, 48),
                  (48, 64), (63, 65), (130, 97), (97, 130), (128, 128), (257, 300), (300, 257),
                  (600, 40), (40, 600), (1100, 30), (30, 1100), (2, 50), (50, 2), (1, 80),
                  (80, 1), (255, 256), (3, 513)]
        if deep:
            shapes += [(513, 520), (2100, 33), (33, 2100), (511, 64), (64, 511), (1024, 16), (16, 1024), (5, 5), (6, 11),
                       (11, 6), (17, 31), (31, 17), (100, 101), (101, 100), (200, 199), (199, 200),
                       (350, 351), (10, 10), (8, 8), (32, 32), (700, 500)]
        fr = [(0.5, 0.5), (0.3, 0.62), (0, 0), (1, 1), (-0.3, 0.4), (0.7, 1.4), (0.513, 0.481), (1.2, -0.2)]
        if deep:
            fr += [(0, 1), (1, 0), (0.25, 0.75), (2.0, 2.0), (-1.0, 0.5), (0.5, -1.0)]
        for s in shapes:
            for fx, fy in fr:
                for c in ref.ALL:
                    yield {"k": "big", "h": s[0], "w": s[1], "fx": fx, "fy": fy, "c": c}
        for s in [(2050, 2100), (3000, 1500)]:
            for c in (["five"] if not deep else ["five", "pin", "lin", "strong"]):
                yield {"k": "big", "h": s[0], "w": s[1], "fx": 0.48, "fy": 0.53, "c": c}
        for s in ([(14, 23), (23, 14)] if not deep else
                  [(14, 23), (23, 14), (7, 7), (40, 31), (5, 60), (60, 5), (2, 3), (64, 64)]):
            for order in range(6):
                for mode in MODES:
                    for c in (["five", "grow"] if not deep else ref.ALL):
                        yield {"k": "om", "h": s[0], "w": s[1], "order": order, "mode": mode, "c": c}
        for d in DTYPES:
            for s in [(13, 21), (21, 13)]:
                for lay in (["C", "F", "rev", "stride"]):
                    for c in (["fivep", "barrel"] if not deep else ref.ALL):
                        yield {"k": "dt", "h": s[0], "w": s[1], "dt": d, "lay": lay, "c": c}

        # centres far away, sides beyond 16-bit indices, values beyond single precision
        for s in [(14, 23), (40, 31), (3, 200)]:
            for far in [(-7.0, 3.0), (12.0, -9.0), (60.0, 45.0), (-300.0, 0.4), (0.6, 2000.0)]:
                for c in ["id", "grow", "lin", "barrel", "pin", "five", "fivep", "strong"]:
                    yield {"k": "far", "h": s[0], "w": s[1], "fx": far[0], "fy": far[1], "c": c}
        for n in [32768, 33000] + ([65537, 70000] if deep else []):
            for h, w in ((2, n), (n, 2)):
                for c in (["lin", "barrel"] if not deep else ref.ALL):
                    yield {"k": "big", "h": h, "w": w, "fx": 0.48, "fy": 0.53, "c": c}
        for d in ("float64", "int32", "uint32", "int64"):
            for c in ["five", "pin", "strong", "lin", "id"]:
                yield {"k": "val", "h": 17, "w": 13, "dt": d, "c": c}

    def compare(self, ctx, img, xc, yc, coefs, order, mode, got, what):
        h, w = img.shape
        ctx.check(isinstance(got, np.ndarray) and got.shape == (h, w),
                  lambda: f"{what}: output shape {getattr(got, 'shape', None)} instead of {(h, w)}")
        ctx.check(got.dtype == img.dtype or got.dtype == img.dtype.newbyteorder("="),
                  lambda: f"{what}: output dtype {got.dtype} for input {img.dtype}")
        y, x = ref.backward_coords(h, w, xc, yc, coefs)
        exp = ref.interp(img, y, x, order, mode)
        eps = 4e-7 * max(h, w, 16) + 1e-6
        rng = float(np.max(img) - np.min(img)) if img.size else 0.0
        rel = 1e-5 if order > 1 else 3e-7 if img.dtype.itemsize < 8 and img.dtype.kind == "f" else 1e-11
        tol = np.full(exp.shape, rel * max(1.0, float(np.max(np.abs(img)))))
        tol += 4 * eps * (rng if order > 1 else ref.local_range(img, y, x))
        if np.issubdtype(img.dtype, np.integer):
            tol += 0.501
            info = np.iinfo(img.dtype)
            exp = np.clip(exp, info.min, info.max)
        diff = np.abs(got.astype(np.float64) - exp)
        ok = diff <= tol
        if order == 0:
            amb = (np.abs(np.abs(y - np.floor(y)) - 0.5) < 4 * eps + 1e-3) | \
                  (np.abs(np.abs(x - np.floor(x)) - 0.5) < 4 * eps + 1e-3)
            ok |= amb
        ctx.check(bool(np.all(ok)), lambda: "{}: pixel {} is {} but the model gives {}".format(
            what, np.unravel_index(int(np.argmin(ok)), ok.shape),
            got[np.unravel_index(int(np.argmin(ok)), ok.shape)],
            exp[np.unravel_index(int(np.argmin(ok)), ok.shape)]))
        ctx.outcome(got)
        ctx.interesting(bool(np.any(np.abs(y - np.mgrid[0:h, 0:w][0]) > 0.25)))

    def run(self, g, ctx):
        h, w = g["h"], g["w"]
        f = post.unwarp_image_backward
        R = max(1.0, 0.5 * np.hypot(h, w))
        if g["k"] == "small":
            xc = g["xc"]
            img = ref.texture(h, w)
            for cy2 in range(-2, 2 * h + 1):
                yc = cy2 / 2
                if yc == int(yc):
                    yc = int(yc)
                if xc == int(xc):
                    xc = int(xc)
                for c in ("id", "grow", "lin", "barrel", "five", "mirror"):
                    co = ref.rel_coefs(c, R)
                    if c == "id":
                        co = [1, 0]
                    got = ctx.call(f, img, xc, yc, co)
                    self.compare(ctx, img, xc, yc, co, 1, "reflect", got, f"c={c} centre=({xc},{yc})")
        elif g["k"] == "big":
            xc, yc = centre(h, w, g["fx"], g["fy"])
            co = ref.rel_coefs(g["c"], R)
            for kind in ("rx", "ry", "tex"):
                img = image(kind, h, w)
                got = ctx.call(f, img, xc, yc, co)
                self.compare(ctx, img, xc, yc, co, 1, "reflect", got, f"{kind} {g}")
        elif g["k"] == "far":
            xc, yc = centre(h, w, g["fx"], g["fy"])
            co = ref.rel_coefs(g["c"], max(np.hypot(cx - xc, cy - yc) for cx in (0, w - 1) for cy in (0, h - 1)))
            # scaled so that the image stays in view
            y, x = ref.radial((h - 1) / 2.0, (w - 1) / 2.0, xc, yc, co)
            k = np.hypot((w - 1) / 2.0 - xc, (h - 1) / 2.0 - yc) / max(1e-9, np.hypot(x - xc, y - yc))
            for z in (k, 1.0):
                cz = [z * v for v in co]
                for kind in ("rx", "ry", "tex"):
                    img = image(kind, h, w)
                    got = ctx.call(f, img, xc, yc, cz)
                    self.compare(ctx, img, xc, yc, cz, 1, "reflect", got, f"{kind} {g}")
        elif g["k"] == "val":
            xc, yc = centre(h, w, 0.41, 0.53)
            co = ref.rel_coefs(g["c"], R)
            for base in (2.0 ** 25 + 1, 2.0 ** 30 - 300) + ((1e12,) if g["dt"] in ("float64", "int64") else ()):
                img = (ref.texture(h, w) + base).astype(g["dt"])
                for order in (0, 1):
                    got = ctx.call(f, img, xc, yc, co, order=order)
                    self.compare(ctx, img, xc, yc, co, order, "reflect", got, f"{g} base {base} order {order}")
        elif g["k"] == "om":
            xc, yc = centre(h, w, 0.45, 0.57)
            co = ref.rel_coefs(g["c"], R)
            for kind in ("tex", "smooth"):
                img = image(kind, h, w)
                got = ctx.call(f, img, xc, yc, co, order=g["order"], mode=g["mode"])
                self.compare(ctx, img, xc, yc, co, g["order"], g["mode"], got, f"{kind} {g}")
        else:
            xc, yc = centre(h, w, 0.41, 0.53)
            co = ref.rel_coefs(g["c"], R)
            if g["lay"] in ("F", "rev"):
                co = tuple(co)
            if g["lay"] == "stride":
                co = np.asarray(co)
            a = (ref.texture(h, w) % 120).astype(g["dt"])
            if g["lay"] == "F":
                a = np.asfortranarray(a)
            elif g["lay"] == "rev":
                a = a[::-1, ::-1]
            elif g["lay"] == "stride":
                b = np.zeros((2 * h, 3 * w), dtype=g["dt"])
                b[::2, ::3] = a
                a = b[::2, ::3]
            keep = a.copy()
            got = ctx.call(f, a, xc, yc, co)
            self.compare(ctx, keep, xc, yc, co, 1, "reflect", got, f"{g}")
            ctx.check(np.array_equal(a, keep), "input image was modified")
