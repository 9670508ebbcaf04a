import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post

ref.require_repo()
MODES = ["reflect", "grid-mirror", "constant", "grid-constant", "nearest",
         "mirror", "grid-wrap", "wrap"]


def coefs(name, h, w):
    m = float(max(h, w))
    return {
        "id": [1, 0, 0, 0, 1, 0, 0, 0],
        "shift": [1, 0, 2.25, 0, 1, -1.5, 0, 0],
        "shifty": [1, 0, 0, 0, 1, 3.75, 0, 0],
        "scale": [0.7, 0, 1, 0, 1.3, 0, 0, 0],
        "shear": [1, 0.3, -1, -0.2, 1, 2, 0, 0],
        "rot": [0.9, -0.4, 0.2 * h, 0.4, 0.9, -0.2 * w, 0, 0],
        "swap": [0, 1, 0, 1, 0, 0, 0, 0],
        "persx": [1, 0, 0, 0, 1, 0, 0.4 / m, 0],
        "persy": [1, 0, 0, 0, 1, 0, 0, 0.5 / m],
        "pers": [1.1, 0.1, -2, 0.05, 0.9, 1, -0.2 / m, 0.3 / m],
        "horx": [1, 0.2, 3.3, 0.1, 1, -2.1, -1.9137 / m, 0],
        "hory": [-0.8, 0.1, -0.3 * w, 0.05, -0.9, -0.4 * h, 0, -2.3171 / m],
        "hor": [0.4, -0.3, 1.7, 0.2, 0.7, 2.2, -1.1171 / m, -1.3713 / m],
        "out": [1, 0, 5.0 * m, 0, 1, 0, 0, 0],
        "outn": [1, 0, -5.0 * m, 0, 1, -4.0 * m, 0, 0],
    }[name]


NAMES = ["id", "shift", "shifty", "scale", "shear", "rot", "swap", "persx", "persy", "pers", "horx", "hory", "hor", "out", "outn"]


class Check:
    PID = "C11"
    RULE = "state = (shape, dtype, coefficients, order, mode, index map); every output pixel compared with an independent projective mapping"
    BOUNDS = {"quick": "all shapes 1..6 x 1..6 and 14 larger x 15 coefficient sets x 3 images; 6 orders x 8 modes; 8 dtypes; user maps",
              "thorough": "all shapes 1..10 x 1..10 and 20 larger x 15 coefficient sets x 3 images; 6 orders x 8 modes x 4 shapes; 8 dtypes; user maps"}

    def space(self, tier):
        deep = tier == "thorough"
        n = 10 if deep else 6
        shapes = list(itertools.product(range(1, n + 1), repeat=2))
        shapes += [(7, 12), (12, 7), (33, 20), (20, 33), (64, 48), (48, 64), (130, 97), (97, 130), (300, 257), (600, 40), (40, 600), (1, 80), (80, 1), (1200, 1000), (2, 33000), (33000, 2)]
        if deep:
            shapes += [(513, 520), (2100, 33), (33, 2100), (64, 64), (255, 256), (700, 500)]
        for s in shapes:
            for c in NAMES:
                yield {"k": "geo", "s": list(s), "c": c}
        for s in ([(14, 23)] if not deep else [(14, 23), (23, 14), (7, 7), (40, 31)]):
            for order in range(6):
                for mode in MODES:
                    for c in ("pers", "shear", "shift"):
                        yield {"k": "om", "s": list(s), "c": c, "order": order, "mode": mode}
        for dt in ["uint8", "uint16", "int16", "int32", "uint32", "float32", "float64", "int64"]:
            for s in [(13, 21), (21, 13)]:
                for c in NAMES:
                    yield {"k": "dt", "s": list(s), "c": c, "dt": dt}
        for dt in ["int32", "uint32", "float64", "int64"]:
            for c in NAMES:
                yield {"k": "dt", "s": [12, 17], "c": c, "dt": dt, "base": 2 ** 30 - 300}
        for s in [(9, 14), (14, 9), (30, 30)]:
            for c in NAMES:
                yield {"k": "map", "s": list(s), "c": c}
        for n in list(range(0, 8)) + [9, 10, 16]:
            yield {"k": "bad", "n": n}

    def one(self, ctx, a, co, what, order=1, mode="reflect", yx=None, kw=None):
        h, w = a.shape
        keep = a.copy()
        got = ctx.call(post.correct_perspective_image, a, co, **(kw or {}))
        ctx.check(np.array_equal(keep, a), "input modified")
        ctx.check(got.shape == (h, w) and got.dtype == a.dtype, lambda: f"{what}: got {got.shape} {got.dtype}")
        if yx is None:
            yy, xx = np.mgrid[0:h, 0:w].astype(np.float64)
            d = co[6] * xx + co[7] * yy + 1
            x = np.clip((co[0] * xx + co[1] * yy + co[2]) / d, 0, w - 1)
            y = np.clip((co[3] * xx + co[4] * yy + co[5]) / d, 0, h - 1)
        else:
            y, x = yx
        exp = ref.interp(a, y, x, order, mode)
        eps = 4e-7 * max(h, w, 16) + 1e-6
        rel = 1e-5 if order > 1 else 3e-7 if a.dtype == np.float32 else 1e-11
        tol = rel * max(1.0, float(np.max(np.abs(a)))) + 4 * eps * (float(a.max() - a.min()) if order > 1 else ref.local_range(a, y, x))
        if np.issubdtype(a.dtype, np.integer):
            tol = tol + 0.501
            info = np.iinfo(a.dtype)
            exp = np.clip(exp, info.min, info.max)
        ok = np.abs(got.astype(np.float64) - exp) <= tol
        if order == 0:
            ok |= (np.abs(np.abs(y - np.floor(y)) - 0.5) < 2e-3) | (np.abs(np.abs(x - np.floor(x)) - 0.5) < 2e-3)
        ctx.check(bool(ok.all()), lambda: "{}: pixel {} is {} but the model gives {}".format(
            what, np.unravel_index(int(np.argmin(ok)), ok.shape),
            got[np.unravel_index(int(np.argmin(ok)), ok.shape)], exp[np.unravel_index(int(np.argmin(ok)), ok.shape)]))
        ctx.outcome(got)
        ctx.interesting(not np.array_equal(got, a))

    def run(self, g, ctx):
        if g["k"] == "bad":
            a = ref.texture(6, 7)
            ctx.raises(ValueError, post.correct_perspective_image, a, [1.0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0][:g["n"]])
            ctx.outcome(g["n"])
            return
        h, w = g["s"]
        co = coefs(g["c"], h, w)
        if g["k"] == "geo":
            yy, xx = np.mgrid[0:h, 0:w].astype(np.float64)
            for nm, a in (("rx", xx), ("ry", yy), ("tex", ref.texture(h, w))):
                self.one(ctx, a, co, f"{nm} {g}")
        elif g["k"] == "om":
            self.one(ctx, ref.texture(h, w), co, str(g), order=g["order"], mode=g["mode"],
                     kw={"order": g["order"], "mode": g["mode"]})
        elif g["k"] == "dt":
            self.one(ctx, (ref.texture(h, w) % 120 + g.get("base", 0)).astype(g["dt"]), np.asarray(co, float) if h > w else tuple(co), str(g))
        else:
            y, x = ref.backward_coords(h, w, 0.4 * w, 0.6 * h, ref.rel_coefs("five", 0.6 * max(h, w)))
            idx = (y.reshape(-1, 1), x.reshape(-1, 1))
            a = ref.texture(h, w)
            self.one(ctx, a, co, str(g), yx=(y, x), kw={"map_index": idx})
            self.one(ctx, a, co, str(g), yx=(y, x), kw={"map_index": np.asarray([y.ravel(), x.ravel()])})
            for order in (0, 2, 3, 5):
                for mode in ("reflect", "nearest", "mirror"):
                    self.one(ctx, a, co, f"{g} order {order} {mode} with a given map", order=order, mode=mode, yx=(y, x), kw={"map_index": idx, "order": order, "mode": mode})
