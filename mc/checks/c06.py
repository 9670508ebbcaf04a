import itertools
import numpy as np
from mc import ref
from discorpy.util import utility as util

ref.require_repo()
MODES = ["reflect", "grid-mirror", "constant", "grid-constant", "nearest",
         "mirror", "grid-wrap", "wrap"]
PADM = ["constant", "edge", "reflect", "symmetric", "mean", "linear_ramp", "wrap", "maximum"]
PADS = [False, 0, 1, 4, (1, 2, 3, 4), [4, 3, 2, 1], (0, 5, 0, 0), (0, 0, 6, 0), (7, 0, 0, 0), (0, 0, 0, 3), (0, 0, 0, 0), [2, 0, 5, 1]]


def make(h, w, ch, dt):
    if ch == 0:
        a = ref.texture(h, w)
    else:
        a = np.stack([ref.texture(h, w, 3 * k) for k in range(ch)], axis=2)
    if np.issubdtype(np.dtype(dt), np.integer):
        a = a % 120
    return a.astype(dt)


class Check:
    PID = "C06"
    RULE = "state = (shape, channels, dtype, pad setting, pad mode, order, mode, centre, model); every output pixel of every channel compared with an independent model applied to the padded image"
    BOUNDS = {"quick": "7 shapes (and 10 long or large ones) x 0..5 channels x 12 pads x 4 centres x 5 models; 8 pad modes x 6 orders x 8 modes; 7 dtypes; 12 invalid pad settings",
              "thorough": "16 shapes x 0..5 channels x 12 pads x 6 centres x 16 models; 8 pad modes x 6 orders x 8 modes x 3 pads; 7 dtypes"}

    def space(self, tier):
        deep = tier == "thorough"
        shapes = [(8, 12), (12, 8), (9, 9), (3, 3), (4, 2), (30, 41), (41, 30)]
        fr = [(0.5, 0.5), (0.2, 0.7), (0, 1), (1.2, -0.3)]
        cs = ["id", "grow", "barrel", "five", "linm"]
        if deep:
            shapes += [(3, 4), (4, 3), (5, 1), (1, 5), (64, 48), (100, 120), (2, 2), (16, 33), (33, 16)]
            fr += [(0.61, 0.41), (0.5, 0.1)]
            cs = ref.ALL
        for s in shapes:
            for ch in range(6):
                for p in range(len(PADS)):
                    for f in fr:
                        yield {"k": "geo", "s": list(s), "ch": ch, "p": p, "f": list(f), "cs": cs}
        for pm in PADM:
            for order in range(6):
                for mode in MODES:
                    for ch in (0, 3):
                        for p in ([4] if not deep else [4, 3, 11]):
                            yield {"k": "om", "s": [11, 15], "ch": ch, "p": p, "pm": pm, "order": order, "mode": mode}
        for dt in ["uint8", "uint16", "int16", "int32", "float32", "float64", "uint32"]:
            for ch in (0, 1, 3, 4):
                for p in range(len(PADS)):
                    yield {"k": "dt", "s": [10, 13], "ch": ch, "p": p, "dt": dt}
        for dt in ["int32", "float64", "uint32", "int64"]:
            for ch in (0, 3):
                for p in (0, 4, 3):
                    yield {"k": "dt", "s": [10, 13], "ch": ch, "p": p, "dt": dt, "base": 2 ** 30 - 300}
        for f in [(-7.0, 3.0), (60.0, -45.0), (0.4, 900.0)]:
            for ch in (0, 3):
                for p in (0, 4, 3):
                    yield {"k": "geo", "s": [9, 13], "ch": ch, "p": p, "f": list(f), "cs": cs, "far": 1}
        for s in [(2, 33000), (33000, 2)]:
            for ch in (0, 3):
                yield {"k": "geo", "s": list(s), "ch": ch, "p": 4, "f": [0.48, 0.53], "cs": ["five"]}
        for ch in (0, 3):
            yield {"k": "bad", "ch": ch}
        yield {"k": "geo", "s": [700, 900], "ch": 3, "p": 4, "f": [0.4, 0.6], "cs": ["five"]}
        for s in [(1001, 1003), (1100, 20), (20, 1100), (2100, 9), (9, 2100), (4200, 5), (5, 4200)]:
            for ch in (0, 3):
                yield {"k": "geo", "s": list(s), "ch": ch, "p": 0, "f": [0.4, 0.6], "cs": ["five"]}

    def one(self, ctx, a, xc, yc, co, pad, pm, order, mode, defaults=False):
        h, w = a.shape[:2]
        keep = a.copy()
        if defaults:
            got = ctx.call(util.unwarp_color_image_backward, a, xc, yc, co, pad=pad)
        else:
            got = ctx.call(util.unwarp_color_image_backward, a, xc, yc, co, order=order, mode=mode, pad=pad, pad_mode=pm)
        ctx.check(np.array_equal(keep, a), "input modified")
        if pad is False:
            t = b = l = r = 0
        elif isinstance(pad, int):
            t = b = l = r = pad
        else:
            t, b, l, r = pad
        pw = [(t, b), (l, r)] + ([(0, 0)] if a.ndim == 3 else [])
        q = np.pad(a, pw, mode=pm)
        what = f"shape {a.shape} {a.dtype} pad {pad} {pm} order {order} {mode} centre {(xc, yc)}"
        ctx.check(got.shape == q.shape, lambda: f"{what}: shape {got.shape} instead of {q.shape}")
        ctx.check(got.dtype == a.dtype, lambda: f"{what}: dtype {got.dtype}")
        H, W = q.shape[:2]
        y, x = ref.backward_coords(H, W, xc + l, yc + t, co)
        eps = 4e-7 * max(H, W, 16) + 1e-6
        for k in range(1 if a.ndim == 2 else a.shape[2]):
            im = q if a.ndim == 2 else q[:, :, k]
            g = got if a.ndim == 2 else got[:, :, k]
            exp = ref.interp(im, y, x, order, mode)
            rng = float(im.max() - im.min())
            rel = 1e-5 if order > 1 else 3e-7 if a.dtype == np.float32 else 1e-11
            tol = rel * max(1.0, float(np.max(np.abs(im)))) + 4 * eps * (rng if order > 1 else ref.local_range(im, y, x))
            if np.issubdtype(a.dtype, np.integer):
                tol = tol + 0.501
                info = np.iinfo(a.dtype)
                exp = np.clip(exp, info.min, info.max)
            ok = np.abs(g.astype(np.float64) - exp) <= tol
            if order == 0:
                ok |= (np.abs(np.abs(y - np.floor(y)) - 0.5) < 2e-3) | (np.abs(np.abs(x - np.floor(x)) - 0.5) < 2e-3)
            ctx.check(bool(ok.all()), lambda: "{}: channel {} pixel {} is {} but the model gives {}".format(
                what, k, np.unravel_index(int(np.argmin(ok)), ok.shape),
                g[np.unravel_index(int(np.argmin(ok)), ok.shape)], exp[np.unravel_index(int(np.argmin(ok)), ok.shape)]))
        ctx.outcome(got)
        ctx.interesting(t + b + l + r > 0)

    def run(self, g, ctx):
        if g["k"] == "bad":
            a = make(9, 11, g["ch"], "float32")
            for bad in [None, "abc", 2.5, (1, 2, 3), (1, 2, 3, 4, 5), [], (1,), [1, 2], {"a": 1}, np.float64(3.0), "constant", ()]:
                ctx.raises(ValueError, util.unwarp_color_image_backward, a, 4.0, 4.0, [1.0], pad=bad)
            ctx.outcome(g["ch"])
            return
        h, w = g["s"]
        R = max(1.0, 0.5 * np.hypot(h, w))
        pad = PADS[g["p"]]
        if g["k"] == "geo":
            a = make(h, w, g["ch"], "float64")
            xc, yc = g["f"][0] * (w - 1), g["f"][1] * (h - 1)
            if g.get("far"):
                R = max(np.hypot(cx - xc, cy - yc) for cx in (0, w - 1) for cy in (0, h - 1))
            for c in g["cs"]:
                self.one(ctx, a, xc, yc, ref.rel_coefs(c, R), pad, "constant", 1, "reflect", defaults=True)
        elif g["k"] == "om":
            a = make(h, w, g["ch"], "float64")
            for c in ("five", "grow"):
                self.one(ctx, a, 0.43 * w, 0.56 * h, ref.rel_coefs(c, R), pad, g["pm"], g["order"], g["mode"])
        else:
            a = make(h, w, g["ch"], g["dt"])
            a = (a + np.asarray(g.get("base", 0)).astype(a.dtype)).astype(a.dtype)
            self.one(ctx, a, 0.43 * w, 0.56 * h, ref.rel_coefs("fivep", R), pad, "edge", 1, "reflect")
