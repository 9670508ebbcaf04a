import itertools
import numpy as np
from mc import ref
from discorpy.util import utility as util

ref.require_repo()


def models(R):
    out = {}
    for k in (0.01, 0.03, 0.045, 0.06):
        out[f"b2:{k}"] = [1.0, 0.0, -k / R ** 2]
        out[f"b1:{k}"] = [1.0, -k / R]
        out[f"b4:{k}"] = [1.0, 0.2 * -k / R, -0.5 * k / R ** 2, 0.0, -0.3 * k / R ** 4]
        out[f"s:{k}"] = [1.0 - 2 * k]
        out[f"p2:{k}"] = [1.0, 0.0, k / R ** 2]
        out[f"p1:{k}"] = [1.0, k / R, 0.0, k / R ** 3]
    out["id"] = [1.0]
    out["ps"] = [1.2]
    return out


class Check:
    PID = "C07"
    RULE = "state = (shape, channels, centre, model); pads recovered from the returned image, compared with the undistorted position of every border pixel (bisection inverse)"
    BOUNDS = {"quick": "9 shapes up to 480 pixels, 9 centres, 26 models",
              "thorough": "16 shapes up to 900 pixels, 25 centres, 26 models, grey and colour"}

    def space(self, tier):
        deep = tier == "thorough"
        shapes = [(40, 40), (40, 64), (64, 40), (33, 100), (100, 33), (128, 120), (201, 160), (160, 201), (480, 320)]
        if deep:
            shapes += [(320, 480), (90, 91), (900, 300), (300, 900), (250, 250), (64, 65), (31, 30)]
        fr = [(0.5, 0.5), (0.4, 0.6), (0.6, 0.35), (0.25, 0.5), (0.5, 0.8), (0.3, 0.3), (0.72, 0.7), (0.8, 0.5), (0.5, 0.15)]
        if deep:
            fr = list(itertools.product((0.15, 0.3, 0.5, 0.65, 0.85), repeat=2))
        for s in shapes:
            for f in fr:
                for m in models(1.0):
                    yield {"s": list(s), "f": list(f), "m": m, "ch": 3 if deep and (s[0] + s[1]) % 2 else 0}

    def run(self, g, ctx):
        h, w = g["s"]
        xc, yc = round(g["f"][0] * (w - 1), 1), round(g["f"][1] * (h - 1), 1)
        R = max(np.hypot(x - xc, y - yc) for x in (0, w - 1) for y in (0, h - 1))
        co = models(R)[g["m"]]
        yy, xx = np.mgrid[0:h, 0:w].astype(np.float64)
        if g["ch"]:
            both = np.stack([xx + 5000, yy + 5000, xx + yy], axis=2)
            out = ctx.call(util.unwarp_color_image_backward, both, xc, yc, co, pad=True, pad_mode="linear_ramp")
            ox, oy = out[:, :, 0] - 5000, out[:, :, 1] - 5000
        else:
            ox = ctx.call(util.unwarp_color_image_backward, xx + 5000, xc, yc, co, pad=True) - 5000
            oy = ctx.call(util.unwarp_color_image_backward, yy + 5000, xc, yc, co, pad=True) - 5000
        H, W = ox.shape
        ctx.check(oy.shape == (H, W), "shapes differ")
        # locate the centre in the output
        d = np.hypot(ox - xc, oy - yc)
        i, j = np.unravel_index(int(np.argmin(d)), d.shape)
        dx, dy = ox[i, j] - xc, oy[i, j] - yc
        rd = np.hypot(dx, dy)
        ru = ref.inverse_radius(rd, co, 2 * R) if rd > 0 else 0.0
        f = ru / rd if rd > 0 else 1.0
        l, t = j - (xc + f * dx), i - (yc + f * dy)
        ctx.check(abs(l - round(l)) < 0.02 and abs(t - round(t)) < 0.02,
                  lambda: f"the centre of distortion is not at a whole-pixel pad offset: {(t, l)}")
        l, t = int(round(l)), int(round(t))
        r, b = W - w - l, H - h - t
        ctx.check(min(l, t, r, b) >= 0, lambda: f"pads top {t} bottom {b} left {l} right {r}")
        # undistorted positions of the border
        border = [(0, x) for x in range(w)] + [(h - 1, x) for x in range(w)] + \
                 [(y, 0) for y in range(h)] + [(y, w - 1) for y in range(h)]
        step = max(1, len(border) // 400)
        border = border[::step] + [(0, 0), (0, w - 1), (h - 1, 0), (h - 1, w - 1)]
        P = np.asarray(border, dtype=np.float64)
        dd = P - [yc, xc]
        rds = np.hypot(dd[:, 0], dd[:, 1])
        rmax = 3.0 * R
        ctx.check(ref.is_monotonic(co, R), "internal: model not monotonic")
        rr = np.linspace(0, rmax, 6001)
        vv = rr * ref.F(rr, co)
        top = int(np.argmax(np.maximum.accumulate(vv) > vv + 1e-12)) or len(rr)
        rr, vv = rr[:top], vv[:top]
        if vv[-1] < R:
            return  # not invertible over the field
        rus = np.interp(rds, vv, rr)
        fac = np.where(rds > 0, rus / np.maximum(rds, 1e-12), 1.0)
        U = [yc, xc] + fac[:, None] * dd
        barrel = g["m"][0] in "bs"
        ymin, ymax, xmin, xmax = U[:, 0].min(), U[:, 0].max(), U[:, 1].min(), U[:, 1].max()
        tol = 2.1 if g["m"][0] == "s" else 2.1 + 0.006 * max(h, w)
        if barrel:
            ctx.check(ymin + t >= -tol and xmin + l >= -tol and ymax + t <= H - 1 + tol and xmax + l <= W - 1 + tol,
                      lambda: f"field of view lost: border maps to y {ymin:.1f}..{ymax:.1f}, x {xmin:.1f}..{xmax:.1f}; pads top {t} bottom {b} left {l} right {r} of {(h, w)}")
            need = [max(0, -ymin), max(0, ymax - (h - 1)), max(0, -xmin), max(0, xmax - (w - 1))]
            ctx.check(all(p <= n + tol for p, n in zip((t, b, l, r), need)),
                      lambda: f"over-padded: pads {(t, b, l, r)} needed {need}")
        else:
            ctx.check((t, b, l, r) == (0, 0, 0, 0), lambda: f"padded {(t, b, l, r)} although nothing moves outside")
        ctx.outcome([t, b, l, r])
        ctx.interesting(t + b + l + r > 0)
