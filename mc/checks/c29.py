import zlib
import warnings
import numpy as np
from mc import ref, dots
from discorpy.prep import preprocessing as prep

ref.require_repo()
DT = [np.int16, np.uint8, np.float32, np.int64, np.float64]


class Check:
    PID = "C29"
    RULE = "state = (lattice, tilt, image size, central region); slopes compared with the tangent of the drawn tilt, signs and transposition included; lines grouped with them compared with the drawn rows and columns"
    BOUNDS = {"quick": "4 image sizes and regions x 2 dot sizes x 15 tilts (-25..25 deg) x 2 offsets",
              "thorough": "8 image sizes and regions x 3 dot sizes x 31 tilts (-25..25 deg) x 4 offsets"}

    def space(self, tier):
        deep = tier == "thorough"
        tl = np.linspace(-25, 25, 31 if deep else 15)
        for h, w, d, ratio in [(240, 240, 20, 1.0), (480, 480, 18, 0.4), (300, 220, 20, 0.9), (220, 320, 20, 0.8)] + ([(500, 640, 22, 0.45), (640, 480, 20, 0.5), (400, 400, 30, 0.8), (260, 250, 17, 0.7)] if deep else []):
            for r in (0.22, 0.15, 0.3) if deep else (0.22, 0.3):
                for o in [(0.0, 0.0), (3.3, -4.2)] + ([(7.7, 1.9), (-0.5, 8.5)] if deep else []):
                    for t in tl:
                        yield {"g": [h, w, d, ratio], "r": r, "t": float(t), "o": list(o)}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        h, w, d, ratio = g["g"]
        L = dots.lattice(h, w, d, g["t"], *g["o"])
        img = dots.draw(h, w, list(L.values()), g["r"] * d).astype(DT[zlib.crc32(repr(sorted(g.items())).encode()) % len(DT)])
        s = np.tan(np.deg2rad(g["t"]))
        n = min(h, w) * ratio / d
        tol = 0.1 / n
        kp = img.copy()
        a = ctx.call(prep.calc_hor_slope, img, ratio=ratio)
        b = ctx.call(prep.calc_ver_slope, img, ratio=ratio)
        ctx.check(np.array_equal(img, kp), "input modified")
        ctx.check(abs(a - s) < tol, lambda: f"{g}: horizontal slope {a} instead of {s}")
        ctx.check(abs(b + s) < tol, lambda: f"{g}: vertical slope {b} instead of {-s}")
        # exchange of x and y exchanges the two, a mirror image changes the sign
        c = ctx.call(prep.calc_ver_slope, img.T, ratio=ratio)
        ctx.check(abs(c - s) < tol, lambda: f"{g}: vertical slope of the transposed image {c} instead of {s}")
        m = ctx.call(prep.calc_hor_slope, img[:, ::-1], ratio=ratio)
        ctx.check(abs(m + s) < tol, lambda: f"{g}: horizontal slope of the mirror image {m} instead of {-s}")
        ctx.outcome([round(float(a), 3), round(float(b), 3)])
        # feeding the slopes to the grouping gives the drawn rows and columns
        key = {k: np.asarray(v) for k, v in L.items() if 4 < v[0] < h - 5 and 4 < v[1] < w - 5}
        pts = np.asarray(list(key.values()))
        ids = list(key)
        for f, sl, ax in ((prep.group_dots_hor_lines, a, 0), (prep.group_dots_ver_lines, b, 1)):
            for l in ctx.call(f, pts, sl, d, ratio=0.3, num_dot_miss=3, accepted_ratio=0.5):
                k = [ids[int(np.abs(pts - q).sum(axis=1).argmin())][ax] for q in l]
                ctx.check(len(set(k)) == 1, lambda: f"{g}: a line grouped with the measured slope has dots of rows {sorted(set(k))}")
                ctx.check(len(l) == sum(1 for i in ids if i[ax] == k[0]), lambda: f"{g}: line {k[0]} is incomplete")
        ctx.interesting(g["t"] != 0)
