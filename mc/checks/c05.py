import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post

ref.require_repo()


class Check:
    PID = "C05"
    RULE = "state = (shape, dtype, centre, coefficients); every output pixel compared with the set of source values that map onto it (independent scatter), vacant pixels must be zero"
    BOUNDS = {"quick": "all shapes 1..5 x 1..5 with all half-integer centres x 16 models; 12 larger shapes up to 300 pixels x 5 centres x 16 models; 9 long or large shapes up to a million pixels; 5 dtypes",
              "thorough": "all shapes 1..7 x 1..7 with all half-integer centres x 16 models; 20 larger shapes x 9 centres; 7 dtypes"}

    def space(self, tier):
        deep = tier == "thorough"
        n = 7 if deep else 5
        for h, w in itertools.product(range(1, n + 1), repeat=2):
            for cx2 in range(-2, 2 * w + 1):
                yield {"k": "small", "h": h, "w": w, "xc": cx2 / 2}
        shapes = [(7, 12), (12, 7), (33, 20), (20, 33), (64, 48), (48, 64), (100, 101), (300, 40), (40, 300), (128, 128), (1, 50), (50, 1)]
        fr = [(0.5, 0.5), (0.3, 0.62), (0, 0), (1.3, 0.4), (0.513, -0.2)]
        if deep:
            shapes += [(257, 300), (300, 257), (600, 20), (20, 600), (513, 511), (16, 16), (31, 32), (2, 3)]
            fr += [(0, 1), (1, 0), (0.4, 0.9), (2, 2)]
        for s in shapes:
            for f in fr:
                for c in ref.ALL:
                    for dt in ["float64"]:
                        yield {"k": "big", "h": s[0], "w": s[1], "fx": f[0], "fy": f[1], "c": c, "dt": dt}
        for dt in ["uint8", "uint16", "int32", "float32", "int16", "bool", "complex64"]:
            for s in [(12, 19), (19, 12)]:
                for c in ref.ALL:
                    yield {"k": "big", "h": s[0], "w": s[1], "fx": 0.45, "fy": 0.6, "c": c, "dt": dt}

        for far in [(-7.0, 3.0), (60.0, -45.0), (0.4, 900.0)]:
            for c in ref.ALL:
                yield {"k": "far", "h": 13, "w": 17, "fx": far[0], "fy": far[1], "c": c, "dt": "float64"}
        for n in [33000] + ([65537] if deep else []):
            for h, w in ((2, n), (n, 2)):
                for c in ("lin", "barrel", "id", "pin") if deep else ("lin", "barrel"):
                    yield {"k": "big", "h": h, "w": w, "fx": 0.48, "fy": 0.53, "c": c, "dt": "float64"}
        for h, w in ((700, 30), (30, 700), (1100, 20), (20, 1100), (2100, 9), (9, 2100), (4200, 5), (5, 4200), (1003, 1004)):
            for c in ("id", "grow", "five") if h * w < 1000000 else ("id", "five"):
                yield {"k": "big", "h": h, "w": w, "fx": 0.48, "fy": 0.53, "c": c, "dt": "float64"}
        for dt in ("int64", "float64", "uint32"):
            for c in ("lin", "barrel", "pin"):
                yield {"k": "big", "h": 12, "w": 19, "fx": 0.45, "fy": 0.6, "c": c, "dt": dt, "base": 2 ** 31}

    def verify(self, ctx, img, xc, yc, co, what):
        h, w = img.shape
        keep = img.copy()
        got = ctx.call(post.unwarp_image_forward, img, xc, yc, co)
        ctx.check(np.array_equal(keep, img), "input modified")
        ctx.check(got.shape == (h, w) and got.dtype == img.dtype, lambda: f"{what}: got {got.shape} {got.dtype}")
        yy, xx = np.mgrid[0:h, 0:w]
        y, x = ref.radial(yy, xx, xc, yc, co)
        y = np.clip(y, 0, h - 1)
        x = np.clip(x, 0, w - 1)
        # candidate targets: rounding ambiguous within eps of a half
        eps = 1e-6
        lo_y, hi_y = np.rint(y - eps).astype(int), np.rint(y + eps).astype(int)
        lo_x, hi_x = np.rint(x - eps).astype(int), np.rint(x + eps).astype(int)
        amb = (lo_y != hi_y) | (lo_x != hi_x) | (np.abs(y - np.floor(y) - 0.5) < eps) | (np.abs(x - np.floor(x) - 0.5) < eps)
        allowed = {}
        surely = set()
        for i in range(h):
            for j in range(w):
                if amb[i, j]:
                    for ty in {int(np.floor(y[i, j])), int(np.ceil(y[i, j])), int(np.rint(y[i, j]))}:
                        for tx in {int(np.floor(x[i, j])), int(np.ceil(x[i, j])), int(np.rint(x[i, j]))}:
                            allowed.setdefault((ty, tx), set()).add(keep[i, j].item())
                else:
                    t = (int(lo_y[i, j]), int(lo_x[i, j]))
                    allowed.setdefault(t, set()).add(keep[i, j].item())
                    surely.add(t)
        for i in range(h):
            for j in range(w):
                v = got[i, j].item()
                a = allowed.get((i, j), ())
                if v in a:
                    continue
                if (i, j) not in surely and v == 0:
                    continue
                ctx.fail(f"{what}: output pixel {(i, j)} is {v}; values mapped there: {sorted(map(str, a))[:6]}")
        ctx.validated += h * w
        ctx.outcome(got)
        ctx.interesting(len(surely) < h * w)

    def run(self, g, ctx):
        h, w = g["h"], g["w"]
        R = max(1.0, 0.5 * np.hypot(h, w))
        if g["k"] == "small":
            img = np.arange(1, h * w + 1, dtype=np.float64).reshape(h, w)
            for cy2 in range(-2, 2 * h + 1):
                for c in ref.ALL:
                    self.verify(ctx, img, g["xc"], cy2 / 2, ref.rel_coefs(c, R), f"{g} yc={cy2 / 2} {c}")
        else:
            img = np.arange(1, h * w + 1).reshape(h, w) + g.get("base", 0)
            if g["k"] == "far":
                xc, yc = g["fx"] * (w - 1), g["fy"] * (h - 1)
                co = ref.rel_coefs(g["c"], max(np.hypot(cx - xc, cy - yc) for cx in (0, w - 1) for cy in (0, h - 1)))
                y, x = ref.radial((h - 1) / 2.0, (w - 1) / 2.0, xc, yc, co)
                k = np.hypot((w - 1) / 2.0 - xc, (h - 1) / 2.0 - yc) / max(1e-9, np.hypot(x - xc, y - yc))
                for z in (1.0, k):
                    self.verify(ctx, img.astype(g["dt"]), xc, yc, [z * v for v in co], f"{g} x {z}")
                return
            if g["dt"] in ("uint8", "int16"):
                img = img % 250 + 1
            if g["dt"] == "bool":
                img = img % 3 > 0
            img = img.astype(g["dt"])
            self.verify(ctx, img, g["fx"] * (w - 1), g["fy"] * (h - 1), ref.rel_coefs(g["c"], R), str(g))
