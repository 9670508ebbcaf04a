import warnings
import numpy as np
from scipy import ndimage as ndi
from mc import ref
from discorpy.prep import linepattern as lp

ref.require_repo()


class Check:
    PID = "C32"
    RULE = "state = (image shape, content, direction, angle, start index); positions compared with the requested line, values with an interpolation of the whole image, every index in and around the range judged"
    BOUNDS = {"quick": "8 shapes x 2 directions x 19 angles (-40..40) x every start index from -2 to side+2; 4 contents; one 33000-pixel side; profiles of 300..4200 samples",
              "thorough": "16 shapes x 2 directions x 45 angles (-66..66) x every start index from -3 to side+3; 4 contents; one 33000-pixel side"}

    def space(self, tier):
        deep = tier == "thorough"
        sh = [(20, 20), (40, 25), (25, 40), (60, 61), (33, 9), (8, 30), (90, 50), (50, 90)]
        if deep:
            sh += [(3, 3), (2, 50), (50, 2), (120, 121), (101, 64), (70, 140), (15, 16), (200, 100)]
        an = [0.0, 0.5, 1.0, 3.3, 7.0, 12.5, 20.0, 30.0, 40.0] if not deep else [0.0, 0.05, 0.2, 0.5, 1.0, 1.7, 2.5, 3.3, 5.0, 7.0, 9.0, 10.0, 12.5, 15.0, 17.7, 20.0, 25.0, 30.0, 36.9, 40.0, 45.0, 60.0, 66.0]
        for s in sh:
            for d in ("horizontal", "vertical"):
                for a in an:
                    for sg in ((1, -1) if a else (1,)):
                        yield {"k": "line", "s": list(s), "d": d, "a": sg * a, "x": 3 if deep else 2}
        yield {"k": "bad"}
        for n in (300, 700, 1100, 2100, 4200) + ((33000,) if deep else ()):
            for d in ("horizontal", "vertical"):
                yield {"k": "along", "n": n, "d": d}
        yield {"k": "large", "d": "horizontal"}
        yield {"k": "large", "d": "vertical"}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def do_bad(self, g, ctx):
        m = np.arange(600.0).reshape(20, 30)
        for d in ("horizontal", "vertical"):
            for a in (90.0, -90.0, 90):
                ctx.raises(ValueError, lp.get_tilted_profile, m, 5, a, d)
            for bad in (m[0], m.reshape(2, 10, 30), np.zeros(())):
                ctx.raises(ValueError, lp.get_tilted_profile, bad, 5, 0.0, d)
            for a in (80.0, -80.0, 89.0):
                ctx.raises(ValueError, lp.get_tilted_profile, m, 5, a, d)
        ctx.outcome("bad")

    def do_large(self, g, ctx):
        n = 33000
        m = np.zeros((n, 12), np.float32) + np.arange(n, dtype=np.float32)[:, None]
        for idx in (100, 32760, 32768, n - 20):
            for a in (0.0, 4.0, -4.0):
                if g["d"] == "horizontal":
                    x, y, p = ctx.call(lp.get_tilted_profile, m, idx, a, "horizontal")
                    q = y
                else:
                    x, y, p = ctx.call(lp.get_tilted_profile, np.ascontiguousarray(m.T), idx, a, "vertical")
                    q = x
                ctx.check(len(p) == 12 and np.abs(p - q).max() < 0.3, lambda: f"{g} index {idx} angle {a}: values {p[:3]} for positions {q[:3]}")
        ctx.outcome("large")
        ctx.interesting()

    def do_along(self, g, ctx):
        """Long profiles: position and value of every sample."""
        n = g["n"]
        i, k = np.mgrid[:40, :n].astype(float)
        m = 2.0 * i + 7 * np.sin(k / 9.0)
        for idx in (1, 20, 38.5):
            for t in (0.0, 15.0 / n, -13.0 / n):
                if not 1 <= idx - t * n <= 38.9 and t:
                    continue
                a = np.rad2deg(np.arctan(t))
                if g["d"] == "horizontal":
                    u, v, p = ctx.call(lp.get_tilted_profile, m, idx, a, "horizontal")
                else:
                    v, u, p = ctx.call(lp.get_tilted_profile, np.ascontiguousarray(m.T), idx, -a, "vertical")
                e = np.arange(n) * 1.0
                ctx.check(len(p) == n and np.abs(u - e).max() < 1e-6 * n and np.abs(v - (idx - t * e)).max() < 1e-6 * n, lambda: f"{g} index {idx} angle {a}: wrong positions")
                ctx.check(np.abs(p - 2.0 * v - 7 * np.sin(u / 9.0)).max() < 0.3, lambda: f"{g} index {idx} angle {a}: values are not those at the positions")
        ctx.outcome(n)
        ctx.interesting()

    def do_line(self, g, ctx):
        h, w = g["s"]
        hor = g["d"] == "horizontal"
        n, side = (w, h) if hor else (h, w)
        t = np.tan(np.deg2rad(g["a"]))
        # along runs over x (or y); the other coordinate moves by this much
        step = -t if hor else t
        yy, xx = np.mgrid[:h, :w].astype(float)
        ramp = yy if hor else xx
        imgs = [3.0 * ramp, 5 + 2.0 * yy - 1.5 * xx, 100 + 30 * np.sin(yy / 4.0) * np.cos(xx / 5.0), 50 + ((xx * 7 + yy * 13) % 17)]
        grads = [3.0, 2.5, 10.0, None]
        accepted = 0
        for idx in list(range(-g["x"], side + g["x"])) + [0.5, side / 2.0 + 0.25, -0.5, side - 0.5, side - 0.999, side - 1.25]:
            lo, hi = min(idx, idx + step * (n - 1)), max(idx, idx + step * (n - 1))
            full = min(idx, idx + step * n), max(idx, idx + step * n)
            inside = full[0] >= 0 and full[1] <= side - 1
            outside = lo < -1 or hi > side or idx < 0 or idx > side - 1
            for k, m in enumerate(imgs):
                try:
                    r = ctx.call(lp.get_tilted_profile, m, idx, g["a"], g["d"])
                except ValueError:
                    # lines within a pixel of leaving the image may be refused
                    ctx.check(not inside or (g["a"] != 0 and (full[0] < 1 or full[1] > side - 2)), lambda: f"{g} index {idx}: a line in the image is refused")
                    continue
                ctx.check(not outside, lambda: f"{g} index {idx}: a line leaving the image is accepted ({lo}..{hi} of {side})")
                accepted += 1
                x, y, p = (np.asarray(v, float) for v in r)
                s, c = (x, y) if hor else (y, x)
                what = f"{g} index {idx}"
                ctx.check(len(s) == len(c) == len(p) == n, lambda: f"{what}: {len(p)} samples")
                ctx.check(abs(s[0]) < 1e-9 and abs(c[0] - idx) < 1e-9, lambda: f"{what}: starts at {s[0]}, {c[0]}")
                ctx.check(abs(s[-1] - (n - 1)) < 0.02 + 1e-3 * n, lambda: f"{what}: ends at {s[-1]} of {n - 1}")
                ctx.check(np.abs(np.diff(s) - 1).max() < 0.05 if n > 1 else True, lambda: f"{what}: steps of {np.diff(s).min()} to {np.diff(s).max()}")
                ctx.check(np.abs(c - np.clip(idx + step * s, 0, side - 1)).max() < 0.02, lambda: f"{what}: leaves the line by {np.abs(c - np.clip(idx + step * s, 0, side - 1)).max()}")
                if g["a"] == 0 and idx == int(idx):
                    e = m[int(idx), :] if hor else m[:, int(idx)]
                    ctx.check(np.allclose(p, e, atol=1e-6), lambda: f"{what}: the profile is not the row or column")
                if grads[k] is not None:
                    e = ndi.map_coordinates(m, (y, x), order=1, mode="nearest")
                    ctx.check(np.abs(p - e).max() < (0.35 if k else 0.25) * grads[k], lambda: f"{what}: values differ from the image by {np.abs(p - e).max()} (content {k})")
                else:
                    e = ndi.map_coordinates(m, (y, x), order=3, mode="nearest")
                    ok = (c > lo + 5) & (c < hi - 5)
                    ctx.check(not ok.any() or np.abs(p - e)[ok].max() < 0.3, lambda: f"{what}: values differ from the interpolated image by {np.abs(p - e)[ok].max()}")
                ctx.outcome(np.round(p, 3))
        ctx.interesting(accepted > 0)
