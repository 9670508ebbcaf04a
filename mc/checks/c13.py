import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post

ref.require_repo()


def expected(lines, xc, yc, hor):
    out = []
    for ln in lines:
        a = np.asarray(ln, dtype=np.float64)
        u, v = (a[:, 1] - xc, a[:, 0] - yc) if hor else (a[:, 0] - yc, a[:, 1] - xc)
        um, vm = u.mean(), v.mean()
        m = np.sum((u - um) * (v - vm)) / np.sum((u - um) ** 2)
        c = vm - m * um
        d = np.abs(m * u - v + c) / np.sqrt(m * m + 1)
        out += list(zip(np.hypot(u, v), d))
    return np.asarray(out)


def canon(t):
    t = np.asarray(t, dtype=np.float64)
    return t[np.lexsort((t[:, 1], np.round(t[:, 0], 4)))]


class Check:
    PID = "C13"
    RULE = "state = (line set, centre, direction); table compared row by row with closed-form least squares; transposition duality"
    BOUNDS = {"quick": "all lines of 2..5 points with offsets in {0,1,3} combined in 1..3 lines, 5 centres; straight lines at 41 slopes; 7 layouts up to 5000 points or 260 lines",
              "thorough": "all lines of 2..7 points with offsets in {0,1,3}, 9 centres; straight lines at 161 slopes"}

    def space(self, tier):
        deep = tier == "thorough"
        for n in range(2, 8 if deep else 6):
            for off in itertools.product((0, 1, 3), repeat=n):
                for nl in (1, 2, 3):
                    yield {"k": "off", "off": list(off), "nl": nl, "deep": deep}
        for s in np.linspace(-2.0, 2.0, 81 if deep else 41):
            yield {"k": "steep", "s": float(s)}
        for dt in ("int8", "uint8", "int16", "uint16", "int32", "int64", "float16", "float32"):
            yield {"k": "int", "dt": dt}
        for n, nl in ((70, 70), (300, 3), (1100, 2), (2100, 1), (5000, 1), (20, 260), (90, 60)):
            yield {"k": "long", "n": n, "nl": nl}
        for s in np.linspace(-0.98, 0.98, 161 if deep else 41):
            for n in (2, 3, 10, 37):
                for sc in (1, 60):
                    yield {"k": "str", "s": float(s), "n": n, "sc": sc}

    def both(self, ctx, lines, xc, yc):
        for hor in (True, False):
            f = post.calc_residual_hor if hor else post.calc_residual_ver
            use = lines if hor else [np.fliplr(np.asarray(l)) for l in lines]
            cx, cy = (xc, yc) if hor else (yc, xc)
            keep = [np.array(l) for l in use]
            got = np.asarray(ctx.call(f, use, cx, cy))
            ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, use)), "input modified")
            exp = expected(use, cx, cy, hor)
            ctx.check(got.shape == exp.shape, lambda: f"table of shape {got.shape} for {len(exp)} points")
            ctx.check(bool(np.all(np.diff(got[:, 0]) >= 0)), "the table is not sorted by radius")
            a, b = canon(got), canon(exp)
            tol = 1e-6 * max(1.0, np.max(np.abs(b))) + 1e-7
            ctx.check(np.allclose(a, b, atol=tol, rtol=0), lambda: f"residual table differs: {a[np.argmax(np.abs(a - b).sum(1))]} instead of {b[np.argmax(np.abs(a - b).sum(1))]} (hor={hor})")
            ctx.outcome(np.round(a, 6))
            yield got

    def run(self, g, ctx):
        if g["k"] == "off":
            lines = []
            for i in range(g["nl"]):
                off = g["off"] if i % 2 == 0 else g["off"][::-1] + [2]
                lines.append(np.asarray([[20 * i + o * (1 + 0.25 * i) + 0.1 * i * j, 10.0 * j + 3 * (j % 2)] for j, o in enumerate(off)]))
            cs = [(0, 0), (12.5, 7.25), (-40.0, 300.0), (25, 21), (1000.0, -500.0)]
            if g["deep"]:
                cs += [(3.3, 0), (0, 17), (55.5, 55.5), (-1, -1)]
            for xc, yc in cs:
                for _ in self.both(ctx, lines, xc, yc):
                    ctx.interesting()
            # lines given as plain lists
            flip = [np.fliplr(l) for l in lines]
            for f, use in ((post.calc_residual_hor, lines), (post.calc_residual_ver, flip)):
                b = ctx.call(f, use, 3.0, 4.0)
                for conv in (lambda l: l.tolist(), lambda l: [tuple(p) for p in l]):
                    a = ctx.call(f, [conv(l) for l in use], 3.0, 4.0)
                    ctx.check(np.allclose(canon(a), canon(b)), "lists and arrays give different tables")
        elif g["k"] == "steep":
            # curved lines far from the axis: the distance is perpendicular
            x = 10.0 * np.arange(9)
            for a in (1.0, 3.0):
                lines = [np.column_stack((g["s"] * x + a * np.array([0, 1, 3, 1, 0, -1, 0, 2, 1]) * (1 + k) + 30 * k, x)) for k in range(3)]
                for xc, yc in ((0, 0), (12.5, 7.25), (-40, 300), (25, 21)):
                    for _ in self.both(ctx, lines, xc, yc):
                        ctx.interesting()
        elif g["k"] == "long":
            x = 7.0 * np.arange(g["n"])
            wob = np.asarray([0, 1, 3, 1, 0, -1, 0, 2, 1, 4, 2])
            lines = [np.column_stack((0.1 * x + wob[(np.arange(g["n"]) * 3 + k) % 11] + np.where(np.arange(g["n"]) * 5 > g["n"] * 4, 9.0, 0.0) + 30 * k, x)) for k in range(g["nl"])]
            for xc, yc in ((0, 0), (125.5, 77.25)):
                for _ in self.both(ctx, lines, xc, yc):
                    ctx.interesting()
        elif g["k"] == "int":
            pts = [np.asarray([[5 * k + (j * j) % 4 + 7, 11 * j + 2] for j in range(16)]).astype(g["dt"]) for k in range(3)]
            for xc, yc in ((0, 0), (100, 90), (200, 3), (1, 250)):
                for _ in self.both(ctx, pts, xc, yc):
                    ctx.interesting()
        else:
            n, sc = g["n"], g["sc"]
            x = np.arange(n) * sc * 1.0
            lines = [np.column_stack((g["s"] * x + 30 * k + 5, x)) for k in range(3)]
            for got in self.both(ctx, lines, 17.0 * sc, 9.0 * sc):
                ctx.check(np.max(got[:, 1]) < 1e-6 * max(1, n * sc), "straight lines have residuals")
