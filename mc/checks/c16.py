import zlib
import itertools
import warnings
import numpy as np
from mc import ref, grids
from discorpy.proc import processing as proc

ref.require_repo()


def parabolic(ny, nx, dy, dx, xc, yc, k, slope, h, w, off, org=(0.0, 0.0), skew=0.0):
    """Family for which the parabola-based methods are exact: every line is a
    parabola whose curvature is proportional to its distance to the centre."""
    H, V = [], []
    xs, ys = np.linspace(0, w, 2 * nx + 3) + org[0], np.linspace(0, h, 2 * ny + 3) + org[1]
    for i in range(ny):
        c = (i - ny // 2 + off[0]) * dy
        H.append(np.column_stack((yc + c + k * c * (xs - xc) ** 2 + slope * (xs - xc), xs)))
    for j in range(nx):
        c = (j - nx // 2 + off[1]) * dx
        V.append(np.column_stack((ys, xc + c + k * c * (ys - yc) ** 2 - (slope + skew) * (ys - yc))))
    return H, V


def drop(lines, how):
    if how == "none":
        return lines
    out = []
    for i, l in enumerate(lines):
        n = len(l)
        if how == "ends":
            l = l[(i % 3):n - (i % 2)]
        elif how == "inner":
            l = np.delete(l, [(2 * i + 1) % n, (5 * i + 3) % n], axis=0)
        elif how == "list":
            l = l.tolist()
        elif how == "f32":
            l = l.astype(np.float32)
        out.append(l)
    return out


DROPS = ["none", "ends", "inner", "list", "f32"]


class Check:
    PID = "C16"
    RULE = "state = (grid, spacing, centre, model, tilt, missing points); every centre finder compared with the centre the grid was drawn with"
    BOUNDS = {"quick": "4 line counts x 3 spacings x 9 centres x 7 models x 5 tilts (radial), 4 x 3 x 9 x 4 x 5 (parabolic, 4 origins); fine search on 64 of them",
              "thorough": "6 line counts x 4 spacings x 25 centres x 7 models x 9 tilts, 5 missing-point patterns in turn; fine search on 480 of them"}
    LIMIT = 300
    BATCH = 4

    def space(self, tier):
        deep = tier == "thorough"
        sizes = [(9, 9), (12, 9), (8, 13), (15, 15)] + ([(7, 11), (20, 10)] if deep else [])
        sps = [(20, 20), (50, 50), (30, 40)] + ([(8, 8)] if deep else [])
        ctr = list(itertools.product((0.38, 0.5, 0.6), repeat=2))
        if deep:
            ctr = list(itertools.product((0.35, 0.43, 0.5, 0.57, 0.65), repeat=2))
        tilts = [0.0, 2.0, -3.0, 7.5, -10.0] + ([0.5, 5.0, -6.0, 9.0] if deep else [])
        n = 0
        # expensive ones first
        for s in [(7, 7), (8, 10)] + ([(11, 9), (13, 13)] if deep else []):
            for sp in ((20, 20), (30, 40)):
                for m in (("b2", "p1") if not deep else ("b1", "b2", "p1", "p2", "b5")):
                    for t in ((0.0, 3.0) if not deep else (0.0, 0.4, -3.0, 5.0)):
                        for c, st in [((0.45, 0.56), (1.3, -2.1)), ((0.53, 0.42), (-2.0, 2.6)), ((0.5, 0.5), (2.0, 1.0)), ((0.48, 0.52), (-1.7, -0.6))][:4 if not deep else 3]:
                            yield {"k": "fine", "s": list(s), "sp": list(sp), "m": m, "t": t, "c": list(c), "st": list(st)}
        # starts as far away as the search is told to look
        for st in ((12.5, 13.0), (-13.0, 12.0), (12.0, -13.0), (-13.0, -12.5)):
            yield {"k": "fine", "s": [7, 7], "sp": [20, 20], "m": "b2", "t": 0.0, "c": [0.5, 0.5], "st": list(st), "pd": 13}
        for st in ((24.0, -25.0), (-25.0, 24.5)):
            yield {"k": "fine", "s": [7, 7], "sp": [50, 50], "m": "b2", "t": 0.0, "c": [0.5, 0.5], "st": list(st), "pd": 25}
        for s in sizes:
            for sp in sps:
                for c in ctr:
                    for t in tilts:
                        for d in [DROPS[n % 5]]:
                            n += 1
                            yield {"k": "rad", "s": list(s), "sp": list(sp), "c": list(c), "t": t, "d": d}
                            yield {"k": "par", "s": list(s), "sp": list(sp), "c": list(c), "t": t, "d": d}

    def run(self, g, ctx):
        self.turn = zlib.crc32(repr(sorted(g.items())).encode())
        warnings.simplefilter("ignore")
        ny, nx = g["s"]
        dy, dx = g["sp"]
        d = max(dy, dx)
        h, w = ny * dy, nx * dx
        xc, yc = g["c"][0] * w + 40.0, g["c"][1] * h - 15.0
        R = 0.5 * np.hypot(h, w)
        if g["k"] == "fine":
            G = grids.base_grid(ny, nx, dy, dx, h / 2 - 15, w / 2 + 40, g["t"])
            H, V = grids.lines(grids.distort(G, xc, yc, grids.models(R)[g["m"]]))
            got = ctx.call(proc.find_cod_fine, H, V, xc + g["st"][0], yc + g["st"][1], g.get("pd", 3))
            e = np.abs(np.asarray(got, float) - [xc, yc])
            ctx.check(e.max() <= 1.0 + 0.01 * d, lambda: f"fine search misses the centre by {e}")
            ctx.outcome(np.round(e, 3))
            ctx.interesting()
            return
        if g["k"] == "rad":
            G = grids.base_grid(ny, nx, dy, dx, h / 2 - 15, w / 2 + 40, g["t"])
            for m, co in grids.models(R).items():
                H, V = grids.lines(grids.distort(G, xc, yc, co))
                self.judge(ctx, drop(H, g["d"]), drop(V, g["d"]), xc, yc, d, 1.0 * d, 0.3 * d + 0.5, 0.2 * d + 0.5, m)
        else:
            s = np.tan(np.deg2rad(g["t"]))
            for kk in (0.05, -0.05, 0.02, -0.015):
                # lines at equal distances on both sides of the centre: all methods are exact,
                # wherever the pattern is in the frame
                for ox, oy in ((40.0, -15.0), (40.0, 1500.0), (1500.0, -15.0), (900.0, 1200.0)):
                    x1, y1 = g["c"][0] * w + ox, g["c"][1] * h + oy
                    H, V = parabolic(ny, nx, dy, dx, x1, y1, kk / (0.5 * max(h, w)) ** 2, s, h, w, (0.5, 0.5), (ox, oy))
                    self.judge(ctx, drop(H, g["d"]), drop(V, g["d"]), x1, y1, d, 0.05 * d + 0.1, 0.05 * d + 0.1, 0.05 * d + 0.1, f"parabolas {kk} at {(ox, oy)}")
                # rows and columns that are not at right angles
                for sk in (0.06, -0.09):
                    x1, y1 = g["c"][0] * w + 700.0, g["c"][1] * h + 450.0
                    H, V = parabolic(ny, nx, dy, dx, x1, y1, kk / (0.5 * max(h, w)) ** 2, s, h, w, (0.5, 0.5), (700.0, 450.0), sk)
                    H, V = drop(H, g["d"]), drop(V, g["d"])
                    for name, f in (("coarse", proc.find_cod_coarse), ("bailey", proc.find_cod_bailey), ("vanishing points", proc.find_center_based_vanishing_points)):
                        got = np.asarray(ctx.call(f, H, V), float)
                        ctx.check(bool(np.all(np.abs(got - [x1, y1]) <= 0.05 * d + 0.1)), lambda: f"skewed parabolas {kk} {sk}: {name} gives {got} for the centre {(x1, y1)}")
                H, V = parabolic(ny, nx, dy, dx, xc, yc, kk / (0.5 * max(h, w)) ** 2, s, h, w, (0.3, 0.4))
                self.judge(ctx, drop(H, g["d"]), drop(V, g["d"]), xc, yc, d, 0.6 * d, 0.1, 0.1, f"parabolas {kk}")

    def judge(self, ctx, H, V, xc, yc, d, tc, tb, tv, what):
        for name, f, tol in (("coarse", proc.find_cod_coarse, tc), ("bailey", proc.find_cod_bailey, tb),
                             ("vanishing points", proc.find_center_based_vanishing_points, tv),
                             ("vanishing points, iterative", proc.find_center_based_vanishing_points_iteration, tv)):
            got = np.asarray(ctx.call(f, H, V), float)
            e = np.abs(got - [xc, yc])
            ctx.check(bool(np.all(e <= tol)), lambda: f"{what}: {name} gives {got} for the centre {(xc, yc)} (tolerance {tol})")
            ctx.outcome(np.round(e, 2))
        # (the first steps of the iteration are not yet exact where the exact answer exists)
        var = [("bailey", proc.find_cod_bailey, {"iteration": i}, tb) for i in ((5, 3) if what.startswith("par") else (0, 1, 5))]
        var += [("vanishing points, iterative", proc.find_center_based_vanishing_points_iteration, kw, tv)
                for kw in ({"iteration": 0}, {"iteration": 1}, {"iteration": 4}, {"method": "max"}, {"method": "min"}, {"method": "median"}, {"iteration": 3, "method": "max"})]
        self.turn += 1
        name, f, kw, tol = var[self.turn % len(var)]
        got = np.asarray(ctx.call(f, H, V, **kw), float)
        e = np.abs(got - [xc, yc])
        ctx.check(bool(np.all(e <= tol)), lambda: f"{what}: {name} with {kw} gives {got} for the centre {(xc, yc)} (tolerance {tol})")
        ctx.interesting()
