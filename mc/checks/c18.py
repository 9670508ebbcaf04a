import itertools
import warnings
import numpy as np
from mc import ref, grids
from discorpy.proc import processing as proc

ref.require_repo()
SHIFTS = [(1, 0), (-7, 13), (0.5, 0.25), (-300, -200)]


def tr(lines):
    return [l[:, ::-1].copy() for l in lines]


class Check:
    PID = "C18"
    RULE = "state = (grid, centre, model, tilt, perspective, transformation); every calibration entry point run on the original and the transformed lines and the answers compared"
    BOUNDS = {"quick": "3 line counts x 4 centres x 7 models x 3 tilts x 2 perspectives x (4 shifts, transposition, point reversal, 2 mirrors, line copies)",
              "thorough": "8 line counts x 9 centres x 7 models x 5 tilts x 3 perspectives x the same transformations; fine search on 48 grids"}
    LIMIT = 300

    def space(self, tier):
        deep = tier == "thorough"
        for s in [(8, 8), (7, 9)] if deep else [(7, 8)]:
            for m in ("b2", "p1"):
                for t in ((0.0, 2.0, -5.0) if deep else (2.0,)):
                    for c in ((0.44, 0.57), (0.5, 0.5)) if deep else ((0.44, 0.57),):
                        for k in ("shift", "T", "mx"):
                            yield {"k": "fine", "s": list(s), "m": m, "t": t, "c": list(c), "x": k}
        sizes = [(9, 9), (12, 9), (6, 13)] + ([(15, 15), (7, 20), (20, 7), (13, 6), (8, 13)] if deep else [])
        ctr = [(0.5, 0.5), (0.42, 0.56), (0.57, 0.45), (0.6, 0.61)]
        if deep:
            ctr += [(0.38, 0.5), (0.5, 0.62), (0.35, 0.35), (0.48, 0.53), (0.63, 0.4)]
        for s in sizes:
            for c in ctr:
                for t in [0.0, 3.0, -8.0] + ([1.0, 10.0] if deep else []):
                    for p in [0, 1] + ([2] if deep else []):
                        for m in ("b1", "b2", "b3", "p1", "p2", "b5", "p5"):
                            yield {"k": "all", "s": list(s), "c": list(c), "t": t, "p": p, "m": m}

    def make(self, g):
        ny, nx = g["s"]
        d = 30.0
        h, w = ny * d, nx * d
        # a little off a line: a line exactly through the centre has no
        # well-defined curvature sign, which decides ties arbitrarily
        yc, xc = g["c"][1] * h + 0.0531 * d + 20, g["c"][0] * w + 0.0713 * d + 10
        R = 0.5 * np.hypot(h, w)
        G = grids.base_grid(ny, nx, d, d, h / 2 + 20, w / 2 + 10, g["t"])
        P = [None, [1, 0.01, 0, -0.005, 1, 0, 3e-5, -2e-5], [1, -0.01, 0, 0.02, 1, 0, -5e-5, 6e-5]][g.get("p", 0)]
        if P is not None:
            G = grids.perspective(G, P, yc, xc)
        D = grids.distort(G, xc, yc, grids.models(R)[g["m"]])
        H, V = grids.lines(D)
        return H, V, xc, yc, d, R, h, w

    def answers(self, ctx, H, V, xc, yc):
        out = {}
        for name, f in (("coarse", proc.find_cod_coarse), ("bailey", proc.find_cod_bailey),
                        ("vp", proc.find_center_based_vanishing_points),
                        ("vpi", proc.find_center_based_vanishing_points_iteration)):
            out[name] = np.asarray(ctx.call(f, H, V), float)
        for opt in (False, True):
            out["f", opt] = np.asarray(ctx.call(proc.calc_coef_forward, H, V, xc, yc, 4, optimizing=opt), float)
            out["b", opt] = np.asarray(ctx.call(proc.calc_coef_backward, H, V, xc, yc, 4, optimizing=opt), float)
            out["bb", opt] = np.asarray(ctx.call(proc.calc_coef_backward_from_forward, H, V, xc, yc, 4, optimizing=opt)[1], float)
        return out

    def same(self, ctx, what, a, b, back, R, g):
        """back maps a centre of the transformed problem to the original frame."""
        r = np.linspace(0, R, 50)
        for k in a:
            if isinstance(k, str):
                c = np.asarray(back(*b[k]))
                e = np.abs(c - a[k]).max()
                # the coarse estimate (a starting value for the others) depends weakly on the frame's origin
                moved = what.startswith("shift") or "mirror" in what
                tol = {"coarse": 15.0 if moved else 0.01, "bailey": 0.08, "vp": 0.08, "vpi": 0.02}[k]
                ctx.check(e <= tol, lambda: f"{what}: {k} finds {b[k]}, i.e. {c} in the original frame, but {a[k]} there")
            else:
                e = np.abs(r * ref.F(r, a[k]) - r * ref.F(r, b[k])).max()
                ctx.check(e <= 0.003, lambda: f"{what}: model {k} differs by {e} pixels")

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        H, V, xc, yc, d, R, h, w = self.make(g)
        W, HH = 2 * w, 2 * h
        if g["k"] == "fine":
            a = np.asarray(ctx.call(proc.find_cod_fine, H, V, xc + 1.2, yc - 1.7, 2))
            if g["x"] == "shift":
                mv = np.asarray([37.0, -52.0])
                b = np.asarray(ctx.call(proc.find_cod_fine, [l + mv[::-1] for l in H], [l + mv[::-1] for l in V], xc + 1.2 + mv[0], yc - 1.7 + mv[1], 2)) - mv
            elif g["x"] == "T":
                b = np.asarray(ctx.call(proc.find_cod_fine, tr(V), tr(H), yc - 1.7, xc + 1.2, 2))[::-1]
            else:
                b = np.asarray(ctx.call(proc.find_cod_fine, [np.column_stack((l[:, 0], W - l[:, 1])) for l in H],
                                        [np.column_stack((l[:, 0], W - l[:, 1])) for l in V][::-1], W - xc - 1.2, yc - 1.7, 2))
                b = np.asarray([W - b[0], b[1]])
            # the search moves in half-pixel steps: the result may fall on the neighbouring step
            ctx.check(np.abs(a - b).max() <= 0.51, lambda: f"fine search: {a} and {b} after {g['x']}")
            ctx.outcome(np.round(a, 3))
            ctx.interesting()
            return
        base = self.answers(ctx, H, V, xc, yc)
        r = np.linspace(0, R, 50)
        for dy, dx in SHIFTS:
            H1, V1 = [l + [dy, dx] for l in H], [l + [dy, dx] for l in V]
            self.same(ctx, f"shift {(dy, dx)}", base, self.answers(ctx, H1, V1, xc + dx, yc + dy), lambda x, y: (x - dx, y - dy), R, g)
        self.same(ctx, "exchange of x and y", base, self.answers(ctx, tr(V), tr(H), yc, xc), lambda x, y: (y, x), R, g)
        self.same(ctx, "reversed points", base, self.answers(ctx, [l[::-1] for l in H], [l[::-1] for l in V], xc, yc), lambda x, y: (x, y), R, g)
        H1 = [np.column_stack((l[:, 0], W - l[:, 1]))[::-1] for l in H]
        V1 = [np.column_stack((l[:, 0], W - l[:, 1])) for l in V][::-1]
        self.same(ctx, "left-right mirror", base, self.answers(ctx, H1, V1, W - xc, yc), lambda x, y: (W - x, y), R, g)
        H1 = [np.column_stack((HH - l[:, 0], l[:, 1])) for l in H][::-1]
        V1 = [np.column_stack((HH - l[:, 0], l[:, 1]))[::-1] for l in V]
        self.same(ctx, "up-down mirror", base, self.answers(ctx, H1, V1, xc, HH - yc), lambda x, y: (x, HH - y), R, g)
        # the same lines given from bottom to top and right to left
        self.same(ctx, "reversed line lists", base, self.answers(ctx, H[::-1], V[::-1], xc, yc), lambda x, y: (x, y), R, g)
        self.same(ctx, "lists instead of arrays", base, self.answers(ctx, [l.tolist() for l in H], [l.tolist() for l in V], xc, yc), lambda x, y: (x, y), R, g)
        ctx.outcome(np.round(base["bailey"], 3))
        ctx.interesting()
