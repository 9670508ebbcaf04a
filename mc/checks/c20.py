import itertools
import warnings
import numpy as np
from mc import ref, grids
from discorpy.proc import processing as proc

ref.require_repo()
PERS = [[1, 0, 0, 0, 1, 0, 0, 0], [1, 0.01, 0, -0.005, 1, 0, 3e-5, -2e-5], [1, -0.01, 0, 0.02, 1, 0, -5e-5, 6e-5],
        [1, 0, 0, 0, 1, 0, 8e-5, 0], [1.02, 0.03, 4, 0.03, 0.99, -3, 0, -8e-5], [1, 0, 0, 0, 1, 0, 2e-4, 1e-4]]
SCALES = ["mean", "max", "min", "median", 1.4, 0.5]


def hom_fit(s, t):
    """Independent homography fit (normalised DLT)."""
    def norm(p):
        m = p.mean(0)
        k = np.sqrt(2) / np.mean(np.hypot(*(p - m).T))
        return (p - m) * k, np.array([[k, 0, -k * m[0]], [0, k, -k * m[1]], [0, 0, 1]])
    a, A = norm(s)
    b, B = norm(t)
    M = []
    for (x, y), (u, v) in zip(a, b):
        M.append([x, y, 1, 0, 0, 0, -u * x, -u * y, -u])
        M.append([0, 0, 0, x, y, 1, -v * x, -v * y, -v])
    H = np.linalg.svd(np.asarray(M))[2][-1].reshape(3, 3)
    H = np.linalg.inv(B) @ H @ A
    q = np.column_stack((s, np.ones(len(s)))) @ H.T
    return q[:, :2] / q[:, 2:]


class Check:
    PID = "C20"
    RULE = "state = (grid size, spacing, tilt, perspective, equal-spacing option, scale, optimisation); target grid checked for regularity, source/target pairing checked by an independent homography fit"
    BOUNDS = {"quick": "7 line counts x 3 spacings x 5 tilts x 6 perspectives x all options (2 x 6 x 2)",
              "thorough": "14 line counts x 5 spacings x 11 tilts x 6 perspectives x all options"}

    def space(self, tier):
        deep = tier == "thorough"
        sizes = [(3, 3), (9, 3), (3, 8), (3, 4), (5, 4), (6, 9), (10, 7), (8, 8), (13, 12)]
        if deep:
            sizes += [(4, 3), (4, 4), (5, 5), (7, 3), (3, 7), (20, 20), (2, 2)]
        for s in sizes:
            for sp in [(30, 30), (30, 42), (50, 20)] + ([(10, 10), (25, 26)] if deep else []):
                for t in ([0.0, 4.0, -4.0, 12.0, -20.0] + ([1.0, -1.0, 8.0, -9.0, 25.0, -25.0] if deep else [])):
                    for p in range(len(PERS)):
                        yield {"s": list(s), "sp": list(sp), "t": t, "p": p}

    def regular(self, ctx, T, what):
        """T (ny, nx, 2): affine-regular, right-angled grid. Returns spacings."""
        ny, nx = T.shape[:2]
        u = (T[:, -1] - T[:, 0]).mean(0) / (nx - 1)
        v = (T[-1] - T[0]).mean(0) / (ny - 1)
        i, j = np.mgrid[0:ny, 0:nx]
        m = T.reshape(-1, 2).mean(0)
        fit = m + (i - (ny - 1) / 2)[..., None] * v + (j - (nx - 1) / 2)[..., None] * u
        e = np.abs(fit - T).max()
        ctx.check(e < 0.01, lambda: f"{what}: target grid is not equally spaced, off by {e}")
        lu, lv = np.hypot(*u), np.hypot(*v)
        c = abs(u @ v) / (lu * lv)
        ctx.check(c < 1e-3, lambda: f"{what}: target axes are not perpendicular (cos {c})")
        ctx.check(u[1] > 0 and v[0] > 0, lambda: f"{what}: target grid is turned over")
        return lv, lu, u

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        ny, nx = g["s"]
        dy, dx = g["sp"]
        G = grids.base_grid(ny, nx, dy, dx, ny * dy / 2 + 40, nx * dx / 2 + 25, g["t"])
        cy, cx = G.reshape(-1, 2).mean(0)
        P = PERS[g["p"]]
        k = 400.0 / max(ny * dy, nx * dx) if g["p"] else 1.0
        P = P[:6] + [P[6] * k, P[7] * k]
        S = grids.perspective(G, P, cy, cx)
        H, V = grids.lines(S)
        ch = np.asarray([np.polyfit(l[:, 1], l[:, 0], 1)[1] for l in H])
        cv = np.asarray([np.polyfit(l[:, 0], l[:, 1], 1)[1] for l in V])
        nuse = min(max(ny // 2 - 1, 1), max(nx // 2 - 1, 1))
        ext = 0.5 * max(ny * dy, nx * dx)
        for eq in (True, False):
            for opt in (True, False):
                got = {}
                for sc in SCALES:
                    what = f"{g} equal={eq} scale={sc} optimizing={opt}"
                    kH, kV = [l.copy() for l in H], [l.copy() for l in V]
                    Th, Tv = ctx.call(proc.generate_undistorted_perspective_lines, H, V, equal_dist=eq, scale=sc, optimizing=opt)
                    ctx.check(all(np.array_equal(a, b) for a, b in zip(kH + kV, H + V)), "input modified")
                    Th, Tv = np.asarray(Th, float), np.asarray(Tv, float)
                    ctx.check(Th.shape == (ny, nx, 2) and np.array_equal(Tv, Th.transpose(1, 0, 2)), lambda: f"{what}: horizontal and vertical targets are not the same nodes")
                    lv, lu, u = self.regular(ctx, Th, what)
                    if not eq:
                        # distance of the lines along the axes
                        ih = np.asarray([np.polyfit(l[:, 1], l[:, 0], 1)[1] for l in Th])
                        iv = np.asarray([np.polyfit(l[:, 0], l[:, 1], 1)[1] for l in Tv])
                        for q, i, c in (("rows", ih, ch), ("columns", iv, cv)):
                            n, m = len(i), nuse
                            p = int(np.argmin(np.abs(i - c)))
                            a = np.arange(n) - p
                            if opt:
                                e = abs((a * (i - c)).sum() / (a * a).sum())
                                ctx.check(e < 5e-3, lambda: f"{what}: distance of the {q} is {e} away from the least-squares distance")
                            elif isinstance(sc, str):
                                df = np.abs(np.diff(c[max(0, n // 2 - m):n // 2 + m + 1]))
                                e = abs(np.diff(i).mean() - getattr(np, sc)(df))
                                ctx.check(e < 5e-3, lambda: f"{what}: distance of the {q} is not the {sc} of {df}")
                    if eq:
                        ctx.check(abs(lu - lv) < 2e-3 * lu + 1e-3, lambda: f"{what}: spacings {lv} and {lu} are not equal")
                    got[sc] = (lv, lu)
                    src, tgt = ctx.call(proc.generate_source_target_perspective_points, H, V, equal_dist=eq, scale=sc, optimizing=opt)
                    src, tgt = np.asarray(src, float), np.asarray(tgt, float)
                    ctx.check(src.shape == (ny * nx, 2) and tgt.shape == (ny * nx, 2), lambda: f"{what}: number of pairs")
                    e = np.abs(src.reshape(ny, nx, 2) - S).max()
                    ctx.check(e < 0.02, lambda: f"{what}: source points are not the grid nodes in row order ({e})")
                    e = np.abs(tgt.reshape(ny, nx, 2) - Th).max()
                    ctx.check(e < 0.05, lambda: f"{what}: target points are not the target grid in row order ({e})")
                    e = np.abs(hom_fit(src, tgt) - tgt).max()
                    ctx.check(e < 0.05, lambda: f"{what}: no perspective maps the source onto the target (off by {e})")
                    if g["p"] == 0:
                        a = np.arctan2(u[0], u[1])
                        ctx.check(abs(a - np.deg2rad(g["t"])) < 1e-3, lambda: f"{what}: tilt {a}")
                    ctx.outcome(np.round(Th, 2))
                for q in (0, 1):
                    lo, hi = got["min"][q], got["max"][q]
                    ctx.check(lo - 2e-3 <= got["mean"][q] <= hi + 2e-3 and lo - 2e-3 <= got["median"][q] <= hi + 2e-3,
                              lambda: f"{g} equal={eq} optimizing={opt}: spacings not ordered {got}")
                    if not opt:
                        for f in (1.4, 0.5):
                            ctx.check(abs(got[f][q] - f * got["mean"][q]) < 2e-3 * got[f][q] + 2e-3, lambda: f"{g} equal={eq}: scale {f} gives {got[f]} for mean {got['mean']}")
                    if g["p"] == 0 and not eq:
                        want = g["sp"][q]
                        for sc in ("mean", "max", "min", "median"):
                            ctx.check(abs(got[sc][q] - want) < 0.02, lambda: f"{g} {sc} optimizing={opt}: spacing {got[sc]} instead of {g['sp']}")
                if g["p"] == 0 and eq:
                    want = {"mean": (dy + dx) / 2, "median": (dy + dx) / 2, "max": max(dy, dx), "min": min(dy, dx)}
                    for sc, v in want.items():
                        ctx.check(abs(got[sc][0] - v) < 0.02, lambda: f"{g} {sc}: common spacing {got[sc]} instead of {v}")
                ctx.interesting()
