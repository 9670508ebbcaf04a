import itertools
import warnings
import numpy as np
from mc import ref, grids
from mc.checks.c16 import parabolic
from discorpy.proc import processing as proc

ref.require_repo()


def straight(ny, nx, dy, dx, sh, sv, fan, seed):
    """Straight lines with individual slopes; points of a line exactly on it."""
    H, V, ch, cv = [], [], [], []
    for i in range(ny):
        a, b = sh + fan * (i - ny / 2.0) / ny, 30.0 + dy * i + seed * (i % 3)
        x = 12.0437 + np.arange(nx + 2) * dx * 0.9973
        H.append(np.column_stack((a * x + b, x)))
        ch.append((a, b))
    for j in range(nx):
        a, b = sv - fan * (j - nx / 2.0) / nx, 45.0 + dx * j - seed * (j % 2)
        y = 7.0381 + np.arange(ny + 1) * dy * 1.0023
        V.append(np.column_stack((y, a * y + b)))
        cv.append((a, b))
    return H, V, ch, cv


def crossing(a1, b1, a2, b2):
    # y = a1 x + b1, x = a2 y + b2
    x = (a2 * b1 + b2) / (1 - a1 * a2)
    return a1 * x + b1, x


def newton(p, q, x, y):
    for _ in range(60):
        f = p[0] * x * x + p[1] * x + p[2] - y
        g = q[0] * y * y + q[1] * y + q[2] - x
        a, b, c, d = 2 * p[0] * x + p[1], -1.0, -1.0, 2 * q[0] * y + q[1]
        det = a * d - b * c
        x, y = x - (d * f - b * g) / det, y - (a * g - c * f) / det
    return y, x


class Check:
    PID = "C19"
    RULE = "state = (line set, curvature, slopes, option); every grid node compared with an independent crossing of the two fitted lines; transposition duality"
    BOUNDS = {"quick": "all line counts 2..5 x 2..5, 5x5 slope pairs, 3 fans, 3 offsets (linear); up to 120 lines; 5 counts x 5 curvatures x 5 tilts x 3 positions (parabolic), 3 perspectives",
              "thorough": "all line counts 2..7 x 2..7, 9x9 slope pairs, 3 fans, 3 offsets (linear); 8 counts x 9 curvatures x 9 tilts x 5 positions (parabolic), 5 perspectives"}

    def space(self, tier):
        deep = tier == "thorough"
        m = 8 if deep else 6
        ss = np.linspace(-0.3, 0.3, 9 if deep else 5)
        for ny in range(2, m):
            for nx in range(2, m):
                for sh in ss:
                    yield {"k": "lin", "ny": ny, "nx": nx, "sh": float(sh), "sv": [float(v) for v in ss]}
        # many lines, many points on each
        for ny, nx in [(35, 8), (8, 35), (33, 34), (3, 120), (120, 3)]:
            yield {"k": "lin", "ny": ny, "nx": nx, "sh": 0.03, "sv": [-0.02], "few": 1}
        for s in [(33, 9), (9, 33), (34, 35), (70, 5)]:
            for c in (0.03, -0.03):
                yield {"k": "par", "s": list(s), "c": c, "t": 0.04, "o": [0, 0]}
        sizes = [(5, 5), (6, 9), (9, 6), (8, 8), (12, 11)] + ([(7, 13), (15, 15), (20, 8)] if deep else [])
        cur = [0.0, 0.02, -0.02, 0.06, -0.06] + ([0.1, -0.1, 0.005, -0.04] if deep else [])
        tl = [0.0, 0.05, -0.05, 0.15, -0.15] + ([0.01, -0.02, 0.1, 0.2] if deep else [])
        for s in sizes:
            for c in cur:
                for t in tl:
                    for o in ([(0, 0), (300, -120), (-50, 800)] + ([(150, 90), (33.3, 0.7)] if deep else [])):
                        yield {"k": "par", "s": list(s), "c": c, "t": t, "o": list(o)}
        for s in sizes:
            for c in cur[1:]:
                for t in tl:
                    for p in range(5 if deep else 3):
                        for asp in (1.0, 1.3, 0.8):
                            yield {"k": "per", "s": list(s), "c": c, "t": t, "p": p, "asp": asp}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, g["k"])(g, ctx)

    def compare(self, ctx, Hn, Vn, exp, tol, what):
        Hn, Vn = np.asarray(Hn), np.asarray(Vn)
        ny, nx = exp.shape[:2]
        ctx.check(Hn.shape == (ny, nx, 2) and Vn.shape == (nx, ny, 2), lambda: f"{what}: shapes {Hn.shape} {Vn.shape} for {ny}x{nx} lines")
        e = np.abs(Hn - exp).max(axis=2)
        ctx.check(e.max() <= tol, lambda: f"{what}: node {np.unravel_index(e.argmax(), e.shape)} is {Hn[np.unravel_index(e.argmax(), e.shape)]} instead of {exp[np.unravel_index(e.argmax(), e.shape)]}")
        ctx.check(np.array_equal(Vn, Hn.transpose(1, 0, 2)), lambda: f"{what}: vertical lines are not the same nodes")
        ctx.outcome(np.round(Hn, 3))

    def lin(self, g, ctx):
        ny, nx = g["ny"], g["nx"]
        for sv in g["sv"]:
            for fan in (0.0, 0.05, -0.08)[:1 if g.get("few") else 3]:
                for seed in (0.0, 1.7, -4.0)[1 if g.get("few") else 0:2 if g.get("few") else 3]:
                    H, V, ch, cv = straight(ny, nx, 31.0, 43.0, g["sh"], sv, fan, seed)
                    exp = np.asarray([[crossing(*ch[i], *cv[j]) for j in range(nx)] for i in range(ny)])
                    kh, kv = [l.copy() for l in H], [l.copy() for l in V]
                    Hn, Vn = ctx.call(proc.regenerate_grid_points_linear, H, V)
                    ctx.check(all(np.array_equal(a, b) for a, b in zip(kh + kv, H + V)), "input modified")
                    self.compare(ctx, Hn, Vn, exp, 2e-3, f"linear {g} {sv} {fan} {seed}")
                    Hn, Vn = ctx.call(proc.regenerate_grid_points_linear, np.asarray(ch), np.asarray(cv), is_coef=True)
                    self.compare(ctx, Hn, Vn, exp, 2e-3, "from coefficients")
                    # points off the line: least squares decides
                    Hz = [l + np.column_stack((0.4 * (-1.0) ** np.arange(len(l)), np.zeros(len(l)))) for l in H]
                    Hn, Vn = ctx.call(proc.regenerate_grid_points_linear, Hz, V)
                    cz = [np.polyfit(l[:, 1], l[:, 0], 1) for l in Hz]
                    exp2 = np.asarray([[crossing(*cz[i], *cv[j]) for j in range(nx)] for i in range(ny)])
                    self.compare(ctx, Hn, Vn, exp2, 2e-3, "linear fit of scattered points")
                    # duality
                    Vt, Ht = ctx.call(proc.regenerate_grid_points_linear, [l[:, ::-1] for l in V], [l[:, ::-1] for l in Hz])
                    ctx.check(np.allclose(np.asarray(Ht)[:, :, ::-1], Hn, atol=2e-3), "exchange of x and y changes the grid")
                    ctx.interesting()

    def par(self, g, ctx):
        ny, nx = g["s"]
        d = 30.0
        h, w = ny * d, nx * d
        xc, yc = 0.47 * w + g["o"][1], 0.54 * h + g["o"][0]
        H, V = parabolic(ny, nx, d, d, xc, yc, g["c"] / (0.5 * max(h, w)) ** 2, g["t"], h, w, (0.3, 0.4))
        if g["o"] != [0, 0]:
            H = [l + [0.0, g["o"][1]] for l in H]
            V = [l + [g["o"][0], 0.0] for l in V]
            # re-draw the parabolas at the moved abscissae
            k = g["c"] / (0.5 * max(h, w)) ** 2
            for i, l in enumerate(H):
                c = (i - ny // 2 + 0.3) * d
                l[:, 0] = yc + c + k * c * (l[:, 1] - xc) ** 2 + g["t"] * (l[:, 1] - xc)
            for j, l in enumerate(V):
                c = (j - nx // 2 + 0.4) * d
                l[:, 1] = xc + c + k * c * (l[:, 0] - yc) ** 2 - g["t"] * (l[:, 0] - yc)
        ch = [np.polyfit(l[:, 1] - xc, l[:, 0] - yc, 2) for l in H]
        cv = [np.polyfit(l[:, 0] - yc, l[:, 1] - xc, 2) for l in V]
        exp = np.empty((ny, nx, 2))
        for i in range(ny):
            for j in range(nx):
                y, x = newton(ch[i], cv[j], cv[j][2], ch[i][2])
                exp[i, j] = y + yc, x + xc
        for fc in ([False, True] if g["c"] and max(np.abs(g["o"])) <= 160 else [bool(g["c"])]):
            Hn, Vn = ctx.call(proc.regenerate_grid_points_parabola, H, V, perspective=False, find_center=fc)
            self.compare(ctx, Hn, Vn, exp, 0.01, f"parabola {g} find_center={fc}")
        Vt, Ht = ctx.call(proc.regenerate_grid_points_parabola, [l[:, ::-1] for l in V], [l[:, ::-1] for l in H], find_center=bool(g["c"]))
        ctx.check(np.allclose(np.asarray(Ht)[:, :, ::-1], Hn, atol=0.02), "exchange of x and y changes the grid")
        ctx.interesting(g["c"] != 0)

    def per(self, g, ctx):
        ny, nx = g["s"]
        d = 30.0
        h, w = ny * d, nx * d * g["asp"]
        xc, yc = 0.47 * w, 0.54 * h
        H, V = parabolic(ny, nx, d, d * g["asp"], xc, yc, g["c"] / (0.5 * max(h, w)) ** 2, g["t"], h, w, (0.3, 0.4))
        P = [[1, 0, 0, 0, 1, 0, 0, 0], [1, 0.01, 0, -0.005, 1, 0, 3e-5, -2e-5], [1, -0.01, 0, 0.02, 1, 0, -5e-5, 6e-5],
             [1, 0, 0, 0, 1, 0, 8e-5, 0], [1, 0.03, 0, 0.03, 1, 0, 0, -8e-5]][g["p"]]
        H = [grids.perspective(l, P, yc, xc) for l in H]
        V = [grids.perspective(l, P, yc, xc) for l in V]
        Hn, Vn = ctx.call(proc.regenerate_grid_points_parabola, H, V, perspective=True)
        ctx.check(np.asarray(Hn).shape == (ny, nx, 2) and np.array_equal(np.asarray(Vn), np.asarray(Hn).transpose(1, 0, 2)), "shape")
        cx, cy = ctx.call(proc.find_cod_bailey, H, V)
        Hn, Vn = np.asarray(Hn, float), np.asarray(Vn, float)
        ch = np.asarray([np.polyfit(l[:, 1] - cx, l[:, 0] - cy, 2) for l in Hn])
        cv = np.asarray([np.polyfit(l[:, 0] - cy, l[:, 1] - cx, 2) for l in Vn])
        what = f"perspective removal {g}"
        sl = np.concatenate((ch[:, 1], -cv[:, 1]))
        ctx.check(np.ptp(sl) < 1e-3, lambda: f"{what}: slopes {sl} are not common")
        if g["p"] == 0:
            ctx.check(np.abs(sl - g["t"]).max() < 0.004, lambda: f"{what}: slope {sl[0]} instead of {g['t']}")
        # spacing next to the centre is the same in both directions
        kh, kv = int(np.argmin(np.abs(ch[:, 2]))), int(np.argmin(np.abs(cv[:, 2])))
        sh = [abs(ch[i + 1, 2] - ch[i, 2]) for i in (kh - 1, kh) if 0 <= i < ny - 1]
        sv = [abs(cv[i + 1, 2] - cv[i, 2]) for i in (kv - 1, kv) if 0 <= i < nx - 1]
        a, b = np.mean(sh), np.mean(sv)
        ctx.check(abs(a - b) < 0.02 * a, lambda: f"{what}: spacing {a} across and {b} along")
        ctx.check(abs(a - d * max(1.0, g["asp"])) < 0.03 * a, lambda: f"{what}: spacing {a} instead of {d * max(1.0, g['asp'])}")
        if g["p"] == 0:
            # the radial distortion itself stays
            k = g["c"] / (0.5 * max(h, w)) ** 2
            for q, cc in (("rows", ch), ("columns", cv)):
                e = np.abs(cc[:, 0] - k * cc[:, 2]).max() / (abs(k) * np.abs(cc[:, 2]).max())
                ctx.check(e < 0.2, lambda: f"{what}: curvature of the {q} changed by {e}")
        ctx.check(np.all(np.diff(ch[:, 2]) > 0) and np.all(np.diff(cv[:, 2]) > 0), lambda: f"{what}: order of the lines changed")
        ctx.outcome(np.round(Hn, 2))
        ctx.interesting(g["p"] > 0)
