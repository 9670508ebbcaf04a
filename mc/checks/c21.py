import itertools
import warnings
import numpy as np
from mc import ref, grids
from discorpy.proc import processing as proc

ref.require_repo()
PERS = [None, [1, 0.01, 0, -0.005, 1, 0, 3e-5, -2e-5], [1, -0.01, 0, 0.02, 1, 0, -1e-4, 1e-4], [1, 0, 0, 0, 1, 0, 1e-4, 0], [1, 0.02, 0, -0.02, 1, 0, 0, -1e-4]]


def coefs(H, V, xc, yc):
    return (np.asarray([np.polyfit(np.asarray(l)[:, 1] - xc, np.asarray(l)[:, 0] - yc, 2) for l in H]),
            np.asarray([np.polyfit(np.asarray(l)[:, 0] - yc, np.asarray(l)[:, 1] - xc, 2) for l in V]))


def representative(co, sign, how):
    """(slope, intercept) that stands for the lines curved to one side."""
    co = co[np.sign(co[:, 0]) == sign]
    if how in ("max", "min"):
        k = np.argmax(np.abs(co[:, 0])) if how == "max" else np.argmin(np.abs(co[:, 0]))
        return co[k, 1], co[k, 2]
    f = np.median if how == "median" else np.mean
    return f(co[:, 1]), f(co[:, 2])


def hom_matrix(s, t):
    def norm(p):
        m, k = p.mean(0), np.sqrt(2) / p.std()
        return (p - m) * k, np.array([[k, 0, -k * m[0]], [0, k, -k * m[1]], [0, 0, 1]])
    a, A = norm(s)
    b, B = norm(t)
    M = []
    for (x, y), (u, v) in zip(a, b):
        M.append([x, y, 1, 0, 0, 0, -u * x, -u * y, -u])
        M.append([0, 0, 0, x, y, 1, -v * x, -v * y, -v])
    h = np.linalg.svd(np.asarray(M))[2][-1].reshape(3, 3)
    return np.linalg.inv(B) @ h @ A


def apply(M, p):
    q = np.column_stack((p, np.ones(len(p)))) @ M.T
    return q[:, :2] / q[:, 2:]


class Check:
    PID = "C21"
    RULE = "state = (grid, centre, model, tilt, perspective, method, scale); corrected lines checked for counts, order, common slopes, frame invariance and sizes; all subsets of curvature signs checked for rejection"
    BOUNDS = {"quick": "4 grids x 3 centres x 4 models x 3 tilts x 5 perspectives x 4 methods x 4 scales; 81 curvature patterns",
              "thorough": "9 grids x 6 centres x 7 models x 5 tilts x 5 perspectives x 4 methods x 5 scales; 81 curvature patterns"}

    def space(self, tier):
        deep = tier == "thorough"
        for s in [(9, 9), (8, 13), (12, 9), (4, 5)] + ([(6, 6), (15, 11), (20, 20), (4, 4), (5, 4)] if deep else []):
            for c in [(0.45, 0.54), (0.5, 0.5), (0.57, 0.44)] + ([(0.4, 0.6), (0.52, 0.47), (0.6, 0.5)] if deep else []):
                for m in ["b2", "p2", "b3", "p1"] + (["b1", "b5", "p5"] if deep else []):
                    for t in [0.0, 3.0, -8.0] + ([1.0, 6.0] if deep else []):
                        for p in range(5):
                            yield {"k": "fix", "s": list(s), "c": list(c), "m": m, "t": t, "p": p, "deep": deep}
        for sg in itertools.product((-1, 0, 1), repeat=4):
            yield {"k": "sign", "sg": list(sg)}
        for n in range(0, 5):
            for dt in ("float64", "float32", "int64", "int32", "int16", "uint8", "uint16", "list"):
                yield {"k": "upd", "n": n, "dt": dt}
        for nh in range(0, 4):
            for nv in range(0, 4):
                yield {"k": "few", "nh": nh, "nv": nv}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, g["k"])(g, ctx)

    def curved(self, kinds, hor, n=7):
        out = []
        for i, k in enumerate(kinds):
            x = np.linspace(-60.0, 60.0, n)
            c = (i - (len(kinds) - 1) / 2.0) * 40 + 3.0
            y = c + k * 4e-4 * x * x + 0.02 * x * (1 if hor else -1)
            # exactly representable curvature for the flat kind
            l = np.column_stack((y, x)) if hor else np.column_stack((x, y))
            out.append(l + [100.0, 130.0])
        return out

    def sign(self, g, ctx):
        h, v = g["sg"][:2], g["sg"][2:]
        H, V = self.curved(h, True), self.curved(v, False)
        ok = {1, -1} <= set(h) and {1, -1} <= set(v)
        flat = 0 in g["sg"]
        if ok:
            r = ctx.call(proc.correct_perspective_effect, H, V, 130.0, 100.0)
            ctx.check(len(r[0]) == 2 and len(r[1]) == 2, "line count")
        elif not flat:
            # a flat line's fitted curvature is rounding noise of either sign
            ctx.raises(ValueError, proc.correct_perspective_effect, H, V, 130.0, 100.0)
        ctx.outcome(g["sg"])
        ctx.interesting(not ok)

    def upd(self, g, ctx):
        for cx, cy in ((0.0, 0.0), (12.25, -7.5), (1e5 + 0.123, -3e4 - 0.7), (33333, 65537)):
            L = [np.asarray([[i + 3.0 * k, 7.0 * k + i * i] for k in range(1, 2 + i)]) for i in range(g["n"])]
            if g["dt"] in ("float64", "list"):
                L = [l + 0.123456789 for l in L]
            A = [l.tolist() for l in L] if g["dt"] == "list" else [l.astype(g["dt"]) for l in L]
            out = ctx.call(proc.update_center, A, cx, cy)
            ctx.check(len(out) == len(L), "number of lines changed")
            for a, b in zip(L, out):
                ctx.check(np.shape(b) == a.shape and np.allclose(b, a + [cy, cx], rtol=0, atol=1e-9 if g["dt"] != "float32" else 0.02), lambda: f"update_center({g}, {cx}, {cy}) moves {a.tolist()} to {np.asarray(b).tolist()}")
        ctx.outcome((g["n"], g["dt"]))

    def few(self, g, ctx):
        H = self.curved([-1 if i == 0 else 1 for i in range(g["nh"])], True)
        V = self.curved([-1 if i == 0 else 1 for i in range(g["nv"])], False)
        if g["nh"] < 2 or g["nv"] < 2:
            ctx.raises(ValueError, proc.correct_perspective_effect, H, V, 130.0, 100.0)
        else:
            r = ctx.call(proc.correct_perspective_effect, H, V, 130.0, 100.0)
            ctx.check(len(r[0]) == g["nh"] and len(r[1]) == g["nv"], "line count")
        ctx.outcome((g["nh"], g["nv"]))

    def fix(self, g, ctx):
        ny, nx = g["s"]
        d = 30.0
        h, w = ny * d, nx * d
        xc, yc = g["c"][0] * w + 53, g["c"][1] * h + 22
        R = 0.5 * np.hypot(h, w)
        G = grids.base_grid(ny, nx, d, d, h / 2 + 20, w / 2 + 50, g["t"])
        co = grids.models(R)[g["m"]]
        plain = grids.lines(grids.distort(G, xc, yc, co))
        if PERS[g["p"]] is None:
            H, V = plain
        else:
            k = 350.0 / max(h, w)
            P = PERS[g["p"]][:6] + [v * k for v in PERS[g["p"]][6:]]
            H, V = grids.lines(grids.distort(grids.perspective(G, P, yc, xc), xc, yc, co))
        b0 = coefs(*plain, xc, yc)
        b1 = coefs(H, V, xc, yc)
        def rect(La, Lv, Lb, meth, what):
            cf = coefs(La, Lv, xc, yc)
            # one projective map took all the points, and it makes the representative lines a rectangle
            sp, tp = np.concatenate(La) - [yc, xc], np.concatenate(Lb) - [yc, xc]
            M = hom_matrix(sp, tp)
            e = np.abs(apply(M, sp) - tp).max()
            ctx.check(e < 0.01, lambda: f"{what}: the points did not move by one projective map ({e})")
            q = []
            for sy in (1, -1):
                for sx in (1, -1):
                    (b, cc), (bv, cv) = representative(cf[0], sy, meth), representative(cf[1], sx, meth)
                    y = (b * cv + cc) / (1 - b * bv)
                    q.append((y, bv * y + cv))
            q = apply(M, np.asarray(q))
            for i, j, k in ((0, 1, 2), (1, 0, 3), (2, 3, 0), (3, 2, 1)):
                u, v = q[j] - q[i], q[k] - q[i]
                cs = u @ v / np.hypot(*u) / np.hypot(*v)
                ctx.check(abs(cs) < 1e-3, lambda: f"{what}: the representative lines meet at cos {cs} after the correction")

        for meth in ("mean", "median", "max", "min"):
            sizes = {}
            for sc in ["mean", "max", "min", 0.8] + ([1.25] if g["deep"] else []):
                kH, kV = [l.copy() for l in H], [l.copy() for l in V]
                H1, V1 = ctx.call(proc.correct_perspective_effect, H, V, xc, yc, method=meth, scale=sc)
                what = f"{g} method={meth} scale={sc}"
                ctx.check(all(np.array_equal(a, b) for a, b in zip(kH + kV, H + V)), "input modified")
                ctx.check([len(l) for l in H1] == [len(l) for l in H] and [len(l) for l in V1] == [len(l) for l in V], lambda: f"{what}: lines or points lost")
                H1, V1 = np.asarray(H1, float), np.asarray(V1, float)
                e = np.abs(H1 - V1.transpose(1, 0, 2)).max()
                ctx.check(e < 0.01, lambda: f"{what}: node positions differ by {e} between horizontal and vertical lines")
                c = coefs(H1, V1, xc, yc)
                for q in ((0, 1) if isinstance(sc, str) else ()):
                    lim = 1.1 * np.ptp(b0[q][:, 1]) + 0.15 * max(np.ptp(b1[0][:, 1]), np.ptp(b1[1][:, 1])) + 1.5e-3
                    sp = np.ptp(c[q][:, 1])
                    ctx.check(sp <= lim, lambda: f"{what}: slopes still differ by {sp} (before {np.ptp(b1[q][:, 1])}, without perspective {np.ptp(b0[q][:, 1])})")
                rect(H, V, H1, meth, what)
                sm = c[0][:, 1].mean() + c[1][:, 1].mean()
                ctx.check(not isinstance(sc, str) or abs(sm) <= 1.5e-3 + 8e-4 * abs(g["t"]), lambda: f"{what}: the two directions are not perpendicular ({sm})")
                ctx.check(np.all(np.diff(c[0][:, 2]) > 0) and np.all(np.diff(c[1][:, 2]) > 0), lambda: f"{what}: order of the lines changed")
                if g["p"] == 0 and sc in ("mean", "max", "min"):
                    e = max(np.abs(H1 - np.asarray(H)).max(), np.abs(V1 - np.asarray(V)).max())
                    ctx.check(e <= R * (0.002 + 0.001 * abs(g["t"])), lambda: f"{what}: lines without perspective moved by {e}")
                sizes[sc] = np.asarray([np.hypot(*(H1[0, -1] - H1[0, 0])), np.hypot(*(V1[0, -1] - V1[0, 0])), np.hypot(*(H1[-1, -1] - H1[0, 0]))])
                if sc == "mean":
                    first = H1, V1
                ctx.outcome(np.round(H1, 2))
            # unevenly spaced lines: one line of each set taken out
            for dh, dv in ((1, 1), (-2, 2)):
                Hu, Vu = list(H), list(V)
                del Hu[dh], Vu[dv]
                H1, V1 = ctx.call(proc.correct_perspective_effect, Hu, Vu, xc, yc, method=meth)
                rect(Hu, Vu, H1, meth, f"{g} method={meth} without lines {dh} and {dv}")
            for f in [s for s in sizes if isinstance(s, float)]:
                ctx.check(np.allclose(sizes[f], f * sizes["mean"], rtol=3e-3), lambda: f"{what}: scale {f} gives sizes {sizes[f]} for {sizes['mean']}")
            ctx.check(np.all(sizes["min"] <= sizes["mean"] * 1.0005) and np.all(sizes["mean"] <= sizes["max"] * 1.0005), lambda: f"{what}: sizes not ordered {sizes}")
            # frame: shifted and transposed problems
            H1, V1 = first
            dy, dx = 37.0, -21.5
            H2, V2 = ctx.call(proc.correct_perspective_effect, [l + [dy, dx] for l in H], [l + [dy, dx] for l in V], xc + dx, yc + dy, method=meth)
            # (the sign of a mean slope that is zero up to rounding is arbitrary)
            ctx.check(np.abs(np.asarray(H2) - [dy, dx] - H1).max() < 0.01 or abs(g["t"]) < 2, lambda: f"{what}: the result depends on the origin")
            V2, H2 = ctx.call(proc.correct_perspective_effect, [l[:, ::-1] for l in V], [l[:, ::-1] for l in H], yc, xc, method=meth)
            e = np.abs(np.asarray(H2)[:, :, ::-1] - H1).max()
            # with mean slopes of the same sign the orientation of the target follows the horizontal one
            ctx.check(e < 0.02 or abs(g["t"]) < 2, lambda: f"{what}: exchange of x and y changes the result by {e}")
        ctx.interesting(g["p"] > 0)
