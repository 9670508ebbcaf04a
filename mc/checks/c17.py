import itertools
import warnings
import numpy as np
from mc import ref, grids
from mc.checks.c16 import drop, DROPS
from discorpy.proc import processing as proc

ref.require_repo()


def scale_fit(u, t):
    s = float((u * t).sum() / (u * u).sum())
    return np.abs(u * s - t).max(), s


def err_forward(G, co, D, xc, yc):
    y, x = ref.radial(D[..., 0], D[..., 1], xc, yc, co)
    u = np.stack([y - yc, x - xc], -1)
    return scale_fit(u, G - [yc, xc])


def err_backward(G, co, D, xc, yc, s0):
    """Distance between the distorted points and the model applied to the
    (scaled) undistorted ones; the scale is searched in a fixed grid."""
    best = (np.inf, None)
    lo, hi = s0 - 0.03, s0 + 0.03
    for _ in range(4):
        ss = np.linspace(lo, hi, 13)
        es = []
        for s in ss:
            y, x = ref.radial(yc + (G[..., 0] - yc) * s, xc + (G[..., 1] - xc) * s, xc, yc, co)
            es.append(np.abs(np.stack([y, x], -1) - D).max())
        k = int(np.argmin(es))
        if es[k] < best[0]:
            best = (es[k], ss[k])
        st = ss[1] - ss[0]
        lo, hi = ss[k] - st, ss[k] + st
    return best


class Check:
    PID = "C17"
    RULE = "state = (grid, spacing, centre relative to the lines, model, tilt, number of coefficients, optimisation, missing points); fitted models applied to all points and compared with the undistorted grid"
    BOUNDS = {"quick": "4 line counts x 2 spacings x 12 centre offsets (incl. exactly on lines) x 4 tilts x 7 models x 3 fits x {plain, optimised}; coefficient counts 0..12",
              "thorough": "8 line counts x 4 spacings x 25 centre offsets x 7 tilts x 7 models x 3 fits x {plain, optimised}, 5 data variants in turn"}
    ASSUMPTIONS = ["the distortion moves the outermost point by at most 5 percent of its radius"]

    def space(self, tier):
        deep = tier == "thorough"
        sizes = [(9, 9), (12, 9), (13, 17), (7, 15)] + ([(8, 8), (21, 10), (10, 21), (25, 25)] if deep else [])
        sps = [20, 50] + ([9, 33.3] if deep else [])
        # centre in units of the spacing from the middle of the grid
        offs = [(0, 0), (0, 1), (-1, 0), (0.5, 0.5), (0.004, 0), (0.03, -0.04), (0.25, 0.75), (-1.2, 0.6), (1.5, -0.5), (-0.5, 0.02), (1, 1), (-0.9, -1.3)]
        if deep:
            offs = offs + [(0.008, 0.012), (0.011, -0.011), (0.1, 0.9), (-2, 1), (1.99, 0), (0.49, 0.51), (0.0, 0.5),
                           (0.5, 0.0), (-0.25, -0.25), (0.75, 1.01), (1.0, -0.001), (0.33, 0.66), (-1.5, -1.5)]
        tilts = [0.0, 3.0, -10.0, 1.0] + ([-0.2, 6.0, 8.5] if deep else [])
        n = 0
        for s in sizes:
            for sp in sps:
                for o in offs:
                    for t in tilts:
                        for d in [DROPS[n % 5]]:
                            n += 1
                            yield {"k": "fit", "s": list(s), "sp": sp, "o": list(o), "t": t, "d": d, "n": 5}
        for s in ((9, 9), (12, 9), (7, 15), (8, 13)):
            for sp in (20, 31.5):
                for q in (0.0, 0.004, -0.004, 0.012):
                    yield {"k": "opt", "s": list(s), "sp": sp, "q": q, "o": [0, 0], "t": 0.0}
        for dt in ("uint8", "int8", "int16", "uint16", "int32", "uint32", "int64"):
            for xc, yc in ((100, 90), (61, 103), (110, 80)):
                for nf in (1, 3, 5):
                    yield {"k": "int", "dt": dt, "xc": xc, "yc": yc, "n": nf}
        for nf in (0, 1, 2, 3, 4, 6, 7, 11, 12, -3):
            for s in ((9, 9), (8, 13)):
                for o in ((0.0, 0.0), (0.3, 0.4)):
                    yield {"k": "num", "s": list(s), "sp": 20, "o": list(o), "t": 2.0, "d": "none", "n": nf}
        for s in ((15, 15), (12, 18)):
            for o in ((0.0, 0.0), (0.3, 0.4)):
                for miss in range(3, 9):
                    for hv in (0, 1):
                        yield {"k": "gap", "s": list(s), "sp": 20, "o": list(o), "t": 2.0, "miss": miss, "hv": hv}

    def opt(self, g, ctx):
        """Straight lines, unevenly spaced, seen from a centre on the middle
        lines: the optimised line distance is the least-squares one and a model
        of one coefficient is the mean ratio of optimised to seen distances."""
        warnings.simplefilter("ignore")
        ny, nx = g["s"]
        ih, iv = np.arange(ny) - ny // 2, np.arange(nx) - nx // 2
        ch = g["sp"] * ih * (1 + g["q"] * ih ** 2)
        cv = g["sp"] * iv * (1 + 0.5 * g["q"] * iv ** 2)
        xs, ys = np.linspace(-150.0, 160.0, 11), np.linspace(-140.0, 170.0, 11)
        yc, xc = 220.0, 305.0
        H = [np.column_stack((np.full(11, yc + c), xs + xc)) for c in ch]
        V = [np.column_stack((ys + yc, np.full(11, xc + c))) for c in cv]
        r = []
        for i, c in ((ih, ch), (iv, cv)):
            d = (i * c).sum() / (i * i).sum()
            r.append(i[i != 0] * d / c[i != 0])
        r = np.concatenate(r)
        f = ctx.call(proc.calc_coef_forward, H, V, xc, yc, 1, optimizing=True, threshold=9.0)
        b = ctx.call(proc.calc_coef_backward, H, V, xc, yc, 1, optimizing=True, threshold=9.0)
        ff, bb = ctx.call(proc.calc_coef_backward_from_forward, H, V, xc, yc, 1, optimizing=True, threshold=9.0)
        for name, got, want in (("forward", f, r.mean()), ("backward", b, (1 / r).mean()), ("combined forward", ff, r.mean()), ("combined backward", bb, 1 / r.mean())):
            ctx.check(np.shape(got) == (1,) and abs(got[0] - want) < 2e-4, lambda: f"{name} model after optimisation is {got}, least squares give {want} for {g}")
        ctx.outcome(np.round(f, 5))
        ctx.interesting(g["q"] != 0)

    def whole(self, g, ctx):
        """The type of whole-number coordinates and of the centre does not matter."""
        x = np.arange(8.0) * (28 if g["dt"] != "int8" else 14)
        m = 1 if g["dt"] != "int8" else 2
        Y, X = np.meshgrid(x, x, indexing="ij")
        r2 = (X - g["xc"] / m) ** 2 + (Y - g["yc"] / m) ** 2
        f = 1 - 2e-6 * r2
        Y, X = np.rint(g["yc"] / m + f * (Y - g["yc"] / m) + 4), np.rint(g["xc"] / m + f * (X - g["xc"] / m) + 4)
        H = [np.c_[Y[i], X[i]] for i in range(8)]
        V = [np.c_[Y[:, i], X[:, i]] for i in range(8)]
        cast = lambda L: [l.astype(g["dt"]) for l in L]
        xc, yc = g["xc"] // m, g["yc"] // m
        for fn in (proc.calc_coef_backward, proc.calc_coef_forward, proc.calc_coef_backward_from_forward):
            a = np.concatenate([np.ravel(q) for q in [ctx.call(fn, H, V, float(xc), float(yc), g["n"])]])
            b = np.concatenate([np.ravel(q) for q in [ctx.call(fn, cast(H), cast(V), xc, yc, g["n"])]])
            ctx.check(np.allclose(a, b, rtol=1e-6, atol=1e-12), lambda: f"{fn.__name__} {g}: {b} for whole numbers, {a} for the same as floating point")
            ctx.outcome(np.round(a, 9))
        ctx.interesting()

    def run(self, g, ctx):
        if g["k"] == "int":
            return self.whole(g, ctx)
        if g["k"] == "opt":
            return self.opt(g, ctx)
        ny, nx = g["s"]
        d = g["sp"]
        h, w = ny * d, nx * d
        oy, ox = h / 2 - 17.0, w / 2 + 31.0
        yc, xc = oy + g["o"][0] * d, ox + g["o"][1] * d
        R = 0.5 * np.hypot(h, w)
        G = grids.base_grid(ny, nx, d, d, oy, ox, g["t"])
        # put the centre at the requested offset from the lines also when tilted
        a = np.deg2rad(g["t"])
        mid = grids.base_grid(1, 1, d, d, oy, ox, 0)[0, 0]
        fy, fx = g["o"][0] * d, g["o"][1] * d
        half_y = 0.0 if ny % 2 else 0.5 * d
        half_x = 0.0 if nx % 2 else 0.5 * d
        fy, fx = fy + half_y, fx + half_x
        yc = mid[0] + fy * np.cos(a) + fx * np.sin(a)
        xc = mid[1] + fx * np.cos(a) - fy * np.sin(a)
        for m, co in grids.models(R).items():
            D = grids.distort(G, xc, yc, co)
            H, V = grids.lines(D)
            if g["k"] == "gap":
                with warnings.catch_warnings(record=True) as w0:
                    warnings.simplefilter("always")
                    ctx.call(proc.calc_coef_forward, H, V, xc, yc, 3)
                ctx.check(not [x for x in w0 if issubclass(x.category, UserWarning)], "warning on a complete grid")
                L = (H, V)[g["hv"]]
                del L[g["miss"]]
                for f in (proc.calc_coef_forward, proc.calc_coef_backward, proc.calc_coef_backward_from_forward):
                    with warnings.catch_warnings(record=True) as w0:
                        warnings.simplefilter("always")
                        ctx.call(f, H, V, xc, yc, 3)
                    ctx.check(bool([x for x in w0 if issubclass(x.category, UserWarning)]), lambda: f"no warning for a missing line {g}")
                    with warnings.catch_warnings(record=True) as w0:
                        warnings.simplefilter("always")
                        ctx.call(f, H, V, xc, yc, 3, threshold=5.0)
                    ctx.check(not [x for x in w0 if issubclass(x.category, UserWarning)], lambda: "warning in spite of the threshold")
                ctx.interesting()
                continue
            warnings.simplefilter("ignore")
            Hd, Vd = drop(H, g["d"]), drop(V, g["d"])
            n = max(1, g["n"])
            tol = 0.05 + (0.003 if abs(g["t"]) <= 5 and g["d"] in ("none", "list", "f32") else 0.02 if g["d"] == "ends" else 0.009) * R
            if n < 3:
                tol = 0.06 * R
            elif n > 5:
                tol *= 2
            if n > 7:
                tol = np.inf
            for opt in (False, True):
                f = np.asarray(ctx.call(proc.calc_coef_forward, Hd, Vd, xc, yc, g["n"], optimizing=opt))
                b = np.asarray(ctx.call(proc.calc_coef_backward, Hd, Vd, xc, yc, g["n"], optimizing=opt))
                ff, bb = ctx.call(proc.calc_coef_backward_from_forward, Hd, Vd, xc, yc, g["n"], optimizing=opt)
                for c in (f, b, ff, bb):
                    ctx.check(np.asarray(c).shape == (n,), lambda: f"{np.shape(c)} coefficients instead of {n}")
                    ctx.check(bool(np.all(np.isfinite(c))), "coefficients are not finite")
                ctx.check(np.allclose(f * R ** np.arange(n), ff * R ** np.arange(n), rtol=1e-6, atol=1e-9), "the combined fit has another forward model")
                if n > 7:
                    continue
                e, s = err_forward(G, f, D, xc, yc)
                ctx.check(e <= tol, lambda: f"{m}: forward model leaves errors of {e} pixels (tolerance {tol}, optimizing={opt})")
                ctx.check(abs(s - 1) < 0.05, lambda: f"{m}: forward model scales by {s}")
                e, s = err_backward(G, b, D, xc, yc, 1 / s)
                ctx.check(e <= tol, lambda: f"{m}: backward model leaves errors of {e} pixels (tolerance {tol}, optimizing={opt})")
                e, s = err_backward(G, bb, D, xc, yc, s)
                ctx.check(e <= tol, lambda: f"{m}: combined backward model leaves errors of {e} pixels (tolerance {tol}, optimizing={opt})")
                ctx.outcome(np.round(f * R ** np.arange(n), 4))
            ctx.interesting()
