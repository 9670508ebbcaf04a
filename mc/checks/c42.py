import contextlib
import io
import os
import warnings
import numpy as np
from mc import ref, dots, grids, linegrid, scratch
from discorpy.losa import loadersaver as losa
from discorpy.post import postprocessing as post
from discorpy.prep import linepattern as lp
from discorpy.prep import preprocessing as prep
from discorpy.proc import processing as proc

ref.require_repo()


def undistort(y, x, xc, yc, co, R):
    """Inverse of ref.radial by a fine table (monotonic model)."""
    ru = np.linspace(0, 1.5 * R, 20001)
    rd = ru * ref.F(ru, co)
    n = int(np.argmax(np.append(np.diff(rd) <= 0, True))) + 1
    ru, rd = ru[:n], rd[:n]
    r = np.hypot(y - yc, x - xc)
    s = np.where(r > 0, np.interp(r, rd, ru) / np.where(r > 0, r, 1), 1.0)
    return yc + s * (y - yc), xc + s * (x - xc)


class Check:
    PID = "C42"
    TECHNIQUE = "exhaustive exploration of a finite space of calibration scenarios through the whole chain of the real code, against the known distortion that made each image"
    RULE = "state = (pattern, size, spacing, tilt, centre, position of the pattern, distortion model, way of computing the coefficients); the map from corrected to undistorted coordinates is compared with its best affine fit, the residuals and conclusions of the library with their limits, and the coefficients after a save and a load with those saved"
    BOUNDS = {"quick": "dot patterns (two ways of grouping), line patterns and chessboards; 2 image sizes x 3 tilts x 2 centres x 2 positions of the pattern x 4 distortion models x 3 ways of computing coefficients in rotation",
              "thorough": "the same with 2 spacings in rotation, 5 tilts, 4 centres, 3 positions, 7 distortion models, all ways of computing coefficients, bright and dark patterns"}
    LIMIT = 300

    def space(self, tier):
        deep = tier == "thorough"
        hows = ["backward", "from_forward", "transform"]
        n = 0
        for pat in ("dots", "points", "lines", "chess"):
            for shape in ((420, 500), (520, 400)):
                for d in (26,):
                    for t in ((-6, -2, 0, 3, 5) if deep else (-5, 0, 3)):
                        for c in ([(0, 0), (31, -22), (-25, 30), (12, 17)] if deep else [(0, 0), (31, -22)]):
                            for fr in ([(.5, .5), (.4, .6), (.6, .35)] if deep else [(.5, .5), (.4, .6)]):
                                for m in (("b1", "b2", "b3", "p1", "p2", "b5", "p5") if deep else ("b1", "b2", "p2", "b5")):
                                    n += 1
                                    for k, how in enumerate(hows):
                                        if not deep and (n + n // 4 + k) % 3:
                                            continue
                                        if deep and pat != "dots" and (n + n // 7 + k) % 3:
                                            continue
                                        yield {"pat": pat, "shape": shape, "d": (24, 30)[(n + n // 2) % 2] if deep else d, "t": t, "c": c, "fr": fr, "m": m, "how": how,
                                               "dark": int(n % 2)}

    def image(self, g):
        h, w = g["shape"]
        d, t = g["d"], g["t"]
        tt = np.deg2rad(t)
        u, v = g["fr"][0] * d, g["fr"][1] * d
        cx, cy = g["c"]
        oy, ox = cy - (u * np.cos(tt) + v * np.sin(tt)), cx - (v * np.cos(tt) - u * np.sin(tt))
        xc, yc = w / 2 + cx, h / 2 + cy
        R = np.hypot(h, w) / 2
        co = grids.models(R)[g["m"]]
        if g["pat"] in ("dots", "points"):
            L = dots.lattice(h + 160, w + 160, d, t, oy, ox)
            pts = grids.distort(np.array(list(L.values())) - 80.0, xc, yc, co)
            img = dots.draw(h, w, pts, d * 0.22, soft=True)
            if g["dark"]:
                img = 1 - img
        else:
            y, x = np.mgrid[:h, :w].astype(float)
            y, x = undistort(y, x, xc, yc, co, R)
            p, q = linegrid.across(y, x, h, w, t, oy, ox)
            if g["pat"] == "lines":
                e = lambda a: np.exp(-linegrid.off(a, d) ** 2 / (2 * 1.5 ** 2))
                img = 1 - np.maximum(e(p), e(q))
            else:
                s = lambda a: np.tanh(linegrid.off(a, d) / 0.7) * np.where(np.rint(a / d) % 2 == 0, 1, -1)
                img = 0.5 * (1 + s(p) * s(q))
        return 20 + 100 * img, xc, yc, co, R

    def lines(self, g, img):
        if g["pat"] == "dots":
            b = prep.binarization(img)
            size, dist = prep.calc_size_distance(b)
            b = prep.select_dots_based_ratio(prep.select_dots_based_size(b, size))
            hs, vs = prep.calc_hor_slope(b), prep.calc_ver_slope(b)
            H = prep.group_dots_hor_lines(b, hs, dist)
            V = prep.group_dots_ver_lines(b, vs, dist)
        elif g["pat"] == "points":
            b = prep.binarization(img)
            size, dist = prep.calc_size_distance(b)
            hs, vs = prep.calc_hor_slope(b), prep.calc_ver_slope(b)
            p = prep.get_points_dot_pattern(b, binarize=False)
            H = prep.group_dots_hor_lines_based_polyfit(p, hs, dist, ratio=0.2)
            V = prep.group_dots_ver_lines_based_polyfit(p, vs, dist, ratio=0.2)
        else:
            kw = {"chessboard": g["pat"] == "chess", "radius": 7, "sensitive": 0.1}
            hs, dh = lp.calc_slope_distance_hor_lines(img, search_range=10.0, **kw)
            vs, dv = lp.calc_slope_distance_ver_lines(img, search_range=10.0, **kw)
            ph = lp.get_cross_points_hor_lines(img, vs, dv, ratio=0.5, offset=10, **kw)
            pv = lp.get_cross_points_ver_lines(img, hs, dh, ratio=0.5, offset=10, **kw)
            H = prep.group_dots_hor_lines(ph, hs, dh, ratio=0.3, num_dot_miss=6, accepted_ratio=0.5)
            V = prep.group_dots_ver_lines(pv, vs, dv, ratio=0.3, num_dot_miss=6, accepted_ratio=0.5)
        return prep.remove_residual_dots_hor(H, hs), prep.remove_residual_dots_ver(V, vs)

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        m = self.measure(g, ctx)
        lim = self.limits(g)
        for k, v in m.items():
            if k in lim:
                lo, hi = lim[k]
                ctx.check(lo <= v <= hi, lambda: f"{k}: {v}, expected within [{lo}, {hi}]")
        ctx.outcome(f"{m}")
        ctx.interesting()

    def limits(self, g):
        h, w = g["shape"]
        lim = {"after": (0, 0), "residual max": (0, 2.5), "residual rms": (0, 0.24), "map rms": (0, 0.22 if g["pat"] in ("dots", "points") else 0.3), "map max": (0, 5.0),
               "affine": (0, 0.01), "covered": (0.7, 1.0), "centre": (0, 40),
               "h lines": (0.8 * h / g["d"] - 1, 1.3 * h / g["d"] + 1), "v lines": (0.8 * w / g["d"] - 1, 1.3 * w / g["d"] + 1)}
        if g["m"] == "b2":
            lim["before"] = (1, 2)
        return lim

    def measure(self, g, ctx):
        h, w = g["shape"]
        img, xc, yc, co, R = self.image(g)
        out = {}
        with contextlib.redirect_stdout(io.StringIO()):
            H, V = self.lines(g, img)
            out["h lines"], out["v lines"] = len(H), len(V)
            before = [post.check_distortion(post.calc_residual_hor(H, xc, yc)), post.check_distortion(post.calc_residual_ver(V, xc, yc))]
            x0, y0 = proc.find_cod_bailey(H, V)
            out["centre"] = max(abs(x0 - xc), abs(y0 - yc))
            if g["how"] == "backward":
                f = proc.calc_coef_backward(H, V, x0, y0, 5)
                uh, uv = post.unwarp_line_backward(H, x0, y0, f), post.unwarp_line_backward(V, x0, y0, f)
            else:
                ff = proc.calc_coef_forward(H, V, x0, y0, 5)
                uh, uv = post.unwarp_line_forward(H, x0, y0, ff), post.unwarp_line_forward(V, x0, y0, ff)
                if g["how"] == "from_forward":
                    ff, f = proc.calc_coef_backward_from_forward(H, V, x0, y0, 5)
                else:
                    f = proc.transform_coef_backward_and_forward(ff, mapping="backward", ref_points=[[p[0] - y0, p[1] - x0] for l in H for p in l])
            rh, rv = post.calc_residual_hor(uh, x0, y0), post.calc_residual_ver(uv, x0, y0)
            after = [post.check_distortion(rh), post.check_distortion(rv)]
        out["before"], out["after"] = sum(before), sum(after)
        out["residual max"] = max(rh[:, 1].max(), rv[:, 1].max())
        out["residual rms"] = max(np.sqrt(np.mean(rh[:, 1] ** 2)), np.sqrt(np.mean(rv[:, 1] ** 2)))
        with scratch.folder() as d:
            p = losa.save_metadata_json(os.path.join(d, "a.json"), x0, y0, f)
            x1, y1, f1 = losa.load_metadata_json(p)
            ctx.check(abs(x1 - x0) + abs(y1 - y0) < 1e-9 and np.array_equal(np.asarray(f1), f), lambda: "calibration after saving and loading json differs")
            p = losa.save_metadata_txt(os.path.join(d, "a.txt"), x0, y0, f)
            x1, y1, f1 = losa.load_metadata_txt(p)
            ctx.check(abs(x1 - x0) + abs(y1 - y0) < 1e-9 and np.array_equal(np.asarray(f1), f), lambda: "calibration after saving and loading txt differs")
        u = post.unwarp_image_backward(img, x1, y1, f1)
        ctx.calls += 14
        # corrected pixel -> raw position -> true undistorted position; affine?
        yy, xx = [a.ravel().astype(float) for a in np.mgrid[8:h - 8:6, 8:w - 8:6]]
        ry, rx = ref.radial(yy, xx, x0, y0, f)
        al = np.vstack(H + V)
        lo, hi = al.min(0), al.max(0)
        k = (ry > max(lo[0], 5)) & (ry < min(hi[0], h - 6)) & (rx > max(lo[1], 5)) & (rx < min(hi[1], w - 6))
        out["covered"] = float(k.mean())
        yy, xx, ry, rx = yy[k], xx[k], ry[k], rx[k]
        ty, tx = undistort(ry, rx, xc, yc, co, R)
        A = np.c_[yy, xx, np.ones(len(yy))]
        res, lin = [], []
        for tv in (ty, tx):
            s = np.linalg.lstsq(A, tv, rcond=None)[0]
            res.append(A @ s - tv)
            lin.append(s[:2])
        e = np.hypot(*res)
        out["map max"], out["map rms"] = float(e.max()), float(np.sqrt(np.mean(e ** 2)))
        out["affine"] = float(np.abs(np.array(lin) - np.eye(2)).max())
        ey, ex = ref.backward_coords(h, w, x0, y0, f)
        ctx.check(np.abs(np.asarray(u, float) - ref.bilinear(img, ey, ex)).max() < 0.05, lambda: "the corrected image is not the raw image sampled through the model")
        return out
