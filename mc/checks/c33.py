import warnings
import numpy as np
from mc import ref, linegrid as lg
from discorpy.prep import linepattern as lp

ref.require_repo()


class Check:
    PID = "C33"
    RULE = "state = (pattern, size, spacings, tilt, position, contrast); slopes, spacings and every cross point compared with the drawn lines; every scan checked for completeness"
    BOUNDS = {"quick": "4 patterns x 3 sizes x 6 tilts (-15..15) x 2 positions x 2 scan ratios, both directions",
              "thorough": "4 patterns x 6 sizes x 19 tilts (-16..16) x 4 positions x 3 scan ratios, both directions"}

    def space(self, tier):
        deep = tier == "thorough"
        tl = [0.0, -2.3, 4.5, -7.0, 10.2, -15.0] + ([1.0, 0.3, 9.2, -11.0, 13.0, 2.0, -4.0, 6.0, -9.5, 11.7, 15.5, -16.0] if deep else [])
        for s in [(300, 340, 30, 30), (400, 300, 40, 36), (280, 280, 26, 33)] + ([(500, 400, 45, 45), (350, 600, 35, 35), (260, 300, 27, 25)] if deep else []):
            for kind in ("dark", "bright", "chess", "conv"):
                for t in tl:
                    for o in [(3.0, -4.0), (11.4, 7.2)] + ([(0.0, 0.0), (-5.5, 9.5)] if deep else []):
                        yield {"k": kind, "s": list(s), "t": t, "o": list(o), "r": [0.5, 0.3] + ([0.8] if deep else [])}

        # every combination of the options, on every pixel type
        n = 0
        for kind in ("dark", "bright", "chess", "conv"):
            for dt in ("float32", "uint8", "uint16", "int32", "float64"):
                for bits in range(16):
                    den, sub, sel, norm = bits & 1, bits & 2, bits & 4, not bits & 8
                    if not norm and sel:
                        continue
                    n += 1
                    yield {"k": kind, "s": [(280, 280, 26, 33), (300, 250, 28, 25)][n % 2], "t": [-3.7, 0.0, 6.1, 9.3][n % 4], "o": [3.0, -4.0], "r": [0.5] if norm else [],
                           "dt": dt, "off": [0, 20, 900][n % 3], "range": [30.0, 12.0, 45.0][n % 3],
                           "opt": {"denoise": bool(den), "subpixel": bool(sub), "select_peaks": bool(sel), "norm": norm}}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        h, w, dh, dv = g["s"]
        t, o = g["t"], g["o"]
        s = np.tan(np.deg2rad(t))
        k = g["k"]
        if k in ("chess", "conv"):
            m = lg.chess(h, w, dh, dv, t, *o) * 180 + 20
        else:
            m = lg.lines(h, w, dh, dv, t, *o)
            m = 200 - 150 * m if k == "dark" else 20 + 150 * m
        m = m.astype(g.get("dt", "float64"))
        kp = m.copy()
        bgr = "dark" if k == "bright" else "bright"
        kw = dict(bgr=bgr, chessboard=k == "chess", **g.get("opt", {}))
        if kw.get("select_peaks"):
            kw["tol"] = 0.5
        sr = {"search_range": g["range"]} if "range" in g else {}
        lim = {"offset": g["off"]} if "off" in g else {}
        mm = m
        if k == "conv":
            mm = ctx.call(lp.convert_chessboard_to_linepattern, m)
            ctx.check(mm.shape == m.shape and np.all(np.isfinite(mm)), "converted chessboard")
            # lines of the converted board are the edges of the squares, dark on bright
            u, v = lg.coords(h, w, t, *o)
            on = (np.abs(lg.off(u, dh)) < 1) & (np.abs(lg.off(v, dv)) > 8)
            off = (np.abs(lg.off(u, dh)) > 9) & (np.abs(lg.off(v, dv)) > 9)
            core = (slice(8, -8), slice(8, -8))
            ctx.check(mm[core][on[core]].max() < mm[core][off[core]].min(), lambda: f"{g}: edges of the squares are not dark lines")
            for bg in ("bright", "dark"):
                for kk in ({"sigma": 1}, {"sigma": 2}, {"sigma": 4}, {"smooth": False}, {}):
                    ml = ctx.call(lp.convert_chessboard_to_linepattern, m, bgr=bg, **kk)
                    a, b = (ml[core][on[core]], ml[core][off[core]])
                    a, b = (a, b) if bg == "bright" else (-a, -b)
                    ctx.check(ml.shape == m.shape and abs(np.mean(np.abs(ml)) - 1) < 1e-6 and a.max() < b.min() + (0 if kk != {"smooth": False} else 1e9), lambda: f"{g}: edges of the squares on a {bg} background, {kk}")
                    ctx.check(a.mean() < b.mean() - 0.05, lambda: f"{g}: edges of the squares on a {bg} background, {kk}: mean {a.mean()} against {b.mean()}")
        for name, f, e, d in (("horizontal", lp.calc_slope_distance_hor_lines, s, dh), ("vertical", lp.calc_slope_distance_ver_lines, -s, dv)):
            a, b = ctx.call(f, mm, ratio=0.8, sensitive=0.3 if k in ("chess", "conv") else 0.1, **sr, **kw)
            ctx.check(abs(a - e) < (0.012 if k in ("chess", "conv") else 0.008), lambda: f"{g}: slope of the {name} lines {a} instead of {e}")
            # (without smoothing the tops of converted edges are plateaus)
            opt = g.get("opt", {"denoise": True, "subpixel": True})
            tol = 0.015 * d if opt["denoise"] and opt["subpixel"] else max(1.01, (0.1 if k in ("chess", "conv") else 0.03) * d)
            ctx.check(abs(b - d) < tol, lambda: f"{g}: distance of the {name} lines {b} instead of {d}")
            ctx.outcome((round(float(a), 3), round(float(b), 1)))
        sens = 0.3 if k == "chess" else 0.1
        for r in g["r"]:
            for name, f, sl, d, q in (("horizontal", lp.get_cross_points_hor_lines, -s, dv, 0), ("vertical", lp.get_cross_points_ver_lines, s, dh, 1)):
                pts = np.asarray(ctx.call(f, mm, sl, d, ratio=r, radius=9, sensitive=sens, **lim, **kw))
                what = f"{g} ratio {r}: {name} lines"
                ctx.check(pts.ndim == 2 and pts.shape[1] == 2 and len(pts) > 0, lambda: f"{what}: result of shape {pts.shape}")
                ctx.check(pts.min() >= -1 and pts[:, 0].max() <= h and pts[:, 1].max() <= w, lambda: f"{what}: points outside the image")
                c = lg.across(pts[:, 0], pts[:, 1], h, w, t, *o)
                al, ac, D, E = c[1 - q], c[q], (dh, dv)[q], (dv, dh)[q]
                # scans that run along a crossing line see no extrema of their own
                clear = np.abs(lg.off(al, E)) > 6
                worst = {"conv": 1.5, "chess": 0.7}.get(k, 0.35)
                worst += 0 if kw.get("subpixel", True) else 0.6
                ctx.check(not clear.any() or np.abs(lg.off(ac, D)[clear]).max() < worst, lambda: f"{what}: a point is {np.abs(lg.off(ac, D)[clear]).max()} from the nearest line")
                # scans: equally spaced, all interior lines on each
                scans = {}
                for i, v in enumerate(al):
                    key = round(float(v) / (0.25 * r * E))
                    near = [z for z in (key - 1, key, key + 1) if z in scans]
                    scans.setdefault(near[0] if near else key, []).append(i)
                pos = np.sort([np.mean(al[i]) for i in scans.values()])
                gap = r * E * np.cos(np.deg2rad(t))
                if k in ("dark", "bright"):
                    # (a scan along a line may find nothing)
                    ctx.check(np.all(np.diff(pos) < 2.2 * gap) and np.all(np.diff(pos) > 0.5 * gap), lambda: f"{what}: scans at {np.round(pos, 1).tolist()}, expected spacing {gap}")
                    span = (w - h * abs(s)) if q == 0 else (h - w * abs(s))
                    cut = g.get("off", 0)
                    if cut <= 20:
                        i = (pts[:, 1] + s * pts[:, 0]) if q == 0 else (pts[:, 0] - s * pts[:, 1])
                        lo, hi = max(0.0, s * (h if q == 0 else -w)), ((w if q == 0 else h) + min(0.0, s * (h if q == 0 else -w)))
                        ctx.check(i.min() > lo + cut - 2 and i.max() < hi - cut + 2, lambda: f"{what}: scans from {i.min()} to {i.max()} with an offset of {cut} in [{lo}, {hi}]")
                        span -= 2 * cut
                    else:
                        span = 0
                    ctx.check(pos[-1] - pos[0] > span * np.cos(np.deg2rad(t)) - 3.2 * gap, lambda: f"{what}: scans cover {pos[-1] - pos[0]} of {span}")
                n = 0
                for idx in scans.values():
                    a = np.mean(al[idx])
                    if abs(lg.off(a, E)) <= 6:
                        continue
                    got = {int(v) for v in np.rint(ac[idx] / D)}
                    tt = np.deg2rad(t)
                    for j in range(-40, 41):
                        uu, vv = (j * D, a) if q == 0 else (a, j * D)
                        y = h / 2.0 + o[0] + uu * np.cos(tt) + vv * np.sin(tt)
                        x = w / 2.0 + o[1] + vv * np.cos(tt) - uu * np.sin(tt)
                        if 22 <= y <= h - 23 and 22 <= x <= w - 23:
                            ctx.check(j in got, lambda: f"{what}: the scan at {a} misses line {j} at y={y}, x={x}")
                            n += 1
                ctx.check(n > (0 if g.get("off") else 20), lambda: f"{what}: only {n} crossings")
                ctx.check(np.array_equal(m, kp), "input modified")
        ctx.interesting(t != 0)
