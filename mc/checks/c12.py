import itertools
import numpy as np
from mc import ref
from discorpy.proc import processing as proc

ref.require_repo()
SC = ["mean", "max", "min", 0.5, 1.7, 2.5, 0.02]


class Check:
    PID = "C12"
    RULE = "state = (quadrilateral, point order, convention, scale, equal-distance flag); returned points compared with an independent ordering and rectangle specification"
    BOUNDS = {"quick": "all quadrilaterals whose corners move over a 3x3 lattice (6561) x 7 scales, at 3 sizes (down to 1/256) x 2 flags x 2 conventions, 24 orders on every 15th, 70 rotated rectangles",
              "thorough": "all quadrilaterals whose corners move over a 4x4 lattice (65536), every 7th in all 24 orders, 400 rotated rectangles, 3 positions"}

    def space(self, tier):
        deep = tier == "thorough"
        n = 16 if deep else 9
        for a in range(n):
            for b in range(n):
                for pos in ([0, 1, 2, 3, 4] if deep else [0, 1, 3]):
                    yield {"k": "quad", "a": a, "b": b, "n": n, "pos": pos}
        for hh, ww in ((60, 90), (100, 40), (300, 301), (20, 500), (1000, 900)):
            for ang in (range(-40, 41) if deep else range(-36, 37, 6)):
                for pos in (0, 1):
                    yield {"k": "rect", "h": hh, "w": ww, "ang": ang, "pos": pos}
        for n in (0, 1, 2, 3, 5, 6, 8):
            yield {"k": "bad", "n": n}

    def verify(self, ctx, pts, order, conv, scale, eq, exp_src, as_list=False, u=1.0):
        inp = [pts[i] for i in order]
        if conv == "xy":
            inp = [(x, y) for y, x in inp]
        arg = inp if as_list else np.asarray(inp, dtype=float)
        kw = {"equal_dist": eq, "scale": scale}
        if conv != "yx" or as_list:
            kw["input_order"] = conv
        s, t = ctx.call(proc.generate_4_source_target_perspective_points, arg, **kw)
        what = f"points {inp} ({conv}) scale {scale} equal {eq}"
        s, t = np.asarray(s, float), np.asarray(t, float)
        ctx.check(s.shape == (4, 2) and t.shape == (4, 2), f"{what}: wrong shapes")
        ctx.check(np.allclose(s, exp_src, atol=1e-2 * u), lambda: f"{what}: source points {s.tolist()} instead of {exp_src.tolist()}")
        mag = max(1.0, np.max(np.abs(t)) / u)
        tl, tr, bl, br = t
        e1, e2, e3, e4 = tr - tl, br - bl, bl - tl, br - tr
        tolv = 2e-3 * (1 + mag / 500) * u
        ctx.check(np.allclose(e1, e2, atol=tolv) and np.allclose(e3, e4, atol=tolv), lambda: f"{what}: target {t.tolist()} is not a parallelogram")
        n1, n3 = np.hypot(*e1), np.hypot(*e3)
        ctx.check(abs(e1 @ e3) / (n1 * n3) < 1e-3, lambda: f"{what}: target {t.tolist()} is not right-angled")
        ctx.check(e1[1] > 0 and e3[0] > 0, lambda: f"{what}: target {t.tolist()} is mirrored or rotated by more than 90 degrees")
        S = exp_src
        d = lambda i, j: float(np.hypot(*(S[i] - S[j])))
        d12, d34, d13, d24 = d(0, 1), d(2, 3), d(0, 2), d(1, 3)
        if scale == "max":
            hh, vv = max(d12, d34), max(d13, d24)
            q = max(hh, vv)
        elif scale == "min":
            hh, vv = min(d12, d34), min(d13, d24)
            q = min(hh, vv)
        else:
            f = scale if isinstance(scale, float) else 1.0
            hh, vv = f * (d12 + d34) / 2, f * (d13 + d24) / 2
            q = (hh + vv) / 2
        if eq:
            hh = vv = q
        ctx.check(abs(n1 - hh) < tolv and abs(n3 - vv) < tolv, lambda: f"{what}: target sides {n1:.3f} x {n3:.3f} instead of {hh:.3f} x {vv:.3f}")
        # tilt of the rectangle lies between the tilts of the two pairs of sides
        ah = 0.5 * ((S[1, 0] - S[0, 0]) / (S[1, 1] - S[0, 1]) + (S[3, 0] - S[2, 0]) / (S[3, 1] - S[2, 1]))
        av = 0.5 * ((S[2, 1] - S[0, 1]) / (S[2, 0] - S[0, 0]) + (S[3, 1] - S[1, 1]) / (S[3, 0] - S[1, 0]))
        tilt = e1[0] / e1[1]
        lo, hi = min(abs(ah), abs(av)), max(abs(ah), abs(av))
        ctx.check((abs(ah) < 1e-6 and abs(tilt) <= hi + 1e-3) or (lo - 1e-3 <= abs(tilt) <= hi + 1e-3 and (tilt * ah > 0 or abs(tilt) < 1e-3)),
                  lambda: f"{what}: target tilt {tilt:.4f}; sides tilt by {ah:.4f} and {av:.4f}")
        ctx.outcome(np.round(t / u, 2))
        ctx.interesting(not np.allclose(s, t, atol=0.5 * u))
        return s, t

    def run(self, g, ctx):
        if g["k"] == "bad":
            pts = [[10.0 * i, 7.0 * i * i] for i in range(g["n"])]
            for conv in ("yx", "xy"):
                ctx.raises(ValueError, proc.generate_4_source_target_perspective_points, pts, input_order=conv)
            ctx.outcome(g["n"])
            return
        sy, sx = [(0, 0), (600, 250), (1500, 2300), (0, 0), (-150, -165)][g["pos"]]
        if g["k"] == "rect":
            a = np.deg2rad(g["ang"])
            h, w = g["h"], g["w"]
            P = []
            for y, x in ((-h / 2, -w / 2), (-h / 2, w / 2), (h / 2, -w / 2), (h / 2, w / 2)):
                P.append((sy + 700 + y * np.cos(a) + x * np.sin(a), sx + 700 + x * np.cos(a) - y * np.sin(a)))
            ys = sorted(p[0] for p in P)
            if min(P[0][0], P[1][0]) >= min(P[2][0], P[3][0]) - 2 or max(P[0][0], P[1][0]) > min(P[2][0], P[3][0]) - 2 \
                    or P[0][1] > P[1][1] - 2 or P[2][1] > P[3][1] - 2:
                return
            exp = np.asarray(P)
            for order in itertools.permutations(range(4)):
                for conv in ("yx", "xy"):
                    s, t = self.verify(ctx, P, order, conv, "mean", False, exp)
                    ctx.check(np.max(np.abs(s - t)) < 0.05, lambda: f"a right-angled rectangle is moved: {s.tolist()} -> {t.tolist()}")
            return
        n = g["n"]
        m = int(round(n ** 0.5))
        offs = [(13.0 * (i // m) - 11, 17.0 * (i % m) - 19) for i in range(n)]
        base = [(100 + sy, 100 + sx), (100 + sy, 230 + sx), (200 + sy, 100 + sx), (200 + sy, 230 + sx)]
        cnt = 0
        for c in range(n):
            for d in range(n):
                cnt += 1
                P = [(base[i][0] + offs[k][0], base[i][1] + offs[k][1]) for i, k in enumerate((g["a"], g["b"], c, d))]
                u = (1.0, 1.0, 1.0, 1 / 256.0, 1 / 4096.0)[g["pos"]]
                P = [(y * u, x * u) for y, x in P]
                exp = np.asarray(P)
                idx = cnt + g["a"] + 3 * g["b"]
                scale = SC[idx % len(SC)]
                eq = bool((idx // len(SC)) % 2)
                for sc, e in ([(scale, eq)] if n > 9 else [(scale, eq), (SC[(idx + 2) % len(SC)], not eq)]):
                    self.verify(ctx, P, (0, 1, 2, 3), "yx", sc, e, exp, u=u)
                    self.verify(ctx, P, (3, 1, 0, 2), "xy", sc, e, exp, as_list=True, u=u)
                if idx % (7 if n > 9 else 15) == 0:
                    for order in itertools.permutations(range(4)):
                        self.verify(ctx, P, order, "yx", scale, eq, exp, u=u)
