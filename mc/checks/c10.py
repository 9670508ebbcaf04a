import itertools
import numpy as np
from mc import ref
from discorpy.proc import processing as proc
from discorpy.post import postprocessing as post

ref.require_repo()
OFF = [(0, 0), (-9, 14), (17, 6), (-12, -20), (8, -15)]


def hom(c, y, x):
    y = np.asarray(y, dtype=np.float64)
    x = np.asarray(x, dtype=np.float64)
    d = c[6] * x + c[7] * y + 1.0
    return (c[3] * x + c[4] * y + c[5]) / d, (c[0] * x + c[1] * y + c[2]) / d


def degenerate(q):
    for a, b, c in itertools.combinations(range(4), 3):
        ar = (q[b][0] - q[a][0]) * (q[c][1] - q[a][1]) - (q[b][1] - q[a][1]) * (q[c][0] - q[a][0])
        if abs(ar) < 400:
            return True
    return False


HOMS = []
for a, b, c, d in itertools.product((0.7, 1.0, 1.2), (-0.1, 0.0, 0.2), (-25.0, 0.0, 40.0), (-2e-4, 0.0, 3e-4)):
    HOMS.append([a, b, c, -0.6 * b + 0.05, 1.1, 0.5 * c - 3, d, -0.5 * d + 1e-4])


class Check:
    PID = "C10"
    RULE = "state = (source points, target points, type, order); coefficients applied by an independent homography evaluator and by the library's line correction"
    BOUNDS = {"quick": "625 four-point targets of a rectangle at 2 positions, all 24 point orders on 20 of them, 81 homographies x 8 point layouts (up to 240 points; inexact pairs in two orders) x 5 point types, line structures",
              "thorough": "2401 four-point targets at 3 positions, all 24 orders on 80 of them, 81 homographies x 16 layouts (up to 1200 points; inexact pairs in two orders) x 6 point types"}

    def space(self, tier):
        deep = tier == "thorough"
        off = range(7) if deep else range(5)
        for k in itertools.product(off, repeat=4):
            for base in ([0, 1, 2] if deep else [0, 1]):
                yield {"k": "quad", "o": list(k), "b": base, "perm": list(range(4))}
        n = 0
        for k in itertools.product(range(5), repeat=4):
            n += 1
            if n % (8 if deep else 31):
                continue
            for p in itertools.permutations(range(4)):
                yield {"k": "quad", "o": list(k), "b": 0, "perm": list(p)}
        for h in range(len(HOMS)):
            for lay in ([(2, 2), (2, 3), (3, 2), (3, 3), (4, 5), (7, 6), (3, 80), (15, 14)] +
                        ([(2, 5), (5, 2), (10, 3), (3, 10), (8, 8), (12, 11), (80, 3), (30, 40)] if deep else [])):
                for dt in ["float64", "float32", "list", "int64", "int16"] + (["uint16"] if deep else []):
                    yield {"k": "hom", "h": h, "lay": list(lay), "dt": dt}
        for n, nl in ((400, 2), (1100, 2), (2100, 1), (5000, 1), (3, 70), (2, 150), (1, 300), (1, 1100)):
            yield {"k": "lines", "n": n, "nl": nl}
        for n in range(0, 12):
            yield {"k": "bad", "n": n}

    def run(self, g, ctx):
        if g["k"] == "bad":
            coef = [1.0, 0, 0, 0, 1.0, 0, 0, 0, 0, 0, 0, 0][:g["n"]]
            line = [np.asarray([[1.0, 2.0], [3.0, 4.0]])]
            if g["n"] != 8:
                ctx.raises(ValueError, post.correct_perspective_line, line, coef)
            else:
                r = ctx.call(post.correct_perspective_line, line, coef)
                ctx.check(np.allclose(r[0], line[0]), "identity coefficients changed the line")
            ctx.outcome(g["n"])
            return
        if g["k"] == "lines":
            i = np.arange(g["n"])
            lines = [np.column_stack((0.1234567 + (i * 7 + 11 * k) % 997, 3.7654321 + (i * 13 + 5 * k) % 1201)) for k in range(g["nl"])]
            for H in (HOMS[5], HOMS[40], HOMS[77]):
                out = ctx.call(post.correct_perspective_line, lines, H)
                ctx.check(len(out) == len(lines), f"{len(out)} lines returned for {len(lines)}")
                for k, (a, b) in enumerate(zip(lines, out)):
                    y, x = hom(H, a[:, 0], a[:, 1])
                    ctx.check(np.shape(b) == a.shape and np.allclose(np.asarray(b), np.column_stack((y, x)), atol=1e-7, rtol=1e-9),
                              f"line {k} of {len(lines)} with {len(a)} points: a corrected point is not where the coefficients send it")
                ctx.outcome(np.round(out[-1][-1], 6))
            ctx.interesting()
            return
        if g["k"] == "quad":
            off = OFF + [(25, 25), (-3, 30)]
            base = [(20, 30), (20, 150), (110, 30), (110, 150)]
            if g["b"] == 1:
                base = [(y + 900, x + 60) for y, x in base]
            if g["b"] == 2:
                base = [(y - 300, 4 * x + 500) for y, x in base]
            s = [base[i] for i in g["perm"]]
            t = [(base[i][0] + off[g["o"][i]][0], base[i][1] + off[g["o"][i]][1]) for i in g["perm"]]
            if degenerate(s) or degenerate(t):
                return
            pts_s, pts_t = np.asarray(s, float), np.asarray(t, float)
            m = sum(g["o"]) % 5
            if m < 2:
                src, tgt = (pts_s, pts_t) if m else (s, t)
            else:
                dt = ("int16", "int32", "int64")[m - 2]
                src, tgt = np.asarray(s, dtype=dt), np.asarray(t, dtype=dt)
            tol, H = 1e-5, None
        else:
            H = HOMS[g["h"]]
            ny, nx = g["lay"]
            f = min(1.0, 12.0 / max(ny, nx))
            pts_s = np.asarray([[10 + 80.0 * f * i + 7 * (j % 2), 20 + 95.0 * f * j - 5 * (i % 2)] for i in range(ny) for j in range(nx)])
            if g["dt"] not in ("float64", "float32", "list"):
                # integer source points: the target is computed from the rounded ones
                pts_s = np.rint(pts_s)
            else:
                # coordinates that single precision does not hold
                pts_s = pts_s + [0.1234567, 0.7654321]
            y, x = hom(H, pts_s[:, 0], pts_s[:, 1])
            pts_t = np.column_stack((y, x))
            tol = 1e-5
            if g["dt"] == "list":
                src, tgt = pts_s.tolist(), [tuple(v) for v in pts_t]
            elif g["dt"] in ("float64", "float32"):
                src, tgt = pts_s.astype(g["dt"]), pts_t.astype(g["dt"])
                if g["dt"] == "float32":
                    tol = 0.02
            else:
                src, tgt = pts_s.astype(g["dt"]), pts_t
        fw = ctx.call(proc.calc_perspective_coefficients, src, tgt, mapping="forward")
        bw = ctx.call(proc.calc_perspective_coefficients, src, tgt, mapping="backward")
        df = ctx.call(proc.calc_perspective_coefficients, src, tgt)
        ctx.check(len(fw) == 8 and len(bw) == 8 and np.allclose(df, bw), "coefficient lists are not of length 8 / default is not backward")
        y, x = hom(fw, pts_s[:, 0], pts_s[:, 1])
        e = np.max(np.hypot(y - pts_t[:, 0], x - pts_t[:, 1]))
        ctx.check(e < tol, lambda: f"forward coefficients miss the targets by {e} for {np.asarray(src).tolist()[:4]} -> {np.asarray(tgt).tolist()[:4]}")
        y, x = hom(bw, pts_t[:, 0], pts_t[:, 1])
        e = np.max(np.hypot(y - pts_s[:, 0], x - pts_s[:, 1]))
        ctx.check(e < tol, lambda: f"backward coefficients miss the sources by {e}")
        if H is not None:
            yy, xx = np.mgrid[0:200:7, 0:200:7]
            y1, x1 = hom(H, yy, xx)
            y2, x2 = hom(fw, yy, xx)
            e = np.max(np.hypot(y1 - y2, x1 - x2))
            ctx.check(e < 10 * tol, lambda: f"forward coefficients differ from the true projective map by {e} in the plane")
            # with inexact correspondences every pair counts, and their order does not
            if len(pts_s) > 4 and g["dt"] in ("float64", "list"):
                k = np.arange(len(pts_s))
                tn = pts_t + 0.3 * np.column_stack((np.sin(2.3 * k), np.cos(3.1 * k)))
                for mp in ("forward", "backward"):
                    f1 = ctx.call(proc.calc_perspective_coefficients, pts_s, tn, mapping=mp)
                    f2 = ctx.call(proc.calc_perspective_coefficients, pts_s[::-1], tn[::-1], mapping=mp)
                    a, b = (pts_s, tn) if mp == "forward" else (tn, pts_s)
                    y1, x1 = hom(f1, a[:, 0], a[:, 1])
                    y2, x2 = hom(f2, a[:, 0], a[:, 1])
                    e = np.max(np.hypot(y1 - y2, x1 - x2))
                    ctx.check(e < 1e-5, lambda: f"{mp}: {len(a)} inexact pairs given in reverse order change the map by {e}")
                    e = np.sqrt(np.mean((y1 - b[:, 0]) ** 2 + (x1 - b[:, 1]) ** 2))
                    ctx.check(e < 0.7, lambda: f"{mp}: {len(a)} pairs with errors of 0.3 pixel are missed by {e} (rms)")
        # through the library's line correction, both directions
        lines = [pts_s[:1], pts_s[1:3], pts_s[3:], pts_s.astype(int), (pts_s + 3).tolist()]
        keep = [np.array(a) for a in lines]
        out = ctx.call(post.correct_perspective_line, lines, fw)
        ctx.check(len(out) == len(lines), "number of lines changed")
        for a, b in zip(keep, out):
            ctx.check(np.asarray(b).shape == a.shape, "number of points changed")
            if len(a):
                y, x = hom(fw, a[:, 0], a[:, 1])
                ctx.check(np.allclose(np.asarray(b)[:, 0], y, atol=1e-6) and np.allclose(np.asarray(b)[:, 1], x, atol=1e-6),
                          "a corrected point is not where the coefficients send it")
        back = ctx.call(post.correct_perspective_line, out, bw)
        for a, b in zip(keep, back):
            if len(a):
                e = np.max(np.abs(np.asarray(b) - a))
                ctx.check(e < 10 * tol, lambda: f"forward then backward moves points by {e}")
        ctx.outcome(np.round(fw, 6))
        ctx.interesting(abs(fw[6]) + abs(fw[7]) > 1e-6)
