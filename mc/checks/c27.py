import itertools
import warnings
import numpy as np
from mc import ref
from discorpy.prep import preprocessing as prep

ref.require_repo()


def ref_mask(h, w, hc, vc, hm, vm):
    l, r = (hm[0], hm[-1]) if isinstance(hm, (list, tuple)) else (hm, hm)
    t, b = (vm[0], vm[-1]) if isinstance(vm, (list, tuple)) else (vm, vm)
    m = np.zeros((h, w))
    tie = np.zeros((h, w), bool)
    for y in range(h):
        for x in range(w):
            px, py = vc / w * (x - w / 2) ** 2, hc / h * (y - h / 2) ** 2
            v = (y - (t + px), (h - b - px) - y, x - (l + py), (w - r - py) - x)
            m[y, x] = min(v) > 0
            tie[y, x] = min(abs(a) for a in v) < 1e-9 and not (min(v) < -1e-9)
    # a pixel exactly on a margin is outside; rounding decides only when the
    # margin is not representable
    exact = (hc == 0 or float(hc).is_integer()) and (vc == 0 or float(vc).is_integer()) and not (h & (h - 1)) and not (w & (w - 1)) or (hc == 0 and vc == 0)
    return m, (np.zeros((h, w), bool) if exact else tie)


class Check:
    PID = "C27"
    RULE = "state = (image size, curviness, margins, rotation) or (point set, angle) or (point set, subset); every pixel and point compared with a reference"
    BOUNDS = {"quick": "sizes 1..9 x 1..9 (every 2nd), 5x5 curviness, 7x7 margins, every pixel and 300 points in and around; 25 angles x 9 point sets; sets of up to 70000 points; all subsets of 8 points",
              "thorough": "sizes 1..13 x 1..13, 5x5 curviness, 7x7 margins, every pixel and 300 points; 73 angles x 9 point sets; all subsets of 11 points"}

    MARG = [0, 1, 2, (0, 2), [3, 1], (1, 1), 0.5]

    def space(self, tier):
        deep = tier == "thorough"
        for h in range(1, 14 if deep else 10):
            for w in range(1, 14 if deep else 10):
                if deep or (h + w) % 2 == 0 or h == w:
                    yield {"k": "mask", "h": h, "w": w}
        for h, w in [(40, 40), (60, 36), (33, 50)] + ([(64, 64), (41, 77)] if deep else []):
            for a in [0, 7.5, 30, 90, 180, -45, 270, -90] + ([15, 60, 135, -10] if deep else []):
                yield {"k": "rot", "h": h, "w": w, "a": a}
        for a in (0.6, -0.75):
            yield {"k": "rot", "h": 36, "w": 900, "a": a}
            yield {"k": "rot", "h": 800, "w": 33, "a": a}
        for h, w in [(4, 40000), (36000, 3), (3, 70001)]:
            yield {"k": "long", "h": h, "w": w}
        for a in range(0, 25 if not deep else 73):
            yield {"k": "turn", "a": (a - 8) * (15.0 if not deep else 5.0)}
        for n in (300, 1100, 3000, 70000) if not deep else (300, 1100, 3000, 20000, 70000, 140000):
            yield {"k": "many", "n": n}
        n = 11 if deep else 8
        for m in range(0, 1 << n, 32):
            yield {"k": "sub", "n": n, "a": m}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def points(self, h, w):
        """In and around the image; none between -1 and 0, where truncation
        decides on which side a point is."""
        cy = [-3 * h - 5, -h - 1, -h, -2.0, -1.0] + [v + f for v in range(h) for f in (0.0, 0.5, 0.99)] + [float(h), h + 0.5, 2 * h, 5 * h + 7]
        cx = [-3 * w - 5, -w - 1, -w, -2.0, -1.0] + [v + f for v in range(w) for f in (0.0, 0.51)] + [float(w), w + 0.5, 3 * w]
        P = np.asarray(list(itertools.product(cy, cx)))
        step = max(1, len(P) // 300)
        return P[::step]

    def do_mask(self, g, ctx):
        h, w = g["h"], g["w"]
        P = self.points(h, w)
        for n, (hm, vm) in enumerate(itertools.product(self.MARG, repeat=2)):
            sh = 2 * hm if not isinstance(hm, (tuple, list)) else sum(hm)
            sv = 2 * vm if not isinstance(vm, (tuple, list)) else sum(vm)
            for k, (hc, vc) in enumerate(itertools.product((0.0, 0.3, 1.0, -0.5, 2.0), repeat=2)):
                if (n + k) % 5:
                    continue
                kw = dict(hor_curviness=hc, ver_curviness=vc, hor_margin=hm, ver_margin=vm)
                if sh > w or sv > h:
                    ctx.raises(ValueError, prep.make_parabola_mask, h, w, **kw)
                    ctx.raises(ValueError, prep.remove_points_using_parabola_mask, P, h, w, **kw)
                    continue
                m = ctx.call(prep.make_parabola_mask, h, w, **kw)
                e, tie = ref_mask(h, w, hc, vc, hm, vm)
                ctx.check(m.shape == (h, w) and np.all((m == e) | tie) and np.all((m == 0) | (m == 1)), lambda: f"mask {h}x{w} {kw}:\n{m}\ninstead of\n{e}")
                kp = P.copy()
                out = ctx.call(prep.remove_points_using_parabola_mask, P, h, w, **kw)
                ctx.check(np.array_equal(P, kp), "input modified")
                sel = [p for p in P if 0 <= p[0] < h and 0 <= p[1] < w and m[int(p[0]), int(p[1])] == 1]
                ctx.check(np.array_equal(np.asarray(out).reshape(-1, 2), np.asarray(sel).reshape(-1, 2)), lambda: f"points on the mask {h}x{w} {kw}: {len(out)} kept instead of {len(sel)}")
                ctx.outcome(m)
                ctx.interesting(0 < m.sum() < h * w)

    def do_many(self, g, ctx):
        """Many points at once: none lost, none added, order kept."""
        n, h, w = g["n"], 90, 120
        i = np.arange(n)
        P = np.column_stack(((i * 37 % 1009) / 9.0 - 11.0, (i * 53 % 1511) / 10.0 - 14.0))
        P = np.where((P > -1) & (P < 0), 0.25, P)
        kw = dict(hor_curviness=0.3, ver_curviness=0.2, hor_margin=7, ver_margin=5)
        m = ctx.call(prep.make_parabola_mask, h, w, **kw)
        out = np.asarray(ctx.call(prep.remove_points_using_parabola_mask, P, h, w, **kw))
        inside = (P[:, 0] >= 0) & (P[:, 0] < h) & (P[:, 1] >= 0) & (P[:, 1] < w)
        inside[inside] = m[P[inside, 0].astype(int), P[inside, 1].astype(int)] == 1
        ctx.check(np.array_equal(out, P[inside]), lambda: f"{len(out)} of {n} points on the mask instead of {inside.sum()}")
        a = np.deg2rad(17.0)
        r = ctx.call(prep.rotate_points, P, 17.0)
        exp = np.column_stack((P[:, 1] * np.sin(a) + P[:, 0] * np.cos(a), P[:, 1] * np.cos(a) - P[:, 0] * np.sin(a)))
        ctx.check(r.shape == P.shape and np.abs(r - exp).max() < 1e-9, f"{n} points turned wrongly")
        Q = np.column_stack((i * 1.0, i * 0.5 + 3))
        for sel in (Q[::7], Q[n // 2:], Q[-3:]):
            left = np.asarray(ctx.call(prep.remove_subset_points, sel, Q))
            gone = set(map(tuple, sel.tolist()))
            ctx.check(np.array_equal(left, np.asarray([p for p in Q.tolist() if tuple(p) not in gone])), f"removing {len(sel)} of {n} points left {len(left)}")
        ctx.outcome(len(out))
        ctx.interesting()

    def do_long(self, g, ctx):
        h, w = g["h"], g["w"]
        P = np.asarray([(y + f, x + f) for y in sorted({1, h // 2, h - 2, h - 1, h, min(h + 3, 33000), h + 65536}) for x in sorted({1, w // 2, w - 2, w - 1, w, 32767, 32768, 40000, w + 65536}) for f in (0.0, 0.4)])
        for hm, vm in ((0, 0), (0 if w < 9 else (700, 33000), 0 if h < 9 else (900, 33001))):
            kw = dict(hor_curviness=0.0, ver_curviness=0.0, hor_margin=hm, ver_margin=vm)
            m = ctx.call(prep.make_parabola_mask, h, w, **kw)
            l, r = hm if isinstance(hm, tuple) else (hm, hm)
            t, b = vm if isinstance(vm, tuple) else (vm, vm)
            e = np.zeros((h, w))
            e[t + 1:h - b, l + 1:w - r] = 1
            ctx.check(np.array_equal(m, e), lambda: f"mask {g} {kw}")
            out = ctx.call(prep.remove_points_using_parabola_mask, P, h, w, **kw)
            sel = [p for p in P if p[0] < h and p[1] < w and e[int(p[0]), int(p[1])] == 1]
            ctx.check(np.array_equal(np.asarray(out).reshape(-1, 2), np.asarray(sel).reshape(-1, 2)), lambda: f"points on the mask {g} {kw}: {len(out)} kept instead of {len(sel)}")
            ctx.outcome((h, w, len(sel)))
        ctx.interesting()

    def do_rot(self, g, ctx):
        h, w, a = g["h"], g["w"], g["a"]
        for hc, vc, hm, vm in [(0.0, 0.0, 5, 4), (0.3, 0.3, 4, 4), (0.5, -0.2, (3, 8), (6, 2))]:
            kw = dict(hor_curviness=hc, ver_curviness=vc, hor_margin=hm, ver_margin=vm)
            m0 = ctx.call(prep.make_parabola_mask, h, w, **kw)
            m = ctx.call(prep.make_parabola_mask, h, w, rotate=a, **kw)
            ctx.check(m.shape == (h, w) and m.dtype == np.float32 and np.all((m == 0) | (m == 1)), lambda: f"rotated mask {g} {kw}: values {np.unique(m)}")
            # turned about the middle, positive angles take (y, x) = right to top
            t = np.deg2rad(a)
            for y in range(h):
                for x in range(w):
                    dy, dx = y - (h - 1) / 2, x - (w - 1) / 2
                    u = dy * np.cos(t) + dx * np.sin(t) + (h - 1) / 2
                    v = -dy * np.sin(t) + dx * np.cos(t) + (w - 1) / 2
                    i, j = int(np.floor(u)), int(np.floor(v))
                    if 3 <= i < h - 4 and 3 <= j < w - 4:
                        nb = m0[i - 2:i + 4, j - 2:j + 4]
                        if nb.min() == nb.max():
                            ctx.check(m[y, x] == nb.max(), lambda: f"rotated mask {g} {kw}: pixel {y},{x} is {m[y, x]}")
                    elif not (-2 <= u <= h + 1 and -2 <= v <= w + 1):
                        ctx.check(m[y, x] == 0, lambda: f"rotated mask {g} {kw}: pixel {y},{x} from outside is {m[y, x]}")
            P = self.points(h, w)
            out = ctx.call(prep.remove_points_using_parabola_mask, P, h, w, rotate=a, **kw)
            sel = [p for p in P if 0 <= p[0] < h and 0 <= p[1] < w and m[int(p[0]), int(p[1])] == 1]
            ctx.check(np.array_equal(np.asarray(out).reshape(-1, 2), np.asarray(sel).reshape(-1, 2)), lambda: f"points on the rotated mask {g} {kw}")
            ctx.outcome(m)
            ctx.interesting()

    def do_turn(self, g, ctx):
        a = np.deg2rad(g["a"])
        sets = [np.zeros((1, 2)), np.asarray([[1.0, 0.0], [0.0, 1.0]]), [[3, 4]], np.asarray([[1000, -2000], [7, 7]], dtype=np.int16), np.asarray([[0.5, 1e6]], dtype=np.float32),
                [(1.5, -2.5), (3.25, 4.0), (-1.0, -1.0)], np.arange(20.0).reshape(10, 2), -np.arange(12).reshape(6, 2), np.asarray([[1e-8, -1e-8]])]
        for P in sets:
            Q = np.asarray(P, float)
            sc = max(1e-8, np.abs(Q).max())
            tol = (1e-9 if np.asarray(P).dtype != np.float32 else 1e-5) * sc
            exp = np.column_stack((Q[:, 1] * np.sin(a) + Q[:, 0] * np.cos(a), Q[:, 1] * np.cos(a) - Q[:, 0] * np.sin(a)))
            for r in (ctx.call(prep.rotate_points, P, g["a"]), ctx.call(prep.rotate_points, P, a, degree_unit=False)):
                ctx.check(r.shape == Q.shape and np.abs(r - exp).max() <= tol, lambda: f"{P} turned by {g['a']} degrees: {r} instead of {exp}")
            back = ctx.call(prep.rotate_points, r, -g["a"])
            ctx.check(np.abs(back - Q).max() <= 2 * tol, lambda: f"{P} turned forth and back by {g['a']} degrees: {back}")
            ctx.outcome(np.round(exp, 6))
        ctx.interesting()

    def do_sub(self, g, ctx):
        n = g["n"]
        base = np.asarray([[1.0, 2.0], [2.0, 1.0], [1.0, 2.0], [0.1 + 0.2, 3.0], [-1.0, 0.0], [0.3, 3.0], [5.5, 2.0], [5.5, 2.00001], [1e9, -3.0], [1.0, 1.0], [7.0, 7.0]])[:n]
        for m in range(g["a"], g["a"] + 32):
            sel = [tuple(base[i]) for i in range(n) if (m >> i) & 1]
            exp = [p for p in base.tolist() if tuple(p) not in set(sel)]
            for P, S in ((base, np.asarray(sel).reshape(-1, 2)), (base.tolist(), sel), (base, sel[::-1] + [(99.0, 99.0)])):
                out = np.asarray(ctx.call(prep.remove_subset_points, S, P)).reshape(-1, 2)
                ctx.check(np.array_equal(out, np.asarray(exp).reshape(-1, 2)), lambda: f"{sel} removed from {base.tolist()}: {out.tolist()}")
            ctx.outcome(len(exp))
            ctx.interesting(bool(sel))
