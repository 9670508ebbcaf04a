import itertools
import numpy as np
from mc import ref, grids
from discorpy.prep import preprocessing as prep

ref.require_repo()


def greedy(pts, slope, d, ratio, miss):
    """Lines of at least two dots: start at the leftmost dot left, take in every
    next dot that is close to the line of the given slope through the last one."""
    left = sorted(map(tuple, pts), key=lambda p: p[1])
    n = np.sqrt(slope * slope + 1.0)
    out, tie = [], False
    while len(left) > 1:
        line, rest = [left[0]], []
        for p in left[1:]:
            q = line[-1]
            gap = abs(p[1] - q[1])
            off = abs(p[0] - q[0] - slope * (p[1] - q[1])) / n
            tie = tie or abs(off - ratio * d) < 1e-7 or abs(gap - miss * d) < 1e-7
            if gap < miss * d and off < ratio * d:
                line.append(p)
            else:
                rest.append(p)
        left = rest
        if len(line) > 1:
            out.append(line)
    return out, tie


FUN = {"hor": prep.group_dots_hor_lines, "ver": prep.group_dots_ver_lines}


class Check:
    PID = "C24"
    RULE = "state = (set of dots, slope, tolerance, allowed gap, accepted ratio, direction); lines compared with an independent greedy model and with the rows of the drawn grid"
    BOUNDS = {"quick": "all 2..5-subsets of 11 scattered dots x 3 slopes x 2 tolerances x 2 gaps x 4 accepted ratios; grids 3x4..6x6 with every pair or end run of missing dots x 5 tilts x 3 jitters, both directions, 3 input orders; 12 dot images of 7 types; units of length, mostly short rows; grids of up to 150 columns or 70 rows",
              "thorough": "all 2..6-subsets of 13 scattered dots x 5 slopes x 3 tolerances x 3 gaps x 6 accepted ratios; grids 3x4..8x8 with every pair or end run of missing dots x 9 tilts x 3 jitters; 40 dot images"}

    CAND = [(0.0, 0.0), (1.3, 10.1), (-2.1, 20.3), (0.6, 41.7), (9.2, 4.4), (10.9, 15.9), (10.3, 26.2), (20.7, 1.6), (19.4, 12.8), (21.9, 33.5), (4.8, 30.6), (15.2, 45.3), (-6.1, 7.7)]

    def space(self, tier):
        deep = tier == "thorough"
        n = 13 if deep else 11
        for k in range(2, 7 if deep else 6):
            for first in itertools.combinations(range(n), 2):
                yield {"k": "set", "n": n, "m": k, "first": list(first), "deep": deep}
        for ny in range(3, 9 if deep else 7):
            for nx in range(4, 9 if deep else 7):
                for t in [0, 3, -7, 12, -20] + ([1, 24, -3, 16] if deep else []):
                    for j in (0, 1, 2):
                        yield {"k": "grid", "ny": ny, "nx": nx, "t": t, "j": j}
        for ny, nx in [(5, 6), (8, 5), (7, 7), (10, 12)]:
            for t in [0, 5, -9] + ([2, -2, 14, -17, 20, -24, 8] if deep else []):
                yield {"k": "img", "ny": ny, "nx": nx, "t": t}
        for s in (0.0, 0.1, -0.25, 0.45, -0.45):
            for r in (0.1, 0.3, 0.45):
                for miss in (1, 2.5, 6):
                    yield {"k": "edge", "s": s, "r": r, "miss": miss}
        for u in (0.001, 0.04, 300.0):
            for t in (0, 9, -21):
                yield {"k": "unit", "u": u, "t": t}
        for ny in (12, 21, 33):
            for sh in (0.2, 0.5, 0.8):
                yield {"k": "rows", "ny": ny, "sh": sh}
        for ny, nx in ((20, 30), (30, 20), (6, 150), (70, 4)) + (((40, 45), (3, 500)) if deep else ()):
            for t in (0, -2):
                yield {"k": "large", "ny": ny, "nx": nx, "t": t}
        yield {"k": "empty"}

    def run(self, g, ctx):
        getattr(self, "do_" + g["k"])(g, ctx)

    def do_empty(self, g, ctx):
        for f in FUN.values():
            for e in ([], np.zeros((0, 2)), np.empty((0,))):
                ctx.raises(ValueError, f, e, 0.0, 10.0)
        ctx.outcome("empty")

    def both(self, ctx, pts, slope, d, **kw):
        """The two directions must agree up to exchange of the coordinates."""
        a = ctx.call(FUN["hor"], pts, slope, d, **kw)
        b = ctx.call(FUN["ver"], np.asarray(pts)[:, ::-1], slope, d, **kw)
        ctx.check(len(a) == len(b) and all(np.array_equal(x, np.asarray(y)[:, ::-1]) for x, y in zip(a, b)), lambda: f"vertical grouping of the transposed dots differs: {pts} {slope} {d} {kw}")
        return a

    def do_unit(self, g, ctx):
        """The unit of length does not matter."""
        s = np.tan(np.deg2rad(g["t"]))
        G = grids.base_grid(6, 7, 20.0, 20.0, 100, 130, g["t"])
        rows = [G[i][[j for j in range(7) if (i * 3 + j) % 5]] for i in range(6)]
        pts = np.concatenate(rows)
        for o in (pts, pts[::-1], pts[np.argsort((np.arange(len(pts)) * 7919) % 10007)]):
            out = self.both(ctx, o * g["u"], s, 20.0 * g["u"], ratio=0.3, num_dot_miss=4, accepted_ratio=0.2)
            exp = sorted(rows, key=lambda l: l[:, 0].mean())
            ctx.check([len(l) for l in out] == [len(l) for l in exp] and all(np.allclose(a / g["u"], b, rtol=0, atol=1e-6) for a, b in zip(out, exp)), lambda: f"{g}: rows not recovered in another unit of length: {[len(l) for l in out]}")
        ctx.outcome([len(l) for l in out])
        ctx.interesting()

    def do_large(self, g, ctx):
        """Many dots, long rows, many rows."""
        ny, nx = g["ny"], g["nx"]
        s = np.tan(np.deg2rad(g["t"]))
        G = grids.base_grid(ny, nx, 20.0, 20.0, 10.0 * ny + 40, 10.0 * nx + 60, g["t"])
        rows = [G[i][[j for j in range(nx) if (i * 3 + j) % 9 or nx < 6]] for i in range(ny)]
        pts = np.concatenate(rows)
        exp = sorted(rows, key=lambda l: l[:, 0].mean())
        for o in (pts, pts[np.argsort((np.arange(len(pts)) * 7919) % 10007)]):
            out = self.both(ctx, o, s, 20.0, ratio=0.3, num_dot_miss=4, accepted_ratio=0.5)
            ctx.check([len(l) for l in out] == [len(l) for l in exp] and all(np.allclose(a, b, rtol=0, atol=1e-6) for a, b in zip(out, exp)), lambda: f"{g}: {len(out)} rows with {[len(l) for l in out][:9]} dots instead of {len(exp)} with {[len(l) for l in exp][:9]}")
        ctx.outcome([len(l) for l in out])
        ctx.interesting()

    def do_rows(self, g, ctx):
        """Most rows short, a few long: the longest one sets what is accepted."""
        ny, nx = g["ny"], 15
        rows = []
        for i in range(ny):
            n = nx if i % 7 == 2 else max(2, int(round((g["sh"] + 0.05 * (i % 3)) * nx)))
            rows.append(np.asarray([(20.0 * i, 20.0 * j + 0.1 * i) for j in range(n)]))
        pts = np.concatenate(rows)
        for ar in (0.0, 0.3, 0.5, 0.65, 0.75, 0.9, 1.0):
            exp = [r for r in rows if len(r) >= ar * nx - 1e-9]
            out = self.both(ctx, pts, 0.0, 20.0, ratio=0.3, num_dot_miss=3, accepted_ratio=ar)
            ctx.check([len(l) for l in out] == [len(l) for l in exp] and all(np.array_equal(a, b) for a, b in zip(out, exp)), lambda: f"{g} accepted ratio {ar}: rows of {[len(l) for l in out]} dots instead of {[len(l) for l in exp]}")
            ctx.outcome([len(l) for l in out])
        ctx.interesting()

    def do_edge(self, g, ctx):
        """Second dots just inside and just outside the two limits."""
        s, r, miss, d = g["s"], g["r"], g["miss"], 10.0
        for fo in (0.0, 0.5, 0.93, 0.995, 1.005, 1.07):
            for fg in (0.3, 0.93, 0.995, 1.005, 1.07):
                for sg in (1, -1):
                    gap = fg * miss * d
                    off = sg * fo * r * d * np.sqrt(1 + s * s)
                    pts = [(20.0, 20.0), (20.0 + s * gap + off, 20.0 + gap)]
                    # a third one that always belongs to the first keeps the result from being empty
                    pts.append((20.0 - s * 0.2 * d, 20.0 - 0.2 * d))
                    exp, tie = greedy(np.asarray(pts), s, d, r, miss)
                    if tie or not exp:
                        continue
                    out = self.both(ctx, np.asarray(pts), s, d, ratio=r, num_dot_miss=miss, accepted_ratio=0.0)
                    ctx.check([len(l) for l in out] == [len(l) for l in exp], lambda: f"{g} offset {fo} of the tolerance, gap {fg} of the limit: lines of {[len(l) for l in out]} dots instead of {[len(l) for l in exp]}")
                    ctx.outcome([len(l) for l in out])
        ctx.interesting()

    def do_set(self, g, ctx):
        deep = g["deep"]
        rest = [i for i in range(g["first"][1] + 1, g["n"])]
        for more in itertools.combinations(rest, g["m"] - 2):
            pts = np.asarray([self.CAND[i] for i in list(g["first"]) + list(more)])
            for s in [0.0, 0.1, -0.2] + ([0.45, -0.05] if deep else []):
                for r in [0.3, 0.15] + ([0.45] if deep else []):
                    for miss in [1.5, 4] + ([2.2] if deep else []):
                        exp, tie = greedy(pts, s, 10.0, r, miss)
                        if tie:
                            continue
                        for ar in [0.0, 0.5, 0.65, 1.0] + ([0.75, 0.3] if deep else []):
                            kw = dict(ratio=r, num_dot_miss=miss, accepted_ratio=ar)
                            if not exp:
                                ctx.raises(ValueError, FUN["hor"], pts, s, 10.0, **kw)
                                continue
                            lim = ar * max(len(l) for l in exp)
                            e2 = sorted([l for l in exp if len(l) >= lim - 1e-9], key=lambda l: np.mean([p[0] for p in l]))
                            keep = pts.copy()
                            out = self.both(ctx, pts[::-1] if ar else pts, s, 10.0, **kw)
                            ctx.check(np.array_equal(pts, keep), "input modified")
                            ctx.check([[tuple(map(float, p)) for p in l] for l in out] == [[tuple(p) for p in l] for l in e2], lambda: f"dots {pts.tolist()} slope {s} {kw}: lines {[np.asarray(l).tolist() for l in out]} instead of {e2}")
                            ctx.outcome([len(l) for l in out])
                            ctx.interesting(len(out) > 1)

    def do_grid(self, g, ctx):
        ny, nx = g["ny"], g["nx"]
        d = 20.0
        G = grids.base_grid(ny, nx, d, d, 100, 130, g["t"])
        jit = np.asarray([[(0.9 * np.sin(7 * i + 3 * j), 0.9 * np.cos(5 * i + 11 * j)) for j in range(nx)] for i in range(ny)]) * g["j"]
        G = G + jit
        slope = np.tan(np.deg2rad(g["t"]))
        cells = list(itertools.product(range(ny), range(nx)))
        # every pair of missing dots, and every line with its first or last dots missing
        gone = list(itertools.combinations(cells, 2))
        gone += [tuple((i, j) for i in r) for j in range(nx) for k in range(3, ny - 1) for r in (range(k), range(ny - k, ny))]
        gone += [tuple((i, j) for j in r) for i in range(ny) for k in range(3, nx - 1) for r in (range(k), range(nx - k, nx))]
        for n, miss in enumerate(gone):
            rows = [[tuple(G[i, j]) for j in range(nx) if (i, j) not in miss] for i in range(ny)]
            pts = np.asarray([p for r in rows for p in r])
            order = [slice(None), slice(None, None, -1), np.argsort((np.arange(len(pts)) * 7919) % len(pts) + 0.1 * np.arange(len(pts)))][n % 3]
            kw = dict(ratio=0.3, num_dot_miss=4, accepted_ratio=0.2)
            out = self.both(ctx, pts[order], slope, d, **kw)
            exp = sorted(rows, key=lambda l: np.mean([p[0] for p in l]))
            ctx.check([[tuple(map(float, p)) for p in l] for l in out] == exp, lambda: f"grid {g} without {miss}: rows not recovered: {[len(l) for l in out]} dots")
            ctx.check(sorted(map(tuple, np.concatenate(out))) == sorted(map(tuple, pts)), "dots lost")
            # columns of the tilted grid
            cols = [[tuple(G[i, j]) for i in range(ny) if (i, j) not in miss] for j in range(nx)]
            if min(map(len, cols)) > 1:
                out = ctx.call(FUN["ver"], pts[order], -slope, d, ratio=0.3, num_dot_miss=4, accepted_ratio=0.2)
                exp = sorted(cols, key=lambda l: np.mean([p[1] for p in l]))
                ctx.check([[tuple(map(float, p)) for p in l] for l in out] == exp, lambda: f"grid {g} without {miss}: columns not recovered")
            ctx.outcome([len(l) for l in out])
            ctx.interesting()

    def do_img(self, g, ctx):
        ny, nx = g["ny"], g["nx"]
        d = 16.0
        G = grids.base_grid(ny, nx, d, d, (ny + 4) * 10, (nx + 4) * 10, g["t"])
        img = np.zeros((int((ny + 4) * 20), int((nx + 4) * 20)), np.int16)
        C = np.round(G).astype(int)
        for i, j in itertools.product(range(ny), range(nx)):
            y, x = C[i, j]
            img[y - 2:y + 3, x - 1:x + 2] = 1
            img[y - 1:y + 2, x - 2:x + 3] = 1
        slope = np.tan(np.deg2rad(g["t"]))
        for dt, top in ((np.int16, 1), (np.uint8, 1), (np.float32, 1), (bool, 1), (np.uint8, 255), (np.int16, 7), (np.float64, 100)):
            im = img.astype(dt) * dt(top) if top > 1 else img.astype(dt)
            out = ctx.call(FUN["hor"], im, slope, d, accepted_ratio=0.5)
            ctx.check(len(out) == ny and all(np.allclose(out[i], C[i], atol=1e-5) for i in range(ny)), lambda: f"rows of the dot image {g} {dt} not recovered")
            out = ctx.call(FUN["ver"], im, -slope, d, accepted_ratio=0.5)
            ctx.check(len(out) == nx and all(np.allclose(out[j], C[:, j], atol=1e-5) for j in range(nx)), lambda: f"columns of the dot image {g} {dt} not recovered")
        ctx.outcome([np.asarray(l) for l in out])
        ctx.interesting()
