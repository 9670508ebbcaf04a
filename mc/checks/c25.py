import itertools
import warnings
import numpy as np
from mc import ref, grids
from discorpy.prep import preprocessing as prep

ref.require_repo()
HOR, VER = prep.group_dots_hor_lines_based_polyfit, prep.group_dots_ver_lines_based_polyfit


class Check:
    PID = "C25"
    RULE = "state = (curved grid, tilt, pattern of missing dots, parameters, input order, direction); returned lines compared one to one with the rows or columns the points were drawn from"
    BOUNDS = {"quick": "3 grids x 5 models x 5 tilts x (no, 4 single, 6 patterned) missing dots x 2 gaps x 2 orders, both directions; 9 short-row patterns x 4 accepted ratios; units of length, grids of up to 120 columns or 70 rows, single lines of 5..25 dots, dots just inside or outside the tolerance",
              "thorough": "7 grids x 7 models x 9 tilts x (14 single, 8 patterned) missing dots x 3 gaps x 3 orders, both directions; 9 short-row patterns x 7 accepted ratios"}

    def space(self, tier):
        deep = tier == "thorough"
        for s in [(9, 12), (14, 9), (13, 17)] + ([(20, 20), (11, 11), (7, 30), (30, 12)] if deep else []):
            for m in ["none", "b2", "p2", "b5", "p1"] + (["p5", "b3"] if deep else []):
                for t in [0.0, 4.0, -11.0, 19.0, -25.0] + ([1.0, -2.0, 8.0, 15.0] if deep else []):
                    yield {"k": "grid", "s": list(s), "m": m, "t": t, "deep": deep}
                    yield {"k": "gap", "s": list(s), "m": m, "t": t, "deep": deep}
                    yield {"k": "short", "s": list(s), "m": m, "t": t, "deep": deep}
        for t in (0.0, 6.0, -14.0):
            for o in (1, 2, 3, 4):
                for ov in (0.0, 0.3, 0.5, 1.0):
                    yield {"k": "poly", "t": t, "o": o, "ov": ov}
            for nm in (2, 4, 7, 9):
                yield {"k": "wide", "t": t, "nm": nm}
        for u in (0.001, 0.04, 300.0):
            for t in (0.0, 8.0, -19.0):
                yield {"k": "unit", "u": u, "t": t}
        for n in range(5, 26):
            for t in (0.0, 10.0):
                yield {"k": "one", "n": n, "t": t}
        for nx in (25, 61):
            for t in (0.0, -7.0):
                yield {"k": "near", "nx": nx, "t": t}
        for s in ((25, 40), (40, 25), (7, 120), (70, 9)) + (((45, 50), (9, 300)) if deep else ()):
            for t in (0.0, 3.0):
                yield {"k": "large", "s": list(s), "t": t}
        yield {"k": "empty"}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def curve(self, ny, nx, d, t, shape):
        a = np.deg2rad(t)
        G = np.empty((ny, nx, 2))
        for i in range(ny):
            for j in range(nx):
                x = (j - (nx - 1) / 2) * d
                y = (i - (ny - 1) / 2) * d + shape(2 * x / ((nx - 1) * d)) * d
                G[i, j] = 300 + y * np.cos(a) + x * np.sin(a), 400 + x * np.cos(a) - y * np.sin(a)
        return G

    def do_unit(self, g, ctx):
        """The unit of length does not matter."""
        d, sl = 20.0, np.tan(np.deg2rad(g["t"]))
        G = self.curve(7, 15, d, g["t"], lambda u: 1.2 * u * u)
        rows = [np.delete(G[i], [j for j in range(15) if (2 * i + j) % 6 == 0], axis=0) for i in range(7)]
        pts = np.concatenate(rows)
        for o in (pts, pts[::-1]):
            kw = dict(ratio=0.25, num_dot_miss=3, accepted_ratio=0.4)
            a = ctx.call(HOR, o * g["u"], sl, d * g["u"], **kw)
            self.match(ctx, [np.asarray(l) / g["u"] for l in a], rows, f"{g} {kw}", 1)
            b = ctx.call(VER, o[:, ::-1] * g["u"], sl, d * g["u"], **kw)
            self.match(ctx, [np.asarray(l) / g["u"] for l in b], [l[:, ::-1] for l in rows], f"columns {g} {kw}", 0)
        ctx.outcome([len(l) for l in a])
        ctx.interesting()

    def do_large(self, g, ctx):
        """Many dots, long rows, many rows."""
        d, sl = 20.0, np.tan(np.deg2rad(g["t"]))
        ny, nx = g["s"]
        G = self.curve(ny, nx, d, g["t"], lambda u: 0.8 * u * u)
        rows = [np.delete(G[i], [j for j in range(nx) if (2 * i + j) % 13 == 0], axis=0) for i in range(ny)]
        pts = np.concatenate(rows)
        kw = dict(ratio=0.25, num_dot_miss=3, accepted_ratio=0.4)
        a = ctx.call(HOR, pts, sl, d, **kw)
        self.match(ctx, a, rows, f"{g} {kw}", 1)
        b = ctx.call(VER, pts[:, ::-1], sl, d, **kw)
        self.match(ctx, b, [l[:, ::-1] for l in rows], f"columns {g} {kw}", 0)
        ctx.outcome([len(l) for l in a])
        ctx.interesting()

    def do_one(self, g, ctx):
        """A single line, of every length."""
        d, sl = 20.0, np.tan(np.deg2rad(g["t"]))
        G = self.curve(1, g["n"], d, g["t"], lambda u: 0.3 * u * u)
        for ov in (0.0, 0.5, 1.0):
            for nm in (2, 3, 5):
                kw = dict(ratio=0.25, num_dot_miss=nm, accepted_ratio=0.5, overlap_ratio=ov)
                a = ctx.call(HOR, G[0], sl, d, **kw)
                self.match(ctx, a, [G[0]], f"one line of {g['n']} dots {g} {kw}", 1)
                b = ctx.call(VER, G[0][:, ::-1], sl, d, **kw)
                self.match(ctx, b, [G[0][:, ::-1]], f"one column of {g['n']} dots {g} {kw}", 0)
                ctx.outcome([len(l) for l in a])
        ctx.interesting()

    def do_near(self, g, ctx):
        """A dot beside a straight line, just inside or outside the tolerance."""
        d, sl, nx = 20.0, np.tan(np.deg2rad(g["t"])), g["nx"]
        a = np.deg2rad(g["t"])
        G = self.curve(5, nx, d, g["t"], lambda u: 0.0)
        for ratio in (0.1, 0.3):
            for row in (0, 2, 4):
                for f in (0.3, 0.6, 0.85, -0.85, 1.15, -1.15, 1.5):
                    for j in (0.5, nx - 1.5, nx - 0.6):
                        y = (row - 2) * d + f * ratio * d
                        x = (j - (nx - 1) / 2) * d
                        e = np.asarray([300 + y * np.cos(a) + x * np.sin(a), 400 + x * np.cos(a) - y * np.sin(a)])
                        rows = [G[i] if i != row or abs(f) > 1 else np.vstack((G[i], e)) for i in range(5)]
                        pts = np.vstack((G.reshape(-1, 2), e))
                        kw = dict(ratio=ratio, num_dot_miss=3, accepted_ratio=0.5)
                        what = f"{g} dot beside row {row} at {f} of the tolerance, column {j} {kw}"
                        out = ctx.call(HOR, pts, sl, d, **kw)
                        self.match(ctx, out, rows, what, 1)
                        out = ctx.call(VER, pts[:, ::-1], sl, d, **kw)
                        self.match(ctx, out, [l[:, ::-1] for l in rows], "vertical " + what, 0)
                        ctx.outcome([len(l) for l in out])
        ctx.interesting()

    def do_poly(self, g, ctx):
        """Lines that follow a polynomial of the given order and no lower one."""
        d, sl = 20.0, np.tan(np.deg2rad(g["t"]))
        f = {1: lambda u: 0.0, 2: lambda u: 2.2 * u * u, 3: lambda u: 3.5 * u ** 3, 4: lambda u: 4.0 * u ** 4}[g["o"]]
        G = self.curve(7, 31, d, g["t"], f)
        pts = G.reshape(-1, 2)
        kw = dict(ratio=0.2, num_dot_miss=3, accepted_ratio=0.6, order=g["o"], overlap_ratio=g["ov"])
        a = ctx.call(HOR, pts, sl, d, **kw)
        self.match(ctx, a, list(G), f"lines of order {g['o']} {g}", 1)
        b = ctx.call(VER, pts[:, ::-1], sl, d, **kw)
        self.match(ctx, b, [l[:, ::-1] for l in G], f"columns of order {g['o']} {g}", 0)
        ctx.outcome([len(l) for l in a])
        ctx.interesting(g["o"] > 1)

    def do_wide(self, g, ctx):
        """Runs of missing dots up to the allowed gap are bridged."""
        d, sl, nm = 20.0, np.tan(np.deg2rad(g["t"])), g["nm"]
        G = self.curve(6, 45, d, g["t"], lambda u: 1.5 * u * u)
        for run in range(0, nm):
            for where in (0, 1, 2, 3) if run < nm - 1 else (0, 1, 2):
                rows = []
                for i in range(6):
                    at = [22 + nm + 1 + i % 2, 21 - nm - run - i % 3, 45 - run - 2, 22 - run // 2 + i % 2][where]
                    rows.append(np.delete(G[i], [j for j in range(at, at + run) if 0 <= j < 45], axis=0))
                pts = np.concatenate(rows)
                kw = dict(ratio=0.25, num_dot_miss=nm, accepted_ratio=0.5)
                a = ctx.call(HOR, pts, sl, d, **kw)
                self.match(ctx, a, rows, f"{run} dots missing in a row, {kw} {g} {where}", 1)
                b = ctx.call(VER, pts[:, ::-1], sl, d, **kw)
                self.match(ctx, b, [l[:, ::-1] for l in rows], f"{run} dots missing in a column, {kw} {g} {where}", 0)
                ctx.outcome([len(l) for l in a])
        ctx.interesting()

    def do_empty(self, g, ctx):
        for f in (HOR, VER):
            for e in ([], np.zeros((0, 2))):
                ctx.raises(ValueError, f, e, 0.0, 10.0)
        ctx.outcome("e")

    def draw(self, g):
        ny, nx = g["s"]
        d = 25.0
        R = 0.5 * d * np.hypot(ny, nx)
        G = grids.base_grid(ny, nx, d, d, 0.52 * ny * d + 40, 0.47 * nx * d + 55, g["t"])
        if g["m"] != "none":
            G = grids.distort(G, 0.5 * nx * d + 50, 0.5 * ny * d + 45, grids.models(R)[g["m"]])
        return G, d

    def missing(self, ny, nx, deep):
        yield "none", set()
        singles = [(0, 0), (ny - 1, nx - 1), (ny // 2, nx // 2), (1, nx - 2)]
        if deep:
            singles = list(itertools.product(range(ny), range(nx)))[::max(3, ny * nx // 14)]
        for c in singles:
            yield f"single {c}", {c}
        cells = list(itertools.product(range(ny), range(nx)))
        yield "checker5", {(i, j) for i, j in cells if (2 * i + j) % 5 == 0}
        yield "checker7", {(i, j) for i, j in cells if (3 * i + 2 * j) % 7 == 3}
        yield "corners", {(i, j) for i, j in cells if min(i, ny - 1 - i) + min(j, nx - 1 - j) < 2}
        yield "block", {(i, j) for i, j in cells if (i == ny // 2 and j % 2) or (j == nx // 2 and i % 3 == 0 and abs(i - ny // 2) > 1)}
        yield "left", {(i, j) for i, j in cells if j < 2 * (i % 2)}
        yield "right", {(i, j) for i, j in cells if j >= nx - 3 * (i % 2)}
        if deep:
            yield "diag", {(i, j) for i, j in cells if i == j or i + 2 == j}
            yield "edge", {(i, j) for i, j in cells if (i in (0, ny - 1) and j % 4 == 1) or (j in (0, nx - 1) and i % 4 == 2)}

    def match(self, ctx, out, exp, what, along):
        ctx.check(len(out) == len(exp), lambda: f"{what}: {len(out)} lines instead of {len(exp)}")
        exp = sorted([l[np.argsort(l[:, along], kind="stable")] for l in exp], key=lambda l: l[:, 1 - along].mean())
        for i, (a, b) in enumerate(zip(out, exp)):
            a = np.asarray(a)
            ctx.check(a.shape == b.shape and np.abs(a - b).max() < 1e-6, lambda: f"{what}: line {i} has {len(a)} points {np.round(a, 1).tolist()[:3]}.. instead of {len(b)} points {np.round(b, 1).tolist()[:3]}..")

    def do_grid(self, g, ctx):
        G, d = self.draw(g)
        ny, nx = g["s"]
        sl = np.tan(np.deg2rad(g["t"]))
        for name, miss in self.missing(ny, nx, g["deep"]):
            rows = [np.asarray([G[i, j] for j in range(nx) if (i, j) not in miss]) for i in range(ny)]
            cols = [np.asarray([G[i, j] for i in range(ny) if (i, j) not in miss]) for j in range(nx)]
            pts = np.concatenate(rows)
            orders = [np.arange(len(pts)), np.arange(len(pts))[::-1]]
            if g["deep"]:
                orders.append(np.argsort((np.arange(len(pts)) * 7919) % 104729))
            for nm in (3, 5) if not g["deep"] else (3, 4, 6):
                for k, o in enumerate(orders):
                    if name.startswith("single") and k:
                        continue
                    p = pts[o]
                    kp = p.copy()
                    kw = dict(ratio=0.25, num_dot_miss=nm, accepted_ratio=0.3)
                    what = f"{g} missing {name} order {k} {kw}"
                    a = ctx.call(HOR, p, sl, d, **kw)
                    self.match(ctx, a, rows, "horizontal " + what, 1)
                    b = ctx.call(VER, p, -sl, d, **kw)
                    self.match(ctx, b, cols, "vertical " + what, 0)
                    c = ctx.call(VER, p[:, ::-1], sl, d, **kw)
                    ctx.check(len(c) == len(a) and all(len(x) == len(y) and np.abs(x - y[:, ::-1]).max() < 1e-6 for x, y in zip(a, c)), lambda: f"{what}: exchange of x and y changes the lines")
                    ctx.check(np.array_equal(p, kp), "input modified")
                    ctx.outcome([len(l) for l in a])
            ctx.interesting(bool(miss))

    def do_short(self, g, ctx):
        """Some rows are short: exactly those with the accepted length are returned."""
        G, d = self.draw(g)
        ny, nx = g["s"]
        sl = np.tan(np.deg2rad(g["t"]))
        for n in range(9):
            # the middle part is always there; rows are cut at one or both ends
            keep = []
            for i in range(ny):
                cut = [0, 0, nx // 2 - 2, 0, 3, 1, nx // 3][(i * (n + 1) + n) % 7]
                a, b = (0, nx - cut) if (i + n) % 2 else (cut, nx)
                keep.append((a, b))
            rows = [G[i, a:b] for i, (a, b) in enumerate(keep)]
            pts = np.concatenate(rows)
            L = max(map(len, rows))
            for ar in (0.0, 0.65, 0.5, 0.4) + ((0.6, 0.3, 0.1) if g["deep"] else ()):
                exp = [r for r in rows if len(r) >= ar * L - 1e-9]
                kw = dict(ratio=0.25, num_dot_miss=2, accepted_ratio=ar)
                what = f"{g} cut {n} {kw}"
                a = ctx.call(HOR, pts, sl, d, **kw)
                ctx.outcome([len(l) for l in a])
                c = ctx.call(VER, pts[:, ::-1], sl, d, **kw)
                ctx.check(len(c) == len(a) and all(len(x) == len(y) and np.abs(x - y[:, ::-1]).max() < 1e-6 for x, y in zip(a, c)), lambda: f"{what}: exchange of x and y changes the lines")
                self.match(ctx, a, exp, what, 1)
            ctx.interesting()

    def do_gap(self, g, ctx):
        """Rows with only one or two dots in the middle: never mixed with others."""
        G, d = self.draw(g)
        ny, nx = g["s"]
        sl = np.tan(np.deg2rad(g["t"]))
        for n in range(7):
            for left in (1, 2):
                rows, full = [], []
                for i in range(ny):
                    if (i + n) % 4 == 0:
                        rows.append(np.delete(G[i], [j for j in range(nx) if abs(j - nx // 2) < (nx + 1) // 2 and j not in range(nx // 2, nx // 2 + left)], axis=0))
                    else:
                        rows.append(G[i])
                        full.append(i)
                pts = np.concatenate(rows)
                for ar in (0.0, 0.1, 0.3, 0.65):
                    kw = dict(ratio=0.25, num_dot_miss=2, accepted_ratio=ar)
                    what = f"{g} gap {n} {left} {kw}"
                    for name, out in (("horizontal", ctx.call(HOR, pts, sl, d, **kw)), ("vertical", [l[:, ::-1] for l in ctx.call(VER, pts[:, ::-1], sl, d, **kw)])):
                        seen = []
                        for l in out:
                            k = [i for i in range(ny) if len(rows[i]) >= len(l) and all(np.abs(rows[i] - q).sum(axis=1).min() < 1e-6 for q in l)]
                            ctx.check(len(k) == 1, lambda: f"{name} {what}: a line of {len(l)} points {np.round(l, 1).tolist()[:4]} mixes rows")
                            ctx.check(k[0] not in seen and (k[0] not in full or len(l) == nx), lambda: f"{name} {what}: row {k[0]} returned twice or in part")
                            seen.append(k[0])
                        ctx.check(set(full) <= set(seen), lambda: f"{name} {what}: rows {sorted(set(full) - set(seen))} lost")
                        ctx.outcome([len(l) for l in out])
                ctx.interesting()
