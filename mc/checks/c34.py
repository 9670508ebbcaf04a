import itertools
import warnings
import numpy as np
from mc import ref
from discorpy.util import utility as util

ref.require_repo()


class Check:
    PID = "C34"
    RULE = "state = (pattern kind, height, width, spacing, feature size, margin, grey level); every pixel compared with a reference drawing"
    BOUNDS = {"quick": "5 large sizes up to 2100; dots: 5 sizes x 9 spacings x 7 dot sizes x 7 margins; lines: 5 sizes x 9 spacings x 6 widths x 7 margins; boards: 5 sizes x 8 cells x 5 margins x 3 greys; masks: widths 1..30 x 5 ratios",
              "thorough": "dots: 9 sizes x 16 spacings x 10 dot sizes x 10 margins; lines: 9 x 16 x 9 x 10; boards: 9 sizes x 14 cells x 8 margins x 3 greys; masks: widths 1..80 x 9 ratios"}

    def space(self, tier):
        deep = tier == "thorough"
        sh = [(60, 60), (80, 57), (57, 80), (100, 64), (41, 120)] + ([(33, 34), (128, 128), (90, 200), (151, 75)] if deep else [])
        for s in sh:
            for d in [3, 4, 5, 7, 8, 10, 13, 17, 25] + ([1, 2, 6, 9, 11, 20, 40] if deep else []):
                yield {"k": "dots", "s": list(s), "d": d, "deep": deep}
                yield {"k": "lines", "s": list(s), "d": d, "deep": deep}
            for z in [1, 2, 3, 5, 8, 10, 13, 20] + ([4, 6, 7, 9, 16, 25] if deep else []):
                yield {"k": "board", "s": list(s), "z": z, "deep": deep}
        for s in [(700, 900), (1030, 300), (300, 1030), (2100, 130), (130, 2100)] + ([(1800, 2000)] if deep else []):
            for d in (25, 90):
                yield {"k": "dots", "s": list(s), "d": d, "deep": False}
                yield {"k": "lines", "s": list(s), "d": d, "deep": False}
            yield {"k": "board", "s": list(s), "z": 20, "deep": False}
        for w in (33, 64, 65, 100, 127, 128, 129, 257):
            yield {"k": "mask", "w": w, "r": [1.0, 0.5, 0.92, 0.0, 1.3]}
        for w in range(1, 81 if deep else 31):
            yield {"k": "mask", "w": w, "r": [1.0, 0.5, 0.92, 0.0, 1.3] + ([0.25, 0.75, 0.1, 2.0] if deep else [])}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def margins(self, deep, seq=True):
        m = [0, 1, 5, 9]
        if deep:
            m += [12, 3]
        return m + ([(3, 8), [10, 2], (0, 6)] + ([(7, 7)] if deep else []) if seq else [])

    def disc(self, w, ratio=1.0):
        c = w // 2
        y, x = np.mgrid[-c:w - c, -c:w - c]
        return (x * x + y * y <= (ratio * c) ** 2).astype(int)

    def do_mask(self, g, ctx):
        for r in g["r"]:
            m = ctx.call(util.make_circle_mask, g["w"], r)
            e = self.disc(g["w"], r)
            ctx.check(m.shape == e.shape and np.array_equal(m, e), lambda: f"mask {g['w']} {r}:\n{m}")
            ctx.outcome(m)
        ctx.interesting()

    def do_dots(self, g, ctx):
        h, w = g["s"]
        d = g["d"]
        for z in [1, 3, 5, 7, 2, 4, 6] + ([9, 11, 20] if g["deep"] else []):
            for mg in self.margins(g["deep"]):
                mv, mh = mg if isinstance(mg, (tuple, list)) else (mg, mg)
                k = max(1, min(z, min(h, w) // 8))
                if d < k:
                    ctx.raises(ValueError, util.make_dot_pattern, h, w, d, z, mg)
                    continue
                p = ctx.call(util.make_dot_pattern, height=h, width=w, dot_distance=d, dot_size=z, margin=mg)
                what = f"dots {h}x{w} distance {d} size {z} margin {mg}"
                ctx.check(p.shape == (h, w) and set(np.unique(p)) <= {0.0, 1.0}, lambda: f"{what}: shape {p.shape}, levels {np.unique(p)}")
                half = k // 2 + 1
                cy, cx = range(mv + half, h - mv - half, d), range(mh + half, w - mh - half, d)
                ink = 1 - p
                ctx.check(not ink[:mv].any() and not ink[h - mv:].any() and not ink[:, :mh].any() and not ink[:, w - mh:].any(), lambda: f"{what}: ink in the margin")
                ms = self.disc(k)
                tmpl = set(zip(*[a - k // 2 for a in np.nonzero(ms)]))
                if k % 2 == 0:
                    # an even disc can sit on either side of its centre
                    alt = {(-a, -b) for a, b in tmpl}
                else:
                    alt = tmpl
                ok = []
                for t in (tmpl, alt):
                    e = np.zeros((h, w))
                    for (y, x) in itertools.product(cy, cx):
                        for a, b in t:
                            e[y + a, x + b] = 1
                    ok.append(np.array_equal(e, ink))
                ctx.check(any(ok), lambda: f"{what}: dots are not discs at rows {list(cy)[:4]}.. and columns {list(cx)[:4]}..")
                ctx.outcome(p)
                ctx.interesting(len(cy) * len(cx) > 0)

    def do_lines(self, g, ctx):
        h, w = g["s"]
        d = g["d"]
        for z in [1, 2, 3, 4, 5, 7] + ([9, 11, 30] if g["deep"] else []):
            for mg in self.margins(g["deep"]):
                mv, mh = mg if isinstance(mg, (tuple, list)) else (mg, mg)
                k = max(1, min(z, min(h, w) // 8))
                p = ctx.call(util.make_line_pattern, height=h, width=w, line_distance=d, line_size=z, margin=mg)
                what = f"lines {h}x{w} distance {d} size {z} margin {mg}"
                ys, xs = list(range(mv, h - mv - k, d)), list(range(mh, w - mh - k, d))
                e = np.ones((h, w))
                for y in ys:
                    e[y:y + k, xs[0]:xs[-1] + k] = 0
                for x in xs:
                    e[ys[0]:ys[-1] + k, x:x + k] = 0
                ctx.check(p.shape == (h, w) and np.array_equal(p, e), lambda: f"{what}: {int((p != e).sum())} pixels differ, first at {np.argwhere(p != e)[0]}")
                ctx.outcome(p)
                ctx.interesting()

    def do_board(self, g, ctx):
        h, w = g["s"]
        z = g["z"]
        for mg in self.margins(g["deep"], seq=False):
            for gray in (0.95, 0.5, 0.0):
                p = ctx.call(util.make_chessboard, height=h, width=w, size=z, margin=mg, margin_grayscale=gray)
                e = np.full((h, w), gray, np.float32)
                for a, y in enumerate(range(z + mg, h - mg - z, z)):
                    for b, x in enumerate(range(z + mg, w - mg - z, z)):
                        e[y:y + z, x:x + z] = 1.0 if (a + b) % 2 == 0 else 0.0
                ctx.check(p.shape == (h, w) and np.allclose(p, e), lambda: f"board {h}x{w} cells {z} margin {mg} gray {gray}: {int((p != e).sum())} pixels differ, first at {np.argwhere(p != e)[:1]}")
                ctx.outcome(p)
                ctx.interesting()
