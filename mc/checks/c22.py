import itertools
import numpy as np
from mc import ref, blobs
from discorpy.prep import preprocessing as prep

ref.require_repo()
SIZES = [(1, 0.0), (2, 0.5), (3, 0.3), (4, 0.25), (4, 1.0), (5, 0.5), (8, 0.5), (0.5, 0.9), (2, 1.5), (1, 4.0)]
AX = [0.05, 0.3, 0.7, 1.5]
BIG = [(5, 0.2), (13, 0.3), (29, 0.1), (21, 0.25), (56, 0.1), (104, 0.05), (20, 5.0), (28, 0.0)]
DT = [np.int16, np.uint8, np.float32, bool, np.float64]


class Check:
    PID = "C22"
    RULE = "state = one binary image (all images of small shapes; all placements of two shapes); the kept pixels compared with a flood-fill reference, per dot"
    BOUNDS = {"quick": "every binary image with sides 1..3 and 3x4, 4x3, 2x5 (13k images) x 10 size and 4 shape criteria; 13x13 shape pairs on a 7x7 lattice of offsets; images with 300, 600 and 1200 dots",
              "thorough": "every binary image up to 4x4 and 3x5 (111k images) x 10 size and 4 shape criteria; 13x13 shape pairs at every offset of a 22x22 window"}

    def space(self, tier):
        deep = tier == "thorough"
        shapes = [s for s in itertools.product((1, 2, 3), repeat=2)] + [(3, 4), (4, 3), (2, 5), (5, 2), (1, 6)]
        if deep:
            shapes += [(4, 4), (3, 5)]
        for h, w in shapes:
            n = 1 << (h * w)
            for a in range(0, n, 256):
                yield {"k": "all", "h": h, "w": w, "a": a, "b": min(n, a + 256)}
        names = list(blobs.catalogue())
        for p in names:
            for q in names:
                yield {"k": "pair", "p": p, "q": q, "step": 1 if deep else 3}

        for n, step in ((270, 7), (300, 7), (600, 9), (1200, 7)) + (((5000, 7), (33000, 5)) if deep else ()):
            yield {"k": "many", "n": n, "step": step}

    def judge(self, ctx, img, sizes, axes, dt, what):
        comps = blobs.components(img)
        arr = img.astype(dt)
        keep = arr.copy()
        for d, r in sizes:
            out = ctx.call(prep.select_dots_based_size, arr, d, ratio=r)
            exp = np.zeros(img.shape, int)
            for c in comps:
                lo, hi = max(0.0, d - r * d), d + r * d
                if lo <= len(c) <= hi:
                    for p in c:
                        exp[p] = 1
            ctx.check(out.shape == img.shape and np.array_equal(np.asarray(out, int), exp), lambda: f"{what}: size {d} +- {r}: kept\n{np.asarray(out, int)}\nof\n{img}\ninstead of\n{exp}")
            ctx.check(np.array_equal(arr, keep), "input modified")
            ctx.outcome(out)
        if axes:
            ex = [blobs.axes_excess(c) for c in comps]
            for r in axes:
                if any(e is not None and abs(e - r) < 1e-6 for e in ex):
                    continue
                out = ctx.call(prep.select_dots_based_ratio, arr, ratio=r)
                exp = np.zeros(img.shape, int)
                for c, e in zip(comps, ex):
                    if e is not None and e < r:
                        for p in c:
                            exp[p] = 1
                ctx.check(out.shape == img.shape and np.array_equal(np.asarray(out, int), exp), lambda: f"{what}: shape ratio {r}: kept\n{np.asarray(out, int)}\nof\n{img}\ninstead of\n{exp}")
                ctx.check(np.array_equal(arr, keep), "input modified")
                ctx.outcome(out)
        ctx.interesting(len(comps) > 1)

    def run(self, g, ctx):
        if g["k"] == "all":
            h, w = g["h"], g["w"]
            for n in range(g["a"], g["b"]):
                img = np.asarray([(n >> i) & 1 for i in range(h * w)]).reshape(h, w)
                self.judge(ctx, img, SIZES, AX, DT[n % len(DT)], f"image {n} of {h}x{w}")
            return
        if g["k"] == "many":
            # more dots than fit in a byte; dots of different sizes and shapes
            cat = blobs.catalogue()
            names = [k for k in cat if max(np.ptp(np.asarray(cat[k]), axis=0)) < g["step"] - 1] if not isinstance(next(iter(cat.values())), np.ndarray) else [k for k in cat if max(cat[k].shape) < g["step"]]
            side = int(np.ceil(np.sqrt(g["n"])))
            img = np.zeros((side * g["step"] + 2, side * g["step"] + 2), int)
            for i in range(g["n"]):
                blobs.paste(img, cat[names[(i * 5 + i // side) % len(names)]], 1 + g["step"] * (i // side), 1 + g["step"] * (i % side))
            self.judge(ctx, img, [(5, 0.5), (3, 0.7)], [0.3], "int16", f"{g['n']} dots")
            return
        cat = blobs.catalogue()
        p, q = cat[g["p"]], cat[g["q"]]
        for n, (y, x) in enumerate(itertools.product(range(0, 21, g["step"]), repeat=2)):
            img = np.zeros((40, 40), int)
            blobs.paste(img, p, 12, 13)
            blobs.paste(img, q, 2 + y, 3 + x)
            s = [len(c) for c in blobs.components(img)]
            self.judge(ctx, img, BIG[:4] + [(min(s), max(s) / min(s)), (min(s), 0.98 * max(s) / min(s) - 1), (s[0], 0.0), (s[-1], 0.01)], [0.3] if n % 3 else [0.05, 0.7], DT[n % len(DT)], f"{g['p']} and {g['q']} at {y},{x}")
