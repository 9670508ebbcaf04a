import itertools
import numpy as np
from mc import ref, blobs
from discorpy.prep import preprocessing as prep

ref.require_repo()
RAT = [0.02, 0.1, 0.3, 0.45, 0.8]


class Check:
    PID = "C23"
    RULE = "state = placement of up to nine dots; the kept pixels compared with a brute-force nearest-neighbour reference, per dot"
    BOUNDS = {"quick": "all subsets (512) of a 3x3 lattice of dots x 3 spacings x 5 tolerances; up to 1100 dots in one image; one dot moved to every position of a 17x17 window x 4 dot shapes; all pairs of 13 shapes with dots inside their boxes",
              "thorough": "all subsets (4096) of a 3x4 lattice x 5 spacings x 5 tolerances; one dot moved to every position of a 33x33 window x 6 dot shapes; all pairs of 13 shapes"}

    def space(self, tier):
        deep = tier == "thorough"
        ny, nx = (3, 4) if deep else (3, 3)
        for n in range(0, 1 << (ny * nx), 16):
            yield {"k": "sub", "ny": ny, "nx": nx, "a": n, "d": [8, 7.3, 5.1] + ([11.5, 3.9] if deep else [])}
        for s in ["sq", "d1", "px", "ell"] + (["d2", "stair"] if deep else []):
            for y in range(0, 33 if deep else 17):
                yield {"k": "move", "s": s, "y": y, "w": 33 if deep else 17}
        names = list(blobs.catalogue())
        for p in names:
            for q in names:
                yield {"k": "pair", "p": p, "q": q}

        for n in (290, 600, 1100) + ((2500,) if deep else ()):
            yield {"k": "many", "n": n}

    def judge(self, ctx, img, dd, what):
        comps = blobs.components(img)
        cen = np.asarray([np.mean(np.asarray(c, float), axis=0) for c in comps]).reshape(-1, 2)
        near = [sorted(np.hypot(*(cen[j] - cen[i])) for j in range(len(comps)) if j != i)[:3] for i in range(len(comps))]
        keep = img.copy()
        for d in dd:
            fr = [[v / d - np.floor(v / d) for v in n] for n in near]
            for r in RAT:
                # a distance on a limit is decided by rounding
                if any(abs(f - r) < 1e-7 or f > 1 - 1e-7 or 0 < f < 1e-9 for l in fr for f in l):
                    continue
                out = ctx.call(prep.select_dots_based_distance, img, d, ratio=r)
                exp = np.zeros(img.shape, int)
                for c, l in zip(comps, fr):
                    if any(f < r for f in l):
                        for p in c:
                            exp[p] = 1
                ctx.check(out.shape == img.shape and np.array_equal(np.asarray(out, int), exp),
                          lambda: f"{what}: distance {d}, tolerance {r}: pixels {np.argwhere(np.asarray(out, int) != exp).tolist()[:6]} differ from the reference\n{img if img.size < 900 else ''}")
                ctx.check(np.array_equal(img, keep), "input modified")
                ctx.outcome(out)
        ctx.interesting(len(comps) > 2)

    def run(self, g, ctx):
        cat = blobs.catalogue()
        if g["k"] == "sub":
            ny, nx = g["ny"], g["nx"]
            for n in range(g["a"], g["a"] + 16):
                img = np.zeros((8 * ny + 6, 8 * nx + 6), np.int16)
                for i in range(ny * nx):
                    if (n >> i) & 1:
                        blobs.paste(img, cat["sq"], 4 + 8 * (i // nx) + (i % 5 == 3), 4 + 8 * (i % nx))
                self.judge(ctx, img, g["d"], f"subset {n}")
        elif g["k"] == "many":
            # more dots than fit in a byte, some of them off the lattice
            side = int(np.ceil(np.sqrt(g["n"])))
            img = np.zeros((8 * side + 8, 8 * side + 8), np.int16)
            for i in range(g["n"]):
                if i % 11 in (4, 7):
                    continue
                blobs.paste(img, cat["px"], 4 + 8 * (i // side) + (i % 7 == 3), 4 + 8 * (i % side) + 2 * (i % 5 == 1) - (i % 13 == 2))
            self.judge(ctx, img, [8.03, 6.3], f"{g['n']} dots")
        elif g["k"] == "move":
            for x in range(g["w"]):
                img = np.zeros((48, 48), np.int16 if x % 2 else np.uint8)
                for y0, x0 in ((6, 6), (6, 16), (16, 6), (26, 26), (37, 12)):
                    blobs.paste(img, cat["sq"], y0, x0)
                blobs.paste(img, cat[g["s"]], 4 + g["y"], 4 + x)
                self.judge(ctx, img, [10, 4.5], f"{g['s']} at {g['y']},{x}")
        else:
            p, q = cat[g["p"]], cat[g["q"]]
            for y, x in itertools.product((1, 5, 8, 11, 14, 17, 24), repeat=2):
                img = np.zeros((50, 50), np.int16)
                blobs.paste(img, p, 10, 12)
                blobs.paste(img, q, y, x)
                for k in (3, 20):
                    blobs.paste(img, cat["sq"], 40, k + 6)
                self.judge(ctx, img, [14, 6.5], f"{g['p']} and {g['q']} at {y},{x}")
