import fnmatch
import itertools
import os
import warnings
from pathlib import Path
import numpy as np
from PIL import Image
from mc import ref, scratch
from discorpy.losa import loadersaver as losa

ref.require_repo()


class Check:
    PID = "C39"
    RULE = "state = (image mode, height, width, format, average flag) or (file names, pattern) or damaged file; loaded pixels compared with the pixels written by Pillow"
    BOUNDS = {"quick": "all sizes 1..6 x 1..6 x modes L, RGB, RGBA, LA, 1, I;16, I, F x formats png, tif, bmp; 12 long shapes up to 33000 pixels; all truncations of 6 files; up to 1100 files; all subsets of 7 file names x 12 patterns",
              "thorough": "all sizes 1..9 x 1..9 and 16x3, 3x16, 40x30; all truncations and all single-byte zeroings of the header; all subsets of 9 file names x 16 patterns"}
    MODES = {"L": (".png", ".tif", ".bmp"), "RGB": (".png", ".tif", ".bmp"), "RGBA": (".png", ".tif"), "LA": (".png",), "I;16": (".png", ".tif"), "I": (".tif",), "F": (".tif",), "1": (".png", ".tif")}

    def space(self, tier):
        deep = tier == "thorough"
        n = 9 if deep else 6
        sizes = list(itertools.product(range(1, n + 1), repeat=2)) + ([(16, 3), (3, 16), (40, 30)] if deep else [])
        for m in self.MODES:
            for s in sizes:
                yield {"k": "img", "m": m, "s": list(s)}
        for m in self.MODES:
            for s in ((300, 7), (7, 300), (600, 5), (5, 600), (1100, 4), (4, 1100), (2100, 3), (3, 2100), (5000, 2), (2, 5000), (33000, 1), (1, 33000)):
                yield {"k": "img", "m": m, "s": list(s)}
        for n in (30, 130, 300, 1100):
            yield {"k": "many", "c": n}
        for m in ("L", "RGB", "F", "RGBA"):
            for e in self.MODES[m]:
                yield {"k": "bad", "m": m, "e": e}
        names = ["img_0001.tif", "img_0002.tif", "img_0010.tif", "dot.png", "a.txt", "IMG.TIF", "b c.tif"] + (["x", "img_0001.tif.bak"] if deep else [])
        for r in range(len(names) + 1):
            for c in itertools.combinations(names, r):
                yield {"k": "find", "n": list(c), "deep": deep}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        with scratch.folder() as d:
            getattr(self, "do_" + g["k"])(g, ctx, d)

    def pixels(self, mode, h, w, seed=0):
        c = {"RGB": 3, "RGBA": 4, "LA": 2}.get(mode, 1)
        r = np.arange(h * w * c) * 37 + seed * 11
        if mode == "F":
            a = (r * 0.37 - 5).astype(np.float32)
        elif mode == "I":
            a = (r * 1009 - 4000).astype(np.int32)
        elif mode == "I;16":
            a = ((r * 257) % 65536).astype(np.uint16)
        elif mode == "1":
            a = (r * 7 % 3 == 0)
        else:
            a = (r % 256).astype(np.uint8)
        return a.reshape((h, w) if c == 1 else (h, w, c))

    def write(self, p, a, mode):
        if mode == "1":
            Image.fromarray(a.astype(np.uint8) * 255).convert("1").save(p)
        else:
            Image.fromarray(a).save(p)

    def do_img(self, g, ctx, d):
        h, w = g["s"]
        for seed in (0, 3):
            a = self.pixels(g["m"], h, w, seed)
            for e in self.MODES[g["m"]]:
                p = os.path.join(d, "i" + e)
                self.write(p, a, g["m"])
                for conv in (str, Path):
                    for kw in ({}, {"average": True}, {"average": False}):
                        r = ctx.call(losa.load_image, conv(p), **kw)
                        v = a.astype(np.float64)
                        if v.ndim == 3 and kw.get("average", True):
                            v = v.mean(axis=2)
                        what = f"{g['m']} {h}x{w} {e} {kw}"
                        ctx.check(r.shape == v.shape and r.dtype == np.float32, lambda: f"{what}: shape {r.shape} {r.dtype} instead of {v.shape}")
                        ctx.check(np.allclose(r, v, rtol=1e-6, atol=1e-4), lambda: f"{what}: {r.tolist()} instead of {v.tolist()}")
                        ctx.outcome(r)
        ctx.interesting()

    def do_bad(self, g, ctx, d):
        ctx.raises(ValueError, losa.load_image, os.path.join(d, "missing" + g["e"]))
        ctx.raises(ValueError, losa.load_image, Path(d) / "no" / "such.tif")
        ctx.raises(ValueError, losa.load_image, d)
        a = self.pixels(g["m"], 5, 7)
        p = os.path.join(d, "i" + g["e"])
        self.write(p, a, g["m"])
        with open(p, "rb") as f:
            raw = f.read()
        base = losa.load_image(p, average=False)
        for n in range(len(raw)):
            with open(p, "wb") as f:
                f.write(raw[:n])
            # a damaged file: either ValueError, or (only trailing bytes lost) the pixels
            try:
                r = ctx.call(losa.load_image, p, average=False)
            except ValueError:
                ctx.outcome("error")
                ctx.validated += 1
                continue
            ctx.check(np.array_equal(r, base), lambda: f"{g}: file cut after {n} of {len(raw)} bytes loaded as {r.tolist()}")
            ctx.outcome("same")
        for content in (b"", b"text", b"\0" * 64):
            with open(p, "wb") as f:
                f.write(content)
            ctx.raises(ValueError, losa.load_image, p)
        ctx.interesting()

    def do_many(self, g, ctx, d):
        names = ["p_%d.tif" % i for i in range(g["c"])]
        for n in names:
            open(os.path.join(d, n), "w").close()
        want = sorted(os.path.join(d, n) for n in names)
        for conv in (str, Path):
            r = ctx.call(losa.find_file, conv(os.path.join(d, "p_*.tif")))
            ctx.check(r == want, lambda: f"{len(r)} files found of {len(want)}, or in another order")
        ctx.outcome(len(want))
        ctx.interesting()

    def do_find(self, g, ctx, d):
        sub = os.path.join(d, "data")
        os.makedirs(os.path.join(sub, "inner"))
        for n in g["n"]:
            with open(os.path.join(sub, n), "w") as f:
                f.write(n)
        with open(os.path.join(sub, "inner", "img_0009.tif"), "w") as f:
            f.write("x")
        pats = ["*.tif", "*", "img_*.tif", "img_000?.tif", "*.png", "dot.png", "*.txt", "img_0002.tif", "nothing*", "[ab]*", "*_00[01]*", "b c.*"]
        if g["deep"]:
            pats += ["?", "*.bak", "img*", "*0*"]
        for pat in pats:
            want = sorted(os.path.join(sub, n) for n in g["n"] + ["inner"] if fnmatch.fnmatchcase(n, pat))
            for conv in (str, Path):
                q = conv(os.path.join(sub, pat))
                if not want:
                    ctx.raises(FileNotFoundError, losa.find_file, q)
                    continue
                r = ctx.call(losa.find_file, q)
                ctx.check(r == want, lambda: f"files {g['n']} pattern {pat}: {r} instead of {want}")
                ctx.outcome([os.path.basename(x) for x in r])
        ctx.interesting(len(g["n"]) > 1)
