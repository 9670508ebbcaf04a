import contextlib
import io
import itertools
import warnings
import numpy as np
from skimage.filters import threshold_otsu
from mc import ref, blobs, dots
from discorpy.prep import preprocessing as prep

ref.require_repo()


def four(m):
    """Rank filter of the documented denoising: upper median of 2 x 2."""
    p = np.pad(m, ((1, 0), (1, 0)), mode="edge")
    return np.sort(np.stack([p[1:, 1:], p[:-1, 1:], p[1:, :-1], p[:-1, :-1]]), axis=0)[2]


def flood(free, seeds, eight):
    seen = np.zeros_like(free)
    todo = [s for s in seeds if free[s]]
    for s in todo:
        seen[s] = True
    h, w = free.shape
    while todo:
        y, x = todo.pop()
        for dy in (-1, 0, 1):
            for dx in (-1, 0, 1):
                if (dy or dx) and (eight or not (dy and dx)):
                    a, b = y + dy, x + dx
                    if 0 <= a < h and 0 <= b < w and free[a, b] and not seen[a, b]:
                        seen[a, b] = True
                        todo.append((a, b))
    return seen


def plus(m, all_):
    p = np.pad(m, 1, constant_values=all_)
    n = np.stack([p[1:-1, 1:-1], p[:-2, 1:-1], p[2:, 1:-1], p[1:-1, :-2], p[1:-1, 2:]])
    return n.all(axis=0) if all_ else n.any(axis=0)


def binary(m, thres, denoise):
    """What binarization documents: threshold, make the dots bright, remove
    what touches the border, clean small noise, fill holes."""
    if denoise:
        m = four(np.abs(m))
    b = m > thres
    if b.mean() > 0.5:
        b = ~b
    h, w = b.shape
    rim = [(y, x) for y in range(h) for x in range(w) if y in (0, h - 1) or x in (0, w - 1)]
    b = b & ~flood(b, rim, True)
    b = plus(plus(b, True), False)
    return np.int16(~flood(~b, rim, False))


def disc(r, hole=None, isle=None):
    n = int(r) + 1
    y, x = np.mgrid[-n:n + 1, -n:n + 1]
    m = x * x + y * y <= r * r
    if hole:
        m = m & ~((x - hole[1]) ** 2 + (y - hole[0]) ** 2 <= hole[2] ** 2)
    if isle:
        m = m | ((x - isle[1]) ** 2 + (y - isle[0]) ** 2 <= isle[2] ** 2)
    return m[np.any(m, axis=1)][:, np.any(m, axis=0)]


SHAPES = [disc(3), disc(6.2, (0, 0, 2.5)), disc(6.2, (1, -2, 2.3)), disc(8, (0, 0, 4.6), (0, 1, 1.5)), np.ones((3, 3), bool), np.ones((1, 1), bool),
          np.ones((1, 9), bool), disc(1), np.ones((2, 2), bool), np.eye(6, dtype=bool), disc(5, (5, 0, 1))]


class Check:
    PID = "C28"
    RULE = "state = (dot lattice, tilt, dot size, grey levels, type, edge softness, denoising, threshold); found points compared with the drawn centres; size and spacing with brute force on the central region"
    BOUNDS = {"quick": "6 lattices x 4 tilts x 3 offsets x 6 grey-level pairs x 4 types x 2 edges x denoising on/off; every number of dots 0..40; 60 mixed-size images x 5 central regions",
              "thorough": "10 lattices x 8 tilts x 5 offsets x 8 grey-level pairs x 4 types x 2 edges x denoising on/off; every number of dots 0..80; 200 mixed-size images x 9 central regions"}

    def space(self, tier):
        deep = tier == "thorough"
        for h, w, d, r in [(200, 240, 20, 5), (240, 150, 22, 4), (150, 150, 15, 4), (300, 200, 30, 6), (250, 250, 32, 10), (131, 260, 18, 5)] + ([(400, 300, 25, 7), (180, 420, 20, 4), (350, 350, 40, 12), (220, 221, 19, 6)] if deep else []):
            for t in [0.0, 4.0, -11.0, 21.0] + ([1.0, -2.5, 8.0, -17.0] if deep else []):
                for o in [(0.0, 0.0), (2.3, -3.6), (-5.5, 4.5)] + ([(7.1, 0.2), (0.5, 0.5)] if deep else []):
                    yield {"k": "bin", "g": [h, w, d, r], "t": t, "o": list(o), "deep": deep}
        for n in range(0, 81 if deep else 41):
            yield {"k": "num", "n": n}
        for n in range(200 if deep else 60):
            yield {"k": "size", "n": n, "deep": deep}
        for n in range(8):
            yield {"k": "many", "n": n}
        for m in range(5):
            for side in range(4):
                for s in range(len(SHAPES)):
                    yield {"k": "exact", "m": m, "side": side, "s": s}
        for a, p in ((10, 15), (9, 14), (11, 16), (7, 10), (12, 17), (5, 9)):
            for o in range(0, 4):
                yield {"k": "dense", "a": a, "p": p, "o": o}
        yield {"k": "bad"}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def do_dense(self, g, ctx):
        """Dots that cover nearly half of the image, on either side of the background."""
        a, p, o = g["a"], g["p"], g["o"]
        n = 6
        side = n * p + o
        m = np.zeros((side, side + p), bool)
        for i in range(n):
            for j in range(n + 1):
                y, x = i * p + (p - a) // 2 + o // 2, j * p + (p - a) // 2 + o // 2
                m[y:y + a, x:x + a] = True
        for lo, hi in ((0.0, 1.0), (900.0, 100.0), (10.0, 250.0), (3.0, 1.0)):
            img = np.where(m, hi, lo)
            for dt in (np.float64, np.float32, np.uint16):
                for den in (True, False):
                    got = ctx.call(prep.binarization, img.astype(dt), thres=(lo + hi) / 2.0, denoise=den)
                    ctx.check(np.array_equal(got, binary(img.astype(dt), (lo + hi) / 2.0, den)), lambda: f"{g}: dots of level {hi} on {lo} covering {m.mean():.2f} of the image, {dt.__name__}, denoise {den}: other pixels than specified")
                    # (the 2 x 2 filter widens bright dots)
                    b = (four(img) if den else img) > (lo + hi) / 2.0
                    if (b if hi > lo else ~b).mean() > 0.5:
                        continue
                    got = ctx.call(prep.binarization, img.astype(dt), ratio=1.0, denoise=den)
                    ctx.check(len(blobs.components(got)) == n * (n + 1), lambda: f"{g}: {len(blobs.components(got))} dots of {n * (n + 1)} found")
        ctx.outcome(m)
        ctx.interesting(m.mean() > 0.4)

    def do_exact(self, g, ctx):
        h, w = 61, 83
        pat = np.zeros((h, w), bool)
        # one shape at a given distance from a border, others inside
        s = SHAPES[g["s"]]
        a, b = s.shape
        y, x = [(g["m"], 30), (h - a - g["m"], 30), (22, g["m"]), (22, w - b - g["m"])][g["side"]]
        pat[y:y + a, x:x + b] |= s
        for k, (cy, cx) in enumerate([(40, 20), (40, 55), (10, 12), (12, 60)]):
            t = SHAPES[(g["s"] + 3 * k + g["m"] + 1) % len(SHAPES)]
            pat[cy:cy + t.shape[0], cx:cx + t.shape[1]] |= t
        yy, xx = np.mgrid[0:h, 0:w]
        for n, (lo, hi, grad) in enumerate([(0.0, 1.0, 0.0), (200.0, 30.0, 0.3), (-40.0, -5.0, 0.0), (100.0, 900.0, 4.0)]):
            img = np.where(pat, hi, lo) + grad * np.hypot(yy - h / 2, xx - w / 2)
            for dt in (np.float64, np.float32) + ((np.uint16,) if min(lo, hi) >= 30 else ()):
                im = img.astype(dt)
                for den in (False, True):
                    if n == 2 and den:
                        th = [22.0]
                    else:
                        th = [(lo + hi) / 2.0, lo + 0.3 * (hi - lo)]
                    for t in th:
                        got = ctx.call(prep.binarization, im, thres=t, denoise=den)
                        ctx.check(np.array_equal(got, binary(im, t, den)), lambda: f"{g} {lo}->{hi} {dt.__name__} threshold {t} denoise {den}: other pixels than specified, {np.argwhere(got != binary(im, t, den))[:4].tolist()}")
                        if den and got.any():
                            p = ctx.call(prep.get_points_dot_pattern, im, thres=t)
                            c = [np.mean(np.asarray(q, float), axis=0) for q in blobs.components(got)]
                            ctx.check(len(p) == len(c) and np.allclose(sorted(map(tuple, p)), sorted(map(tuple, c)), atol=1e-6), lambda: f"{g} threshold {t}: points are not the centroids")
                    for r in (0.3, 0.6, 1.0, 0.01):
                        q = min(max(r, 0.05), 1.0)
                        m = four(np.abs(im)) if den else im
                        dh, dw = int((h - q * h) / 2), int((w - q * w) / 2)
                        roi = m[dh:h - dh, dw:w - dw]
                        if roi.min() == roi.max():
                            continue
                        t = threshold_otsu(roi, nbins=512)
                        got = ctx.call(prep.binarization, im, ratio=r, denoise=den)
                        ctx.check(np.array_equal(got, binary(im, t, den)), lambda: f"{g} {lo}->{hi} {dt.__name__} central region {r} denoise {den}: other pixels than specified")
                        ctx.outcome((int(got.sum()), float(t)))
        ctx.interesting()

    def do_many(self, g, ctx):
        n = g["n"]
        y, rows = 3, []
        for i in range(24):
            rows.append(y)
            y += 8 if i < 8 else 13
        img = np.zeros((y + 6, 23 * 13 + 12), np.int16)
        s = [np.ones((1, 1)), np.ones((2, 2)), np.ones((3, 2)), disc(2)][n % 4].astype(np.int16)
        for i, y in enumerate(rows):
            for x in range(3, img.shape[1] - 8, 13):
                blobs.paste(img, s, y, x)
        if n >= 4:
            img = np.ascontiguousarray(img.T)
        d = ctx.call(prep.calc_size_distance, img, ratio=1.0)
        ctx.check(abs(d[0] - s.sum()) < 1e-6 and abs(d[1] - 13) < 1e-6, lambda: f"{len(rows) ** 2} dots of {s.sum()} pixels, mostly 13 apart: size and distance {d}")
        if s.sum() > 1:
            p = ctx.call(prep.get_points_dot_pattern, img, binarize=False)
            ctx.check(len(p) == len(blobs.components(img)), lambda: f"{len(p)} points for {len(blobs.components(img))} dots")
        ctx.outcome(list(map(float, d)))

    def do_bad(self, g, ctx):
        for m in (np.ones((9, 9)), np.zeros((9, 9)), 2 * np.eye(9), np.eye(9) * 0.5, np.eye(9) - 0.5):
            ctx.raises(ValueError, prep.get_points_dot_pattern, m, binarize=False)
        ctx.outcome("bad")

    def do_bin(self, g, ctx):
        h, w, d, r = g["g"]
        C = np.asarray(list(dots.lattice(h, w, d, g["t"], *g["o"]).values()))
        edge = np.minimum.reduce([C[:, 0], C[:, 1], h - 1 - C[:, 0], w - 1 - C[:, 1]])
        inner, outer = C[edge >= r + 2.5], C[edge < r - 0.5]
        for soft in (False, True):
            pat = dots.draw(h, w, C, r, soft)
            for n, (bg, fg) in enumerate([(0, 1), (200, 30), (30, 200), (0.02, 0.05), (60000, 20000), (1, 0)] + ([(5, 250), (1e6, 2e6)] if g["deep"] else [])):
                img = bg + (fg - bg) * pat
                types = [np.float32] + ([np.uint8] if max(bg, fg) in (200, 250) else []) + ([np.uint16] if max(bg, fg) in (200, 60000) else []) + ([np.float64] if n % 2 else [])
                for dt in types:
                    im = img.astype(dt)
                    for den in (True, False):
                        kp = im.copy()
                        b = ctx.call(prep.binarization, im, denoise=den)
                        what = f"{g} soft={soft} {bg}->{fg} {dt.__name__} denoise={den}"
                        ctx.check(np.array_equal(im, kp), "input modified")
                        ctx.check(b.shape == (h, w) and set(np.unique(b)) <= {0, 1}, lambda: f"{what}: values {np.unique(b)[:5]}")
                        p = ctx.call(prep.get_points_dot_pattern, b, binarize=False)
                        D = np.hypot(p[:, None, 0] - C[None, :, 0], p[:, None, 1] - C[None, :, 1])
                        k, e = D.argmin(axis=1), D.min(axis=1)
                        lim = 1.3 if den else 0.5
                        ctx.check(e.max() < lim, lambda: f"{what}: point {p[e.argmax()]} is {e.max()} from the nearest drawn dot")
                        ctx.check(len(set(k)) == len(k), lambda: f"{what}: a dot is found twice")
                        di = np.hypot(p[:, None, 0] - inner[None, :, 0], p[:, None, 1] - inner[None, :, 1]).min(axis=0)
                        ctx.check(di.max() < lim, lambda: f"{what}: the dot at {inner[di.argmax()]} is not found")
                        if len(outer):
                            do = np.hypot(p[:, None, 0] - outer[None, :, 0], p[:, None, 1] - outer[None, :, 1]).min(axis=0)
                            ctx.check(do.min() > lim, lambda: f"{what}: the dot at {outer[do.argmin()]} touching the border is kept")
                        # a common shift of the denoising filter apart, positions are centroids
                        s = p - C[k]
                        ctx.check(np.abs(s - s.mean(axis=0)).max() < 0.75, lambda: f"{what}: points scatter by {np.abs(s - s.mean(axis=0)).max()}")
                        near = np.rint(inner).astype(int)
                        ctx.check(np.all(b[near[:, 0], near[:, 1]] == 1), lambda: f"{what}: dots are not ones")
                        if den:
                            q = ctx.call(prep.get_points_dot_pattern, im)
                            ctx.check(np.allclose(q, p, atol=1e-6), lambda: f"{what}: binarising in get_points_dot_pattern gives other points")
                        ctx.outcome(b)
                        b2 = ctx.call(prep.binarization, im, thres=(bg + fg) / 2.0, denoise=den)
                        ctx.check(len(blobs.components(b2)) == len(p) if n == 0 and not soft else b2.sum() > 0.7 * b.sum(), lambda: f"{what}: other dots with the mid threshold")
        ctx.interesting()

    def do_num(self, g, ctx):
        img = np.zeros((60, 60), np.int16)
        for i in range(g["n"]):
            y, x = 1 + 6 * (i // 9), 1 + 6 * (i % 9)
            img[y:y + 2 + i % 3, x:x + 2 + i % 2] = 1
        with contextlib.redirect_stdout(io.StringIO()):
            r = ctx.call(prep.check_num_dots, img)
        ctx.check(bool(r) == (g["n"] < 25), lambda: f"{g['n']} dots: not enough = {r}")
        ctx.outcome(bool(r))
        ctx.interesting(20 <= g["n"] <= 30)

    def do_size(self, g, ctx):
        n = g["n"]
        h, w = 60 + 7 * (n % 7), 60 + 11 * (n % 5)
        cat = blobs.catalogue()
        names = ["d1", "d2", "d3", "sq", "rect", "cross"]
        img = np.zeros((h, w), np.int16)
        for i, y in enumerate(range(2, h - 9, 10)):
            for j, x in enumerate(range(2, w - 9, 10)):
                v = (i * 31 + j * 17 + n * 7 + (i * j) % 5) % 13
                if v > 2:
                    s = cat[names[v % len(names)]]
                    blobs.paste(img, s, y + v % 2, x + (v // 2) % 2)
        for ratio in [0.3, 0.5, 0.8, 1.0, 0.45] + ([0.6, 0.7, 0.35, 0.9] if g["deep"] else []):
            a, b = int((h - ratio * h) / 2), int((w - ratio * w) / 2)
            roi = img[a:h - a, b:w - b]
            comps = [c for c in blobs.components(roi) if all(0 < y < roi.shape[0] - 1 and 0 < x < roi.shape[1] - 1 for y, x in c)]
            if len(comps) < 2:
                continue
            cen = [np.mean(np.asarray(c, float), axis=0) for c in comps]
            nn = [min(np.hypot(*(p - q)) for k, q in enumerate(cen) if k != i) for i, p in enumerate(cen)]
            exp = np.median([len(c) for c in comps]), np.median(nn)
            for dt in (np.int16, np.float32, np.uint8):
                r = ctx.call(prep.calc_size_distance, img.astype(dt), ratio=ratio)
                ctx.check(len(r) == 2 and abs(r[0] - exp[0]) < 1e-6 and abs(r[1] - exp[1]) < 1e-6, lambda: f"image {n}, central {ratio}: size and distance {r} instead of {exp}")
            ctx.outcome([float(v) for v in exp])
            ctx.interesting()
