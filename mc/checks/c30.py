import itertools
import warnings
import numpy as np
from scipy import ndimage as ndi
from mc import ref, dots
from discorpy.prep import preprocessing as prep

ref.require_repo()


def median_bg(m, size):
    """Median over size x size windows of the mirrored image (odd size)."""
    k = size // 2
    p = np.pad(np.asarray(m, float), k, mode="symmetric")
    return np.median(np.lib.stride_tricks.sliding_window_view(p, (size, size)), axis=(2, 3))


def ref_norm(m, bg):
    mean = bg.mean()
    return mean * np.asarray(m, float) / np.where(bg == 0, mean, bg)


class Check:
    PID = "C30"
    RULE = "state = (image, filter size) for normalisation, (background, noise, contrast, dots, snr) for thresholds; results compared with brute-force references, and under scaling, shifting and inversion"
    BOUNDS = {"quick": "all 3-level images of 2x3 pixels (729) x 3 sizes; 9 shapes x 6 contents x 4 sizes x 4 types (median); 8 shapes x 5 contents x 3 widths x 3 paddings (fft); 240 threshold images x 8 snr",
              "thorough": "all 3-level images of 2x3, 2x4 pixels (7290) x 4 sizes; 25 shapes x 6 contents x 6 sizes x 4 types (median); 20 shapes x 5 contents x 5 widths x 3 paddings (fft); 1000 threshold images x 11 snr"}

    def space(self, tier):
        deep = tier == "thorough"
        for h, w in [(2, 3)] + ([(2, 4)] if deep else []):
            for a in range(0, 3 ** (h * w), 81):
                yield {"k": "tiny", "h": h, "w": w, "a": a, "sizes": [1, 3, 5] + ([7] if deep else [])}
        sh = [(1, 1), (1, 9), (7, 1), (8, 8), (13, 20), (21, 12), (30, 31), (5, 40), (25, 25)]
        if deep:
            sh += [(h, w) for h in (3, 10, 17, 36) for w in (4, 11, 18, 33)]
        for s in sh:
            for c in range(6):
                yield {"k": "med", "s": list(s), "c": c, "sizes": [1, 3, 7, 15] + ([5, 25] if deep else [])}
        fs = [(40, 40), (41, 40), (40, 41), (33, 57), (64, 30), (51, 51), (100, 80), (25, 90)]
        if deep:
            fs += [(h, w) for h in (20, 45, 128) for w in (24, 47, 99, 150)]
        for s in fs:
            for c in range(5):
                yield {"k": "fft", "s": list(s), "c": c, "sig": [5, 10, 20] + ([3, 40] if deep else [])}
        for s in [(60, 60), (80, 45), (50, 120)] + ([(100, 100), (33, 64)] if deep else []):
            for bg in [100.0, 1000.0] + ([10.0, 1.0, 30000.0] if deep else []):
                for noise in [0.0, 0.01, 0.03, 0.08] + ([0.002] if deep else []):
                    for con in [0.3, 0.6, 0.9, 3.0]:
                        for n in (2, 5) if not deep else (1, 2, 3, 5):
                            yield {"k": "thr", "s": list(s), "bg": bg, "no": noise, "con": con, "n": n, "snr": [0.0, 0.5, 1.0, 2.0, 3.0, 5.0, 8.0, 12.0] + ([0.1, 1.5, 30.0] if deep else [])}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def do_tiny(self, g, ctx):
        h, w = g["h"], g["w"]
        for n in range(g["a"], min(g["a"] + 81, 3 ** (h * w))):
            m = np.asarray([(n // 3 ** i) % 3 for i in range(h * w)]).reshape(h, w)
            for size in g["sizes"]:
                bg = median_bg(m, size)
                if bg.max() == 0:
                    continue
                for dt in (np.int16, np.float32, np.float64):
                    mm = m.astype(dt)
                    out = ctx.call(prep.normalization, mm, size=size)
                    exp = ref_norm(m, bg)
                    ctx.check(out.shape == (h, w) and np.all(np.isfinite(out)) and np.allclose(out, exp, rtol=1e-5), lambda: f"image {m.tolist()} {dt.__name__} size {size}: {np.asarray(out).tolist()} instead of {exp.tolist()}")
                    ctx.check(np.array_equal(m, mm), "input modified")
                ctx.outcome(np.round(exp, 4))
                ctx.interesting(bg.min() == 0)

    def content(self, c, h, w):
        y, x = np.mgrid[:h, :w]
        base = [np.full((h, w), 7.0), 100 + 3.0 * x + 2.0 * y, 50 + 10 * np.sin(x / 3.0) * np.cos(y / 4.0), ((x * 37 + y * 91) % 251).astype(float),
                np.where((x // 4 + y // 4) % 3 == 0, 0.0, 40.0 + x % 5), np.where(x < w // 2, 0.0, 9.0) + np.where(y < h // 3, 0.0, 5.0)]
        return base[c]

    def do_med(self, g, ctx):
        h, w = g["s"]
        m = self.content(g["c"], h, w)
        for size in g["sizes"]:
            if size // 2 > 8 * min(h, w):
                continue
            for dt in (np.float32, np.float64, np.uint8, np.uint16):
                mm = m.astype(dt)
                bg = median_bg(mm, size)
                if bg.max() == 0:
                    continue
                exp = ref_norm(mm, bg)
                out = ctx.call(prep.normalization, mm, size=size)
                ctx.check(out.shape == (h, w) and np.all(np.isfinite(out)) and np.allclose(out, exp, rtol=1e-4), lambda: f"{g} {dt.__name__} size {size}: differs from the reference by {np.nanmax(np.abs(out - exp))}")
                if g["c"] == 0:
                    ctx.check(np.allclose(out, mm, rtol=1e-5), lambda: f"{g}: a constant image changes")
                if dt == np.float64:
                    o2 = ctx.call(prep.normalization, 4.0 * mm, size=size)
                    ctx.check(np.allclose(o2, 4.0 * out, rtol=1e-9), lambda: f"{g} size {size}: scaling the image does not scale the result")
                ctx.outcome(np.round(exp, 3))
            ctx.interesting(bg.min() == 0)

    def do_fft(self, g, ctx):
        h, w = g["s"]
        y, x = np.mgrid[:h, :w]
        m = [np.full((h, w), 7.0), 100 + 0.5 * x + 0.3 * y, 50 + 10 * np.sin(x / 3.0) * np.cos(y / 4.0), 60.0 + ((x * 37 + y * 91) % 151), 30 + 20.0 * ((x // 5 + y // 5) % 2)][g["c"]]
        for sig in g["sig"]:
            for pad in (100, 40, 61):
                for mode in ("reflect", "edge"):
                    if mode == "reflect" and pad >= 3 * min(h, w):
                        continue
                    P = np.pad(m, pad, mode=mode)
                    H, W = P.shape
                    bg = ndi.gaussian_filter(P, (H / (2 * np.pi * sig), W / (2 * np.pi * sig)), mode="wrap", truncate=6)[pad:-pad, pad:-pad]
                    exp = bg.mean() * m / bg
                    for dt in (np.float64, np.float32, np.uint8):
                        mm = m.astype(dt)
                        out = ctx.call(prep.normalization_fft, mm, sigma=sig, pad=pad, mode=mode)
                        e2 = exp if dt != np.uint8 else exp * mm / m
                        tol = 0.02 if dt != np.uint8 else 0.06
                        ctx.check(out.shape == (h, w) and np.all(np.isfinite(out)), lambda: f"{g}: not finite")
                        rel = np.abs(out / np.where(e2 == 0, 1, e2) - 1).max()
                        ctx.check(rel < tol, lambda: f"{g} sigma {sig} pad {pad} {mode} {dt.__name__}: differs from the Gaussian reference by {rel}")
                        if g["c"] == 0:
                            ctx.check(np.allclose(out, mm, rtol=5e-3), lambda: f"{g} sigma {sig} pad {pad}: a constant image changes by {np.abs(out / mm - 1).max()}")
                    o1 = ctx.call(prep.normalization_fft, m, sigma=sig, pad=pad, mode=mode)
                    o2 = ctx.call(prep.normalization_fft, 5.0 * m, sigma=sig, pad=pad, mode=mode)
                    ctx.check(np.allclose(o2, 5.0 * o1, rtol=1e-7), lambda: f"{g} sigma {sig}: scaling the image does not scale the result")
                    ctx.outcome(np.round(exp, 3))
        ctx.interesting()

    def do_thr(self, g, ctx):
        h, w = g["s"]
        y, x = np.mgrid[:h, :w]
        nz = ((x * 131 + y * 57 + x * y * 7) % 199) / 198.0 * 2 - 1  # even spread over -1..1
        cs = [(h * (i + 0.5) / g["n"], w * (j + 0.5) / g["n"]) for i in range(g["n"]) for j in range(g["n"])]
        d = dots.draw(h, w, cs, 0.18 * min(h, w) / g["n"])
        level = g["bg"] * g["con"]
        low = level < g["bg"]
        m = np.where(d > 0, level, g["bg"]) + g["no"] * g["bg"] * nz
        side, other = ("bright", "dark") if low else ("dark", "bright")
        med = np.median(m)
        sgn = 1 if low else -1
        prev = None
        amp = 2 * g["no"] * g["bg"]
        for snr in sorted(g["snr"]):
            t = ctx.call(prep.calculate_threshold, m, bgr=side, snr=snr)
            what = f"{g} {side} background, snr {snr}"
            ctx.check(np.isfinite(t) and sgn * (med - t) >= -1e-6 * g["bg"] - 0.1 * amp, lambda: f"{what}: threshold {t} on the wrong side of the background {med}")
            # distance from the background edge: half the spread times snr (the fit covers the middle half)
            edge = g["bg"] - sgn * amp / 2
            ctx.check(abs((edge - sgn * 0.5 * snr * amp) - t) < 0.3 * amp * (1 + snr) + 1e-6 * g["bg"], lambda: f"{what}: threshold {t}, background edge {edge}, spread {amp}")
            if prev is not None:
                ctx.check(sgn * (prev - t) >= -1e-9 * g["bg"], lambda: f"{what}: threshold moves back towards the background ({prev} -> {t})")
                if amp:
                    ctx.check(sgn * (prev - t) > 0, lambda: f"{what}: threshold does not move with snr")
            prev = t
            for a, b in ((2.0, 0.0), (1.0, 37.0), (0.25, -11.0)):
                t2 = ctx.call(prep.calculate_threshold, a * m + b, bgr=side, snr=snr)
                ctx.check(abs(t2 - (a * t + b)) < 1e-6 * (abs(a * g["bg"]) + abs(b)) * (1 + snr), lambda: f"{what}: image times {a} plus {b} has threshold {t2} instead of {a * t + b}")
            t3 = ctx.call(prep.calculate_threshold, -m, bgr=other, snr=snr)
            ctx.check(abs(t3 + t) < 0.12 * amp * (1 + snr) + 1e-6 * g["bg"], lambda: f"{what}: the inverted image has threshold {t3} instead of {-t}")
            gap = abs(level - g["bg"])
            if snr * amp < 0.5 * gap and amp < 0.2 * gap:
                sel = (m < t) if low else (m > t)
                if snr >= 1 and amp:
                    ctx.check(np.array_equal(sel, d > 0), lambda: f"{what}: the threshold {t} does not separate the dots")
            ctx.outcome(round(float(t), 4))
        ctx.interesting(amp > 0)
