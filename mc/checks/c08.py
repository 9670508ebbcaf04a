import itertools
import numpy as np
import cv2
from mc import ref
from discorpy.util import utility as util

ref.require_repo()
cv2.setNumThreads(1)
PADS = [False, 0, 3, (1, 2, 3, 4), [5, 0, 0, 2], True]


def make(kind, h, w, ch, dt):
    yy, xx = np.mgrid[0:h, 0:w]
    base = {"rx": xx * 1.0, "ry": yy * 1.0, "smooth": ref.smooth(h, w)}[kind]
    a = base if ch == 0 else np.stack([base + 7 * k for k in range(ch)], axis=2)
    if np.issubdtype(np.dtype(dt), np.integer):
        a = np.clip(np.rint(a), 0, 250)
    return a.astype(dt)


class Check:
    PID = "C08"
    RULE = "state = (shape, channels, dtype, pad, centre, model, method, border); result compared with an independent model of the padded mapping and with the library's reference path"
    BOUNDS = {"quick": "6 shapes (and 9 long or large ones) x {grey,2,3,4 channels} x 5 dtypes x 6 pads x 3 centres x 4 models; nearest and linear; 4 border modes of the mapping routine",
              "thorough": "12 shapes x {grey,2,3,4} x 5 dtypes x 6 pads x 5 centres x 16 models; nearest, linear; 4 border modes"}

    def space(self, tier):
        deep = tier == "thorough"
        shapes = [(20, 31), (31, 20), (24, 24), (5, 9), (60, 45), (45, 60)]
        fr = [(0.5, 0.5), (0.3, 0.7), (0.9, 0.1)]
        cs = ["id", "grow", "five", "barrel"]
        if deep:
            shapes += [(100, 120), (120, 100), (200, 30), (30, 200), (8, 8), (256, 255)]
            fr += [(0.0, 0.0), (1.1, 0.5)]
            cs = ref.MONO
        for s in shapes:
            for ch in (0, 2, 3, 4):
                for dt in ("float32", "uint8", "float64", "uint16", "int16"):
                    for p in range(len(PADS)):
                        for f in fr:
                            yield {"k": "u", "s": list(s), "ch": ch, "dt": dt, "p": p, "f": list(f), "cs": cs}
        for s in [(700, 20), (20, 700), (1100, 15), (15, 1100), (2100, 9), (9, 2100), (4200, 6), (6, 4200), (1001, 1003)]:
            for ch in (0, 3):
                for dt in ("float32", "uint8"):
                    yield {"k": "u", "s": list(s), "ch": ch, "dt": dt, "p": 0, "f": [0.45, 0.53], "cs": ["five"]}
        for s in shapes:
            for p in range(len(PADS)):
                for m in ("nearest", "linear", "cubic"):
                    for pm in ("constant", "edge", "reflect", "mean"):
                        yield {"k": "m", "s": list(s), "p": p, "m": m, "pm": pm}
        for s in shapes:
            for b in ("const", "replicate", "reflect", "wrap", "reflect101", None):
                for m in (None, "nearest", "linear"):
                    yield {"k": "b", "s": list(s), "b": b, "m": m}

    def cmp(self, ctx, got, q, y, x, nearest, what):
        ctx.check(got.shape == q.shape, lambda: f"{what}: shape {got.shape} instead of {q.shape}")
        ctx.check(got.dtype == q.dtype, lambda: f"{what}: dtype {got.dtype} instead of {q.dtype}")
        for k in range(1 if q.ndim == 2 else q.shape[2]):
            im = (q if q.ndim == 2 else q[:, :, k]).astype(np.float64)
            g = (got if q.ndim == 2 else got[:, :, k]).astype(np.float64)
            if nearest:
                exp = im[np.rint(y).astype(int), np.rint(x).astype(int)]
                amb = (np.abs(y - np.floor(y) - 0.5) < 0.04) | (np.abs(x - np.floor(x) - 0.5) < 0.04)
                ok = (np.abs(g - exp) < 1e-3) | amb
            else:
                exp = ref.bilinear(im, y, x)
                tol = 0.04 * ref.local_range(im, y, x) + 1e-3 * max(1.0, np.abs(im).max()) * 0.1
                if np.issubdtype(q.dtype, np.integer):
                    tol = tol + 1.0
                ok = np.abs(g - exp) <= tol
            ctx.check(bool(ok.all()), lambda: "{}: channel {} pixel {} is {} but the model gives {}".format(
                what, k, np.unravel_index(int(np.argmin(ok)), ok.shape),
                g[np.unravel_index(int(np.argmin(ok)), ok.shape)], exp[np.unravel_index(int(np.argmin(ok)), ok.shape)]))

    def run(self, g, ctx):
        h, w = g["s"]
        R = 0.5 * np.hypot(h, w)
        if g["k"] == "b":
            return self.border(g, ctx)
        pad = PADS[g["p"]]
        if g["k"] == "u":
            a0 = [make(k, h, w, g["ch"], g["dt"]) for k in ("rx", "ry", "smooth")]
            cs, pm, method = g["cs"], "constant", None
            fx, fy = g["f"]
        else:
            a0 = [make("smooth", h, w, 3, "float32"), make("rx", h, w, 0, "uint8")]
            cs, pm = ["five", "grow"], g["pm"]
            method = {"nearest": cv2.INTER_NEAREST, "linear": cv2.INTER_LINEAR, "cubic": cv2.INTER_CUBIC}[g["m"]]
            fx, fy = 0.44, 0.58
        xc, yc = fx * (w - 1), fy * (h - 1)
        for a in a0:
            for c in cs:
                co = ref.rel_coefs(c, R)
                if pad is True and (c == "five" or not 0 <= fx <= 1):
                    continue
                keep = a.copy()
                if g["k"] == "u":
                    got = ctx.call(util.unwarp_image_backward_cv2, a, xc, yc, co, pad=pad)
                else:
                    got = ctx.call(util.unwarp_image_backward_cv2, a, xc, yc, co, method=method, pad=pad, pad_mode=pm)
                ctx.check(np.array_equal(a, keep), "input modified")
                what = f"{g} {c}"
                if pad is True:
                    other = ctx.call(util.unwarp_color_image_backward, a, xc, yc, co, pad=True, pad_mode=pm)
                    ctx.check(got.shape == other.shape and got.dtype == other.dtype,
                              lambda: f"{what}: shape {got.shape} but the reference path gives {other.shape}")
                    if method is None or method == cv2.INTER_LINEAR:
                        dev = np.abs(got.astype(float) - other.astype(float))
                        tol = 0.2 + 0.002 * max(1.0, float(np.abs(a).max()))
                        if np.issubdtype(a.dtype, np.integer):
                            tol += 1
                        # pad edges have steps as high as the image values
                        steep = 0.04 * ref.local_range(other if other.ndim == 2 else other[:, :, 0],
                                                       *np.mgrid[0:other.shape[0], 0:other.shape[1]])
                        steep = steep if other.ndim == 2 else steep[:, :, None]
                        ctx.check(bool(np.all(dev <= tol + 2 * steep + (0.04 * 2 * float(np.abs(a).max()) if pm == "constant" else 0))),
                                  lambda: f"{what}: deviates by {dev.max()} from the reference path")
                    ctx.outcome(got)
                    continue
                t, b, l, r = (0, 0, 0, 0) if pad is False else ((pad,) * 4 if isinstance(pad, int) else tuple(pad))
                q = np.pad(a, [(t, b), (l, r)] + ([(0, 0)] if a.ndim == 3 else []), mode=pm)
                y, x = ref.backward_coords(q.shape[0], q.shape[1], xc + l, yc + t, co)
                if method == cv2.INTER_CUBIC:
                    exp = cv2.remap(q, x.astype(np.float32), y.astype(np.float32), interpolation=cv2.INTER_CUBIC)
                    dev = np.abs(got.astype(float) - exp.astype(float))
                    ctx.check(got.shape == exp.shape and np.mean(dev > 1.0 + 0.05 * float(q.max())) == 0,
                              lambda: f"{what}: cubic interpolation deviates by {dev.max()}")
                else:
                    self.cmp(ctx, got, q, y, x, method == cv2.INTER_NEAREST, what)
                ctx.outcome(got)
                ctx.interesting(c != "id")

    def border(self, g, ctx):
        h, w = g["s"]
        flag = {"const": cv2.BORDER_CONSTANT, "replicate": cv2.BORDER_REPLICATE, "reflect": cv2.BORDER_REFLECT,
                "wrap": cv2.BORDER_WRAP, "reflect101": cv2.BORDER_REFLECT_101, None: None}[g["b"]]
        meth = {None: None, "nearest": cv2.INTER_NEAREST, "linear": cv2.INTER_LINEAR}[g["m"]]
        np_mode = {"const": "constant", None: "constant", "replicate": "edge", "reflect": "symmetric", "wrap": "wrap",
                   "reflect101": "reflect"}[g["b"]]
        for ch in (0, 3):
            a = make("smooth", h, w, ch, "float32")
            m = 4
            q = np.pad(a, [(m, m), (m, m)] + ([(0, 0)] if ch else []), mode=np_mode)
            for dy, dx in itertools.product((-3, 0, 2), repeat=2):
                yy, xx = np.mgrid[0:h, 0:w].astype(np.float32)
                kw = {}
                if flag is not None:
                    kw["border"] = flag
                if meth is not None:
                    kw["method"] = meth
                got = ctx.call(util.mapping_cv2, a, xx + dx, yy + dy, **kw)
                exp = q[m + dy: m + dy + h, m + dx: m + dx + w]
                ctx.check(got.shape == exp.shape and np.allclose(got, exp, atol=1e-3),
                          lambda: f"{g} shift {(dy, dx)}: border handling differs")
                if g["m"] != "nearest":
                    got = ctx.call(util.mapping_cv2, a, xx + 0.25, yy + 0.5, **kw)
                    e = ref.bilinear(a if ch == 0 else a[:, :, 0], np.minimum(yy + 0.5, h - 1), np.minimum(xx + 0.25, w - 1))
                    gg = got if ch == 0 else got[:, :, 0]
                    ctx.check(np.allclose(gg[:-1, :-1], e[:-1, :-1], atol=0.05), lambda: f"{g}: linear interpolation differs")
                ctx.outcome(got)
