import itertools
import warnings
import numpy as np
from mc import ref
from discorpy.prep import linepattern as lp

ref.require_repo()
SENS = [0.0, 0.1, 0.37, 0.71, 1.3]


def extrema(v, r, sens):
    """(certain, optional): the last sample with a full neighbourhood is optional."""
    n = len(v)
    r = max(1, min(int(r), n // 4))
    out, opt = [], []
    for i in range(r, n - r):
        win = sorted(v[i - r:i + r + 1])
        top = sum(win[-r:]) / r
        rel = abs((v[i] - top) / top) if top else 0.0
        if v[i] == win[0] and rel > sens:
            (out if i < n - r - 1 else opt).append(i)
    return out, opt


def vertex(a, b, c):
    """Of the parabola through three samples at -1, 0, 1."""
    k = a - 2 * b + c
    return 0.5 * (a - c) / k if k else 0.0


class Check:
    PID = "C31"
    RULE = "state = one profile (all profiles over small alphabets) and setting; positions compared with a brute-force reference, vertices and window slopes with closed forms"
    BOUNDS = {"quick": "all profiles of 4..8 samples over {1,2,3}, 8 over {0,2,5}, 12 over {1,4}: 24k profiles x 2 options x 2 radii x 5 sensitivities; all windows of length 3..6 over 4 levels x 9 sizes x 4 types; 100 smooth profiles; profiles of up to 5000 samples x radii 1..40",
              "thorough": "all profiles of 4..9 samples over {1,2,3}, 4..9 over {0,2,5}, 12..16 over {1,4}: 180k profiles; windows of length 3..7 over 4 levels; 400 smooth profiles"}
    BATCH = 2

    def space(self, tier):
        deep = tier == "thorough"
        fam = [(n, [1, 2, 3]) for n in range(4, 9)] + [(8, [0, 2, 5]), (12, [1, 4]), (6, [1, 2, 3, 7]), (7, [-4, -2, -1]), (6, [-5, -1, 0, 2]), (10, [-3, -1])]
        if deep:
            fam += [(9, [1, 2, 3])] + [(n, [0, 2, 5]) for n in (4, 5, 6, 7, 9)] + [(13, [1, 4]), (16, [0, 3])]
        for n, al in fam:
            t = len(al) ** n
            for a in range(0, t, 512):
                yield {"k": "ext", "n": n, "al": al, "a": a, "b": min(t, a + 512)}
        for n in range(3, 8 if deep else 7):
            for first in range(4):
                yield {"k": "slope", "n": n, "first": first}
        for n in range(400 if deep else 100):
            yield {"k": "smooth", "n": n}
        for n in (100, 300, 600, 1100, 2100, 5000) + ((33000, 70000) if deep else ()):
            for r in (1, 4, 12, 40):
                yield {"k": "long", "n": n, "r": r}
        for first in itertools.product(range(-3, 4), repeat=2):
            yield {"k": "sub", "first": list(first), "m": 5 if deep else 4}

        for w in ((1.0, 1.5, 2.0, 2.5, 3.0) if deep else (1.0, 1.5, 2.0, 3.0)):
            for r in ((7, 9, 11, 13) if deep else (7, 9, 11)):
                for c in (30.0, 30.3, 41.8, 30.5):
                    yield {"k": "peaks", "w": w, "r": r, "c": c}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def do_ext(self, g, ctx):
        al, n = g["al"], g["n"]
        kw = dict(denoise=False, norm=False)
        for m in range(g["a"], g["b"]):
            v = [al[(m // len(al) ** i) % len(al)] for i in range(n)]
            dt = [np.float64, np.float32, np.int64, np.int16, np.uint8 if min(al) >= 0 else np.int8][m % 5]
            arr = np.asarray(v).astype(dt)
            top = max(v)
            for opt, w in (("min", v), ("max", [top - x for x in v])):
                for r in (1, [2, 3, 9][m % 3]):
                    s = SENS[(m + r) % len(SENS)]
                    exp, last = extrema(w, r, s)
                    p = ctx.call(lp.get_local_extrema_points, arr, option=opt, radius=r, sensitive=s, subpixel=False, **kw)
                    got = [int(x) for x in p]
                    ctx.check(got == exp or got == exp + last, lambda: f"{opt} of {v} radius {r} sensitivity {s}: {got} instead of {exp}")
                    q = ctx.call(lp.get_local_extrema_points, arr, option=opt, radius=r, sensitive=s, subpixel=True, **kw)
                    ctx.check(len(q) == len(got), lambda: f"{opt} of {v} radius {r}: {len(q)} sub-pixel positions for {len(got)}")
                    for i, x in zip(got, q):
                        e = i + vertex(*[float(y) for y in w[i - 1:i + 2]])
                        flat = w[i - 1] == w[i] == w[i + 1]
                        ctx.check(abs(x - e) < 1e-6 or (flat and abs(x - i) < 2), lambda: f"{opt} of {v} radius {r}: sub-pixel position {x} instead of {e}")
                    ctx.outcome(got)
                    ctx.interesting(bool(got))
            ctx.check(np.array_equal(arr, np.asarray(v).astype(dt)), "input modified")
        lst = ctx.call(lp.get_local_extrema_points, [float(x) for x in v], radius=1, sensitive=0.1, subpixel=False, **kw)
        e, last = extrema(v, 1, 0.1)
        ctx.check([int(x) for x in lst] in (e, e + last), "a list gives other points")

    def do_long(self, g, ctx):
        """Long profiles, many extrema, wide neighbourhoods."""
        n, r = g["n"], g["r"]
        i = np.arange(n)
        v = [int(x) for x in np.rint(100 + 40 * np.sin(i / 3.7) + 21 * np.sin(i / 1.3 + 1) + (i * 7919) % 13)]
        top = max(v)
        for opt, w in (("min", v), ("max", [top - x for x in v])):
            for s in (0.1, 0.4):
                exp, last = extrema(w, r, s)
                for dt in (np.float64, np.int16):
                    p = ctx.call(lp.get_local_extrema_points, np.asarray(v).astype(dt), option=opt, radius=r, sensitive=s, subpixel=False, denoise=False, norm=False)
                    got = [int(x) for x in p]
                    ctx.check(got == exp or got == exp + last, lambda: f"{opt} of {n} samples radius {r} sensitivity {s}: {len(got)} points instead of {len(exp)}, first difference {sorted(set(got) ^ set(exp))[:3]}")
                    ctx.outcome(got)
                    ctx.interesting(bool(got))

    def do_slope(self, g, ctx):
        n = g["n"]
        for rest in itertools.product((0, 1, 4, 9), repeat=n - 1):
            v = [(0, 1, 4, 9)[g["first"]]] + list(rest)
            k = sum(v)
            size = [1, 2, 3, 4, 5, 6, 7, 8, 30][k % 9]
            s = min(max(size, 3), n)
            s += 1 - s % 2
            h = s // 2
            pad = [v[0]] * h + v + [v[-1]] * h
            den = sum((i - h) ** 2 for i in range(s))
            exp = np.asarray([abs(sum((j - h) * pad[i + j] for j in range(s)) / den) for i in range(n)])
            for dt in (np.float64, np.int64, np.uint8, np.float32):
                arr = np.asarray(v).astype(dt)
                out = ctx.call(lp.sliding_window_slope, arr, size=size, norm=False)
                ctx.check(len(out) == n and np.allclose(out, exp, rtol=1e-9 if dt == np.float64 else 1e-5, atol=1e-9 if dt == np.float64 else 1e-5), lambda: f"slopes of {v} {dt.__name__} size {size}: {np.asarray(out).tolist()} instead of {exp.tolist()}")
            out = ctx.call(lp.sliding_window_slope, v, size=size)
            # (slopes of a constant are rounding noise, normalised or not)
            e2 = exp / max(exp.mean(), 1e-12)
            ctx.check(exp.mean() < 1e-12 or np.allclose(out, e2, atol=1e-4), lambda: f"normalised slopes of {v} size {size}: {np.asarray(out).tolist()} instead of {e2.tolist()}")
            ctx.outcome(np.round(exp, 4))
            ctx.interesting(exp.max() > 0)
        for short in ([], [1.0], [1, 2]):
            ctx.raises(ValueError, lp.sliding_window_slope, short)

    def do_sub(self, g, ctx):
        for n in range(3, g["m"] + 1):
            for rest in itertools.product(range(-3, 4), repeat=n - 2):
                scale = [1.0, 1e-3, 1e4][sum(rest) % 3]
                v = [scale * t for t in g["first"] + list(rest)]
                x = np.arange(n, dtype=float)
                a, b, c = np.polyfit(x, v, 2)
                a, b = a / scale, b / scale
                for opt in ("min", "max"):
                    got = float(ctx.call(lp.locate_subpixel_point, v if n % 2 else np.asarray(v, float), option=opt))
                    right = a > 1e-9 if opt == "min" else a < -1e-9
                    vx = -b / (2 * a) if abs(a) > 1e-9 else -1
                    best = min(v) if opt == "min" else max(v)
                    if right and 1e-9 < vx < n - 1:
                        ctx.check(abs(got - vx) < 1e-6, lambda: f"{opt} of {v}: {got} instead of the vertex {vx}")
                    elif abs(a) > 1e-9 and not right:
                        ctx.check(got == int(got) and v[int(got)] == best, lambda: f"{opt} of {v}: {got} is not the position of the {opt}imum")
                    else:
                        ctx.check(0 <= got < n, lambda: f"{opt} of {v}: {got} out of range")
                    ctx.outcome(round(got, 4))
                ctx.interesting()

    def do_smooth(self, g, ctx):
        """Denoised and normalised profiles of dark or bright lines."""
        n = g["n"]
        per, width = 24 + 3 * (n % 7), 2.0 + 0.5 * (n % 3)
        N = 200 + 13 * (n % 11)
        x = np.arange(N, dtype=float)
        c = np.arange(15.3 + n % 5, N, per)
        lines = sum(np.exp(-((x - k) / width) ** 2 / 2) for k in c)
        amp, base = [0.5, 0.9, 0.3, 0.7][n % 4], [1.0, 200.0, 5e4][n % 3]
        trend = 1 + (0.2 * x / N if n % 2 else 0.0)
        inner = [k for k in c if 14 <= k < N - 15]
        for opt, prof in (("min", base * trend * (1 - amp * lines)), ("max", base * trend * (0.1 + amp * lines))):
            for den in (True, False):
                for norm in (True, False):
                    p = ctx.call(lp.get_local_extrema_points, prof, option=opt, radius=7, sensitive=0.05, denoise=den, norm=norm)
                    what = f"{opt} lines at {np.round(c, 1).tolist()} of {N} denoise={den} norm={norm}"
                    # normalisation by the sorted profile can add or hide extrema
                    ctx.check(np.all(p > 0) and np.all(p < N - 1) and np.all(np.diff(p) > 0), lambda: f"{what}: positions {p}")
                    ctx.check(norm or all(np.abs(c - q).min() < 1.0 for q in p), lambda: f"{what}: found {np.round(p, 2).tolist()}")
                    ctx.check(norm or all(np.abs(p - k).min() < 1.0 for k in inner) if len(p) else not inner, lambda: f"{what}: lines missed, found {np.round(p, 2).tolist()}")
                    if den and not norm and opt == "min":
                        p2 = ctx.call(lp.get_local_extrema_points, 8.0 * prof, option=opt, radius=7, sensitive=0.05, denoise=den, norm=norm)
                        ctx.check(len(p2) == len(p) and np.allclose(p, p2, atol=1e-6), lambda: f"{what}: scaling the profile moves the points")
                    ctx.outcome(np.round(p, 1))
        bump = base * lines
        pk = np.asarray([int(round(k)) for k in inner])
        good = ctx.call(lp.select_good_peaks, bump, pk, radius=9)
        ctx.check([int(v) for v in good] == [int(v) for v in pk], lambda: f"Gaussian peaks {pk.tolist()} selected as {np.asarray(good).tolist()}")
        saw = base * (x % per) / per
        sub = ctx.call(lp.select_good_peaks, saw, pk, radius=9)
        ctx.check(len(sub) == 0, lambda: f"positions {np.asarray(sub).tolist()} of a sawtooth selected as peaks")
        flat = ctx.call(lp.select_good_peaks, np.full(N, 3.0), pk, radius=9)
        ctx.check(len(flat) == 0, "positions of a flat profile selected as peaks")
        ctx.interesting()

    def do_peaks(self, g, ctx):
        """Every shift of a candidate from a Gaussian, with and without a dip beside it."""
        w, r, c = g["w"], g["r"], g["c"]
        N = 80
        x = np.arange(N, dtype=float)
        base = np.exp(-((x - c) / w) ** 2 / 2)
        for amp, off in ((1.0, 0.0), (300.0, 20.0), (-1e-3, 2.0), (5e4, -7.0)):
            bump = amp * base + off
            sel = {}
            for p in range(int(c) - r, int(c) + r + 2):
                d = abs(p - c)
                for kind, arr in (("array", bump), ("smoothed", bump)):
                    kw = {"sigma": 0.5} if kind == "smoothed" else {}
                    ok = len(ctx.call(lp.select_good_peaks, arr, [p], radius=r, **kw))
                    if amp < 0:
                        sel[p] = ok
                        continue
                    if d <= min(3, r // 2 - 1) and (kind == "array" or 3 * w <= r):
                        ctx.check(ok == 1, lambda: f"candidate {p} beside a peak at {c} of width {w} rejected, radius {r} {kind} x {amp} + {off}")
                    if d > r // 2 + 0.01:
                        ctx.check(ok == 0, lambda: f"candidate {p} far from the peak at {c} of width {w} selected, radius {r} {kind} x {amp} + {off}")
                    if kind == "array":
                        sel[p] = ok
            near = [p for p in sel if abs(p - c) <= 3 or abs(p - c) > r // 2 + 1]
            many = ctx.call(lp.select_good_peaks, bump, near, radius=r)
            ctx.check([int(v) for v in many] == [p for p in near if sel[p]], lambda: f"candidates {near} together give {np.asarray(many).tolist()}")
            ctx.outcome([sel[p] for p in near])
            ctx.interesting()
        # a notch beside the peak: an offset of the fit
        p = int(round(c))
        z = len(ctx.call(lp.select_good_peaks, base, [p], radius=r, tol=0.0))
        ctx.check(z == 0, lambda: f"a peak at {c} of width {w}, radius {r}, selected with a tolerance of 0")
        for side in (-1, 1):
            notch = base.copy()
            notch[p + side * 11] -= 1.0
            if w <= 2:
                a = len(ctx.call(lp.select_good_peaks, notch, [p], radius=13))
                b = len(ctx.call(lp.select_good_peaks, notch, [p], radius=13, use_offset=False))
                e = len(ctx.call(lp.select_good_peaks, notch, [p], radius=13, tol=8.0))
                ctx.check((a, b, e) == (0, 1, 1), lambda: f"a peak at {c} of width {w} with a notch on side {side}: {(a, b, e)} selected by default, without the offset, with a wide tolerance")
        # dark lines and an edge, in the profile function
        prof = np.ones(160)
        xx = np.arange(160.0)
        for k in (c, c + 40):
            prof -= 0.6 * np.exp(-((xx - k) / w) ** 2 / 2)
        saw = prof + 0.0
        saw[110:140] -= 0.6 * np.linspace(1, 0, 30)
        rr = max(r, int(3 * w) + 1)
        for opt, y in (("min", saw), ("max", 2.0 - saw)):
            kw = dict(option=opt, radius=rr, sensitive=0.05, denoise=False, norm=False)
            for s in (True, False):
                full = ctx.call(lp.get_local_extrema_points, y, subpixel=s, **kw)
                good = ctx.call(lp.get_local_extrema_points, y, subpixel=s, select_peaks=True, **kw)
                ctx.check(len(full) >= 3 and abs(full[-1] - 110) < 1 and len(good) == len(full) - 1 and np.allclose(good, full[:-1]), lambda: f"{opt} lines at {c}, {c + 40} of width {w} and an edge, radius {rr}: {np.asarray(full).tolist()}, selected {np.asarray(good).tolist()}")
                none = ctx.call(lp.get_local_extrema_points, y, subpixel=s, select_peaks=True, tol=0.0, **kw)
                ctx.check(len(none) == 0, lambda: f"{opt}: selected {np.asarray(none).tolist()} with a tolerance of 0")
