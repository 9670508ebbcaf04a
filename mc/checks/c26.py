import itertools
import warnings
import numpy as np
from mc import ref
from discorpy.prep import preprocessing as prep

ref.require_repo()
HOR, VER = prep.remove_residual_dots_hor, prep.remove_residual_dots_ver


def errors(l, slope):
    x, y = l[:, 1], l[:, 0]
    s = max(np.ptp(x), 1e-9)
    u = (x - x.mean()) / s
    A = np.column_stack((u * u, u, np.ones_like(u)))
    c = np.linalg.lstsq(A, y, rcond=None)[0]
    return np.abs(A @ c - y) / np.sqrt(1 + slope * slope)


class Check:
    PID = "C26"
    RULE = "state = (list of curved lines with displaced dots, slope, limit); kept dots compared with an independent least-squares parabola; vertical = transposed horizontal"
    BOUNDS = {"quick": "lines of 4..9 dots, every one or two displaced dots x 5 displacements x 3 curvatures x 4 slopes x 5 limits x 2 positions in the frame, in lists of 3 lines; 6 layouts up to 1100 dots or 150 lines",
              "thorough": "lines of 3..13 dots, every one, two or three displaced dots x 7 displacements x 5 curvatures x 7 slopes x 8 limits"}

    def space(self, tier):
        deep = tier == "thorough"
        for n in range(3 if deep else 4, 14 if deep else 10):
            for k in (1, 2, 3) if deep and n < 11 else (1, 2):
                for cur in [0.0, 0.01, -0.004] + ([0.05, -0.02] if deep else []):
                    for s in [0.0, 0.2, -0.4, 1.0] + ([3.0, -0.05, 0.6] if deep else []):
                        yield {"n": n, "k": k, "c": cur, "s": s, "deep": deep, "off": 0.0}
                        if k == 1:
                            yield {"n": n, "k": k, "c": cur, "s": s, "deep": deep, "off": 9000.0}

        for n, nl in ((70, 3), (150, 2), (300, 2), (1100, 1), (9, 60), (6, 150)):
            yield {"long": n, "nl": nl}

    def long(self, g, ctx):
        n, nl = g["long"], g["nl"]
        x = 13.0 * np.arange(n) + 5
        for s, r in ((0.0, 2.5), (0.2, 1.2)):
            lines = []
            for k in range(nl):
                y = 40 + 50 * k + s * x + 1e-5 * (x - x.mean()) ** 2 * (1 + k % 3) + np.asarray([0.3, -0.4, 0.2, 0.0, -0.1])[(np.arange(n) + k) % 5]
                y[(k * 7 + 3) % n] += 9.0
                y[-2] -= 8.0
                lines.append(np.column_stack((y, x)))
            err = [errors(l, s) for l in lines]
            if any(np.abs(e - r).min() < 1e-6 for e in err):
                continue
            exp = [l[e < r] for l, e in zip(lines, err)]
            exp = [l for l in exp if len(l)]
            if not exp:
                continue
            out = ctx.call(HOR, lines, s, residual=r)
            ctx.check(len(out) == len(exp) and all(np.array_equal(o, e) for o, e in zip(out, exp)), lambda: f"{g} slope {s} limit {r}: kept {[len(o) for o in out][:9]} instead of {[len(e) for e in exp][:9]}")
            o2 = ctx.call(VER, [l[:, ::-1] for l in lines], s, residual=r)
            ctx.check(len(o2) == len(exp) and all(np.array_equal(np.asarray(o)[:, ::-1], e) for o, e in zip(o2, exp)), lambda: f"{g} slope {s} limit {r}: vertical version differs")
            ctx.outcome([len(o) for o in out])
            ctx.interesting()

    def run(self, g, ctx):
        if "long" in g:
            return self.long(g, ctx)
        warnings.simplefilter("ignore")
        n = g["n"]
        limits = [0.2, 0.7, 1.5, 2.5, 6.0] + ([1e-9, 0.05, 30.0] if g["deep"] else [])
        amps = [0.5, -2.0, 4.0, 8.0, -15.0] + ([1.2, -0.8] if g["deep"] else [])
        x = 13.0 * np.arange(n) + 5 + g["off"]
        base = 40 + g["s"] * x + g["c"] * (x - x.mean()) ** 2
        for pos in itertools.combinations(range(n), g["k"]):
            for a in amps:
                l1 = np.column_stack((base, x))
                for q, p in enumerate(pos):
                    l1[p, 0] += a * (1 - 0.7 * q)
                l2 = l1.copy()
                l2[:, 0] = base + 60 + 0.3 * np.sin(3.0 * np.arange(n))
                l3 = l1[::-1] + [150.0, 3.0]
                lines = [l1, l2, l3]
                for r in limits:
                    err = [errors(l, g["s"]) for l in lines]
                    if any(np.abs(e - r).min() < 1e-6 for e in err):
                        continue
                    exp = [l[e < r] for l, e in zip(lines, err)]
                    exp = [l for l in exp if len(l)]
                    kp = [l.copy() for l in lines]
                    tr = [l[:, ::-1] for l in lines]
                    if not exp:
                        ctx.raises(ValueError, HOR, lines, g["s"], residual=r)
                        ctx.raises(ValueError, VER, tr, g["s"], residual=r)
                        continue
                    out = ctx.call(HOR, lines, g["s"], residual=r)
                    ctx.check(len(out) == len(exp) and all(np.array_equal(o, e) for o, e in zip(out, exp)), lambda: f"{g} {pos} {a} limit {r}: kept {[len(o) for o in out]} dots, expected {[len(e) for e in exp]}")
                    o2 = ctx.call(VER, tr, g["s"], residual=r)
                    ctx.check(len(o2) == len(exp) and all(np.array_equal(np.asarray(o)[:, ::-1], e) for o, e in zip(o2, exp)), lambda: f"{g} {pos} {a} limit {r}: vertical version differs")
                    ctx.check(all(np.array_equal(p, q) for p, q in zip(lines, kp)), "input modified")
                    ctx.outcome([len(o) for o in out])
                    ctx.interesting(len(np.concatenate(exp)) < 3 * n)
        # lines that lose every dot are dropped, the others stay
        bad = np.column_stack((np.where(np.arange(n) % 2, 300.0, -300.0), x))
        if errors(bad, g["s"]).min() > 3:
            good = np.column_stack((base, x))
            for lines, m in (([bad, good], 1), ([good, bad, good + 80], 2), ([bad, bad], 0)):
                for f, L in ((HOR, lines), (VER, [l[:, ::-1] for l in lines])):
                    if m:
                        ctx.check(len(ctx.call(f, L, g["s"], residual=2.5)) == m, "empty lines not dropped")
                    else:
                        ctx.raises(ValueError, f, L, g["s"], residual=2.5)
