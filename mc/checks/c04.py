import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post

ref.require_repo()


class Check:
    PID = "C04"
    RULE = "state = (point set, dtype, centre, monotonic model); the unwarped point is pushed through an independent backward model and must return to the given point"
    BOUNDS = {"quick": "lattices of 36 points at 4 scales x 5 centres x 13 models x 3 types",
              "thorough": "lattices of 100 points at 6 scales x 9 centres x 13 models x 4 types"}

    def space(self, tier):
        deep = tier == "thorough"
        frac = [(0.5, 0.5), (0.2, 0.7), (0.0, 0.0), (0.8, 1.1), (0.6, 0.4)]
        if deep:
            frac += [(0.33, 0.1), (1.0, 0.0), (0.5, 0.9), (-0.2, 0.5)]
        for sc in ([10, 100, 700, 2500] if not deep else [4, 10, 100, 400, 1100, 2500]):
            for f in frac:
                for c in ref.MONO:
                    for dt in (["float64", "int64", "float32"] if not deep else ["float64", "float32", "int64", "int32"]):
                        yield {"sc": sc, "f": list(f), "c": c, "dt": dt, "n": 10 if deep else 6}
                    for dt in ("int16", "uint16", "int32") + (("uint8",) if sc <= 100 else ()):
                        yield {"sc": sc, "f": list(f), "c": c, "dt": dt, "n": 4, "ic": 1}

        for c in ("pin", "fivep") if not deep else ref.MONO:
            for n in (12, 18, 24) + ((34, 46) if deep else ()):
                yield {"sc": 700, "f": [0.52, 0.46], "c": c, "dt": "float64", "n": n}
            for n in (12, 18) + ((34,) if deep else ()):
                yield {"sc": 700, "f": [0.52, 0.46], "c": c, "dt": "float64", "n": n, "lines": 1}

    def run(self, g, ctx):
        n, sc = g["n"], g["sc"]
        h, w = sc, int(sc * 1.3)
        xc, yc = round(g["f"][0] * w, 2), round(g["f"][1] * h, 2)
        if g.get("ic"):
            xc, yc = int(xc), int(yc)
        R = np.hypot(h, w)
        co = ref.rel_coefs(g["c"], R)
        if not ref.is_monotonic(co, 2.2 * R):
            return
        pts = np.asarray([[y * (h - 1.0) / (n - 1), x * (w - 1.0) / (n - 1)] for y in range(n) for x in range(n)])
        if g["dt"] != "float64":
            pts = (np.rint(pts) if "int" in g["dt"] else pts).astype(g["dt"])
        lines = [pts[:n], pts[n:n + 1], pts[n + 1:], np.asarray([[yc, xc]])]
        if g.get("lines"):
            lines = [pts[i:i + 1] for i in range(len(pts))] + lines[-1:]
        got = ctx.call(post.unwarp_line_backward, lines, xc, yc, co)
        ctx.check(len(got) == len(lines), "number of lines changed")
        c = got[-1][0]
        ctx.check(abs(c[0] - yc) < 1e-2 and abs(c[1] - xc) < 1e-2, lambda: f"the centre point moved to {c} from {(yc, xc)}")
        for li, (a, b) in enumerate(zip(lines, got)):
            a = np.asarray(a, dtype=np.float64)
            b = np.asarray(b, dtype=np.float64)
            ctx.check(a.shape == b.shape, f"line {li}: shape changed")
            y, x = ref.radial(b[:, 0], b[:, 1], xc, yc, co)
            err = np.hypot(y - a[:, 0], x - a[:, 1])
            ctx.check(bool(np.max(err) < 1e-2), lambda: "point {} unwarped to {}: the backward model takes it to {}".format(
                a[int(np.argmax(err))], b[int(np.argmax(err))], (y[int(np.argmax(err))], x[int(np.argmax(err))])))
            da = a - [yc, xc]
            db = b - [yc, xc]
            cr = np.abs(da[:, 0] * db[:, 1] - da[:, 1] * db[:, 0])
            dot = da[:, 0] * db[:, 0] + da[:, 1] * db[:, 1]
            nr = np.hypot(da[:, 0], da[:, 1])
            ctx.check(bool(np.all(cr <= 1e-2 * nr + 1e-6)) and bool(np.all((dot > 0) | (nr < 1.0))),
                      lambda: f"line {li}: an unwarped point left its ray")
            ctx.outcome(np.round(b, 2))
            ctx.interesting(bool(np.max(np.abs(b - a)) > 0.5))
