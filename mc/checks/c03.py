import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post
from discorpy.util import utility as util

ref.require_repo()
DT = ["float64", "float32", "int64", "int32", "int16", "uint16", "list"]


class Check:
    PID = "C03"
    RULE = ("state = (point set, dtype, centre, coefficients); every mapped point compared with the closed-form model; "
            "single-point mapping compared with the line mapping in both output orders")
    BOUNDS = {"quick": "all points of a 7x7 integer lattice x 7 types x 25 centres x 16 coefficient families; line structures with 0..4 lines of 1..6 points, and up to 5000 points or 1100 lines; coordinates up to 40000",
              "thorough": "all points of a 13x13 lattice x 7 types x 81 centres x 16 coefficient families at 3 scales; line structures up to 6 lines of 1..9 points"}

    def space(self, tier):
        deep = tier == "thorough"
        cs = np.linspace(-4, 12, 9 if deep else 5)
        for dt in DT:
            for c in ref.ALL:
                for xc, yc in itertools.product(cs, cs):
                    for sc in ([1, 37, 4000] if deep else [1, 4000]):
                        yield {"k": "lattice", "n": 13 if deep else 7, "dt": dt, "c": c, "xc": float(xc * sc),
                               "yc": float(yc * sc), "sc": sc}
        # everything integer: points, centre; also tuples of Python integers
        for dt in ("uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "py"):
            for c in ref.ALL:
                for xc, yc in itertools.product((0, 7, 100, 250), repeat=2):
                    yield {"k": "int", "dt": dt, "c": c, "xc": xc, "yc": yc}
        L = 6 if deep else 4
        for lens in itertools.product(range(1, 6), repeat=2):
            for nl in range(0, L + 1):
                for dt in ("float64", "int64"):
                    yield {"k": "struct", "lens": list(lens), "nl": nl, "dt": dt}

        for m, nl in ((300, 3), (1100, 2), (2100, 1), (5000, 1), (30, 60), (5, 150), (3, 300), (1, 1100)):
            for dt in ("float64", "int64"):
                yield {"k": "struct", "lens": [m, m], "nl": nl, "dt": dt}

    def run(self, g, ctx):
        if g["k"] == "struct":
            lines = []
            for i in range(g["nl"]):
                m = g["lens"][i % 2] + i // 2
                lines.append(np.asarray([[7 * i + j, 11 * j - 3 * i] for j in range(m)]).astype(g["dt"]))
            xc, yc, co = 5.5, 7.25, [1.0, 0.01, -0.002]
            if max(g["lens"]) > 10:
                lines = [l[:max(g["lens"])] for l in lines]
                co = [1.0, 1e-5, -2e-9]
        elif g["k"] == "int":
            big = {"uint8": 20, "int8": 10, "int16": 2000, "uint16": 5000}.get(g["dt"], 20000)
            pts = [[y * big, x * big] for y in (0, 1, 3, 4, 6, 12) for x in (0, 1, 4, 5, 8, 12)]
            if g["dt"] != "py":
                pts = np.asarray(pts).astype(g["dt"])
            xc, yc = g["xc"] * max(1, big // 20), g["yc"] * max(1, big // 20)
            co = ref.rel_coefs(g["c"], 12.0 * big)
            if g["c"] == "barrel":
                co = list(co) + [0.0] * 6
            lines = [pts[:10], pts[10:]]
        else:
            n, sc = g["n"], g["sc"]
            pts = np.asarray([[y * sc, x * sc] for y in range(n) for x in range(n)])
            if g["dt"] != "list":
                if g["dt"] == "int16":
                    pts = np.clip(pts, -30000, 30000)
                pts = pts.astype(g["dt"])
            else:
                pts = pts.astype(float).tolist()
            xc, yc = g["xc"], g["yc"]
            co = ref.rel_coefs(g["c"], 10.0 * sc)
            half = len(pts) // 3
            lines = [pts[:half], pts[half:half + 1], pts[half + 1:]]
        got = ctx.call(post.unwarp_line_forward, lines, xc, yc, co)
        ctx.check(len(got) == len(lines), f"{len(got)} lines returned for {len(lines)}")
        for li, (a, b) in enumerate(zip(lines, got)):
            a = np.asarray(a, dtype=np.float64)
            b = np.asarray(b)
            ctx.check(b.shape == a.shape, f"line {li}: shape {b.shape} for {a.shape}")
            y, x = ref.radial(a[:, 0], a[:, 1], xc, yc, co)
            tol = 1e-4 + 1e-6 * np.max(np.abs(a)) * 3 if g["dt"] == "float32" else 1e-9 * (1 + np.max(np.abs(a)) + abs(xc) + abs(yc))
            ey, ex = np.abs(b[:, 0] - y), np.abs(b[:, 1] - x)
            ctx.check(np.all(ey <= tol) and np.all(ex <= tol), lambda: "line {}: point {} mapped to {} instead of {}".format(
                li, a[int(np.argmax(ey + ex))], b[int(np.argmax(ey + ex))],
                (y[int(np.argmax(ey + ex))], x[int(np.argmax(ey + ex))])))
            ctx.outcome(np.round(b, 3))
            for j in range(0, len(a), 1 if len(a) < 12 else 5):
                p = (lines[li][j][0], lines[li][j][1])
                r1 = ctx.call(util.find_point_to_point, p, xc, yc, co)
                r2 = ctx.call(util.find_point_to_point, p, xc, yc, co, output_order="yx")
                r3 = ctx.call(util.find_point_to_point, p, xc, yc, co, output_order="xy")
                ctx.check(abs(r1[0] - x[j]) <= tol and abs(r1[1] - y[j]) <= tol,
                          lambda: f"point {p}: {r1} instead of {(x[j], y[j])}")
                ctx.check(tuple(r3) == tuple(r1) and abs(r2[0] - y[j]) <= tol and abs(r2[1] - x[j]) <= tol,
                          lambda: f"point {p}: output orders disagree {r1} {r2} {r3}")
                ctx.interesting(abs(x[j] - a[j, 1]) > 0.5)
