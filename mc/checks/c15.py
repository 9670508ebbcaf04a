import itertools
import numpy as np
from mc import ref
from discorpy.proc import processing as proc

ref.require_repo()

# relative coefficients (value at the rim) of every order
A1 = (-0.08, 0.0, 0.05)
A2 = (-0.1, -0.03, 0.0, 0.06)
A3 = (-0.03, 0.0, 0.04)
A4 = (-0.04, 0.0, 0.02)
A0 = (0.9, 1.0, 1.15)


def layouts(R):
    r = R / np.sqrt(2)
    n = np.linspace(-r, r, 21)
    sq = [[float(a), float(b)] for a in n for b in n]
    wide = [[float(a), float(b)] for a in np.linspace(-0.2 * R, 0.2 * R, 9) for b in np.linspace(-0.95 * R, 0.95 * R, 31)]
    tall = [p[::-1] for p in wide]
    quart = [[int(a), int(b)] for a in np.linspace(0, r, 15) for b in np.linspace(0, r, 15)]
    ray = [[0.0, float(b)] for b in np.linspace(0.05 * R, R, 40)]
    many = [[float(a), float(b)] for a in np.linspace(0, 0.98 * R, 120) for b in np.linspace(0, 0.1 * R, 100)]
    return {"many": many, "sq": sq, "wide": wide, "tall": tall, "int": quart, "ray": ray, "rev": sq[::-1],
            "tuple": [tuple(p) for p in sq], "array": np.asarray(sq), "off": [p for p in sq if p[0] > 0.1 * R]}


class Check:
    PID = "C15"
    RULE = "state = (model, number of coefficients, direction, reference points); the converted model is composed with the given one at every reference radius and compared with an independent scaled least-squares inverse"
    BOUNDS = {"quick": "all models with up to 5 coefficients on a coefficient grid (432 five-term models) x 2 directions x {default, user} reference points; 9 point layouts for 54 models; 12000 points in scan order for 9 models; all point counts below and at the limit",
              "thorough": "as quick with all 9 layouts and 4 field sizes for all 432 models"}

    def space(self, tier):
        deep = tier == "thorough"
        full = list(itertools.product(A0, A1, A2, A3, A4))
        for m in full:
            yield {"k": "m", "a": list(m), "R": 1414.3, "lay": None}
            for R in ((1414.3, 300.0, 60.0, 5000.0) if deep else (300.0,)):
                for lay in (["sq", "wide", "tall", "int", "ray", "rev", "tuple", "array", "off"] if deep else ["sq"]):
                    yield {"k": "m", "a": list(m), "R": R, "lay": lay}
        if not deep:
            for m in full[::8]:
                for lay in ["wide", "tall", "int", "ray", "rev", "tuple", "array", "off"]:
                    yield {"k": "m", "a": list(m), "R": 700.0, "lay": lay}
        for m in full[::48]:
            yield {"k": "m", "a": list(m), "R": 900.0, "lay": "many"}
        for n in range(1, 7):
            for p in range(0, 8):
                for d in ("backward", "forward"):
                    yield {"k": "n", "n": n, "p": p, "d": d}

    def run(self, g, ctx):
        if g["k"] == "n":
            co = [1.0, 1e-4, -2e-7, 1e-10, -1e-13, 1e-17][:g["n"]]
            pts = [[10.0 + 35 * i, 20.0 + 17 * i] for i in range(g["p"])]
            if g["p"] < g["n"]:
                ctx.raises(ValueError, proc.transform_coef_backward_and_forward, co, mapping=g["d"], ref_points=pts)
            else:
                got = ctx.call(proc.transform_coef_backward_and_forward, co, mapping=g["d"], ref_points=pts)
                ctx.check(len(got) == g["n"], "number of coefficients changed")
            ctx.outcome((g["n"], g["p"]))
            return
        R = g["R"]
        for n in range(1, 6):
            co = [a / R ** i for i, a in enumerate(g["a"])][:n]
            if not ref.is_monotonic(co, R):
                continue
            if g["lay"] is None:
                pts = [[i, j] for i in range(-1000, 1000, 50) for j in range(-1000, 1000, 50)]
                kw = {}
            else:
                pts = layouts(R)[g["lay"]]
                kw = {"ref_points": pts}
            r = np.asarray([np.hypot(float(p[0]), float(p[1])) for p in pts])
            f = ref.F(r, co)
            ru = r * f
            S = ru.max()
            A = np.vander(ru / S, n, increasing=True)
            best = np.linalg.lstsq(A, 1.0 / f, rcond=None)[0]
            e0 = np.abs(A @ best * ru - r).max()
            res = []
            for d in ("backward", "forward"):
                arg = co if n % 2 else np.asarray(co)
                keep = list(arg)
                got = ctx.call(proc.transform_coef_backward_and_forward, arg, mapping=d, **kw)
                ctx.check(list(arg) == keep, "the given coefficients were modified")
                ctx.check(len(got) == n, lambda: f"{len(got)} coefficients instead of {n}")
                e = np.abs(ref.F(ru, got) * ru - r).max()
                ctx.check(e <= 1.5 * e0 + 2e-6 * R,
                          lambda: f"model {co} ({d}, {g['lay']}): converted model is off by {e} pixels at radius up to {R} (best inverse: {e0})")
                res.append(np.asarray(got))
            df = ctx.call(proc.transform_coef_backward_and_forward, co, **kw)
            ctx.check(np.allclose(df, res[0], rtol=1e-6), "the default direction is not backward")
            # converting back returns to the original map
            pb = [(0.0, float(v)) for v in ru]
            back = ctx.call(proc.transform_coef_backward_and_forward, res[0], mapping="forward", ref_points=pb)
            e = np.abs(ref.F(r, back) * r - ru).max()
            ctx.check(e <= 6 * e0 + 0.005 * R / 1000 + 2e-3, lambda: f"model {co}: there and back moves points by {e} (one way {e0})")
            ctx.outcome(np.round(res[0] * np.asarray([R ** i for i in range(n)]), 5))
            ctx.interesting(n > 1)
