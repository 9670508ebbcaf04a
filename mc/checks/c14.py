import itertools
import numpy as np
from mc import ref
from discorpy.post import postprocessing as post

ref.require_repo()
VAL = [0.0, 1.0, 1.0000001, 7.5]


class Check:
    PID = "C14"
    RULE = "state = residual table; verdict compared with exact integer arithmetic on the count of residuals above one pixel"
    BOUNDS = {"quick": "all tables of 1..7 rows over {0, 1, 1+1e-7, 7.5}; all counts m of n for n up to 220",
              "thorough": "all tables of 1..9 rows over {0, 1, 1+1e-7, 7.5}; all counts m of n for n up to 700"}

    def space(self, tier):
        deep = tier == "thorough"
        for n in range(1, 10 if deep else 8):
            for a in itertools.product(range(4), repeat=min(n, 3)):
                yield {"k": "tab", "n": n, "pre": list(a)}
        for n in range(1, 701 if deep else 221):
            yield {"k": "cnt", "n": n}
        for n in (1000, 2000, 10007, 40000):
            yield {"k": "cnt", "n": n}

    def one(self, ctx, res, rad):
        tab = np.column_stack((rad, res))
        got = ctx.call(post.check_distortion, tab)
        m = int(sum(1 for r in res if r > 1.0))
        exp = 100 * m > 15 * len(res)
        ctx.check(bool(got) == exp, lambda: f"{m} of {len(res)} residuals above one pixel: answered {got}; {list(res)[:12]}")
        ctx.interesting(exp)
        return exp

    def run(self, g, ctx):
        n = g["n"]
        if g["k"] == "tab":
            for rest in itertools.product(range(4), repeat=n - len(g["pre"])):
                res = np.asarray([VAL[i] for i in g["pre"]] + [VAL[i] for i in rest])
                self.one(ctx, res, np.linspace(5, 100, n))
            ctx.outcome(g["pre"] + [n])
        else:
            lim = int(0.15 * n)
            ms = range(0, n + 1) if n <= 250 else range(max(0, lim - 6), min(n, lim + 7) + 1)
            for m in ms:
                for hi, lo in ((1.5, 0.5), (1.0000001, 1.0)):
                    res = np.full(n, lo)
                    res[:m] = hi
                    ctx.outcome([n, self.one(ctx, res, np.linspace(0, 10, n))])
                    res2 = np.full(n, lo)
                    if m:
                        res2[(np.arange(m) * 7919) % n if np.gcd(7919, n) == 1 else np.arange(n - m, n)] = hi
                    self.one(ctx, res2, np.linspace(1000, 0, n))
