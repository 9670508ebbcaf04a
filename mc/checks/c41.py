import warnings
from mc import ref, scratch, threads
from mc.calls import CALLS
from mc.checks import c40
from mc.checks.c40 import same, freeze

# drawing goes through pyplot, which is documented as not thread-safe
NAMES = [n for n in CALLS if not n.startswith(("save_plot", "save_residual"))]
STEP = {"find_cod_fine": 8, "select_dots_based_ratio": 2, "get_cross_points_hor_lines": 2, "get_cross_points_ver_lines": 2}


class Check:
    PID = "C41"
    TECHNIQUE = "exhaustive exploration of thread schedules of the real code under a controlled scheduler (two threads, preemption at source lines, bounded number of preemptions)"
    RULE = "state = schedule of two threads each making one call; the two results are compared with the results of the calls alone, and the arguments with copies"
    BOUNDS = {"quick": "89 calls; one preemption of the first thread before the first and the last execution of every source line of the package that it runs (every 8th for find_cod_fine, every 2nd for three other long ones): against the same function on other data of the same shape, and against the next function of the catalogue",
              "thorough": "as quick with the first three visits and the last of every line; the same function on data of another shape and on the very same read-only arrays; two preemptions (all pairs of line positions of both threads, each thinned to at most 24) of the same function on other data; all 89 x 89 ordered pairs of functions with a preemption at the first line of every function of the package that the first enters"}
    ASSUMPTIONS = ["preemption happens between source lines of the package, not inside numpy or scipy calls"]
    LIMIT = 900
    BATCH = 1

    def space(self, tier):
        deep = tier == "thorough"
        visits = 3 if deep else 1
        order = sorted(NAMES, key=lambda n: n not in STEP)
        for n in order:
            nxt = NAMES[(NAMES.index(n) + 1) % len(NAMES)]
            for part in range(4 if n in STEP else 1):
                yield {"k": "one", "a": [n, 0], "b": [n, 2], "visits": visits, "part": part}
                yield {"k": "one", "a": [n, 0], "b": [nxt, 1], "visits": visits, "part": part}
            if deep:
                yield {"k": "one", "a": [n, 0], "b": [n, 1], "visits": 1}
                yield {"k": "one", "a": [n, 1], "b": [n, 1], "visits": 1, "shared": True}
                yield {"k": "two", "a": [n, 0], "b": [n, 2]}
                yield {"k": "cross", "a": [n, 2]}

    def call(self, nv, d):
        f, b = CALLS[nv[0]]
        a, k = b(nv[1], d)
        return a, k, (lambda: f(*a, **k))

    def expected(self, nv, ctx):
        with scratch.folder() as d:
            _, _, f = self.call(nv, d)
            r, seq = threads.record(f)
            ctx.calls += 1
            return freeze(r), seq

    def schedule(self, ctx, a, b, cuts, ea, eb, shared=False, patience=4.0):
        with scratch.folder() as d1, scratch.folder() as d2:
            a1, k1, f1 = self.call(a, d1)
            if shared:
                a2, k2, f2 = a1, k1, f1
            else:
                a2, k2, f2 = self.call(b, d2)
            c1, c2 = freeze((a1, k1)), freeze((a2, k2))
            out, info = threads.run([f1, f2], cuts, patience)
            ctx.calls += 2
            for me, (o, e, w) in enumerate(zip(out, (ea, eb), (a, b))):
                ctx.check(o[0] == "ok", lambda: f"thread {me} ({w[0]}, data {w[1]}) preempted at {cuts}: {o[1]}")
                ctx.check(same(o[1], e, 1e-7), lambda: f"thread {me} ({w[0]}, data {w[1]}), with {(b, a)[me][0]} running in the other thread and preemptions at events {cuts}: the result is not that of the call alone")
            ctx.check(same((a1, k1), c1) and same((a2, k2), c2), lambda: f"{a} and {b}: arguments changed with preemptions at {cuts}")
        return info

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        getattr(self, "do_" + g["k"])(g, ctx)

    def do_one(self, g, ctx):
        ea, seq = self.expected(g["a"], ctx)
        eb, _ = self.expected(g["b"], ctx)
        pts = threads.points(seq, g["visits"])[::STEP.get(g["a"][0], 1)]
        if g["a"][0] in STEP and "part" in g:
            pts = pts[g["part"]::4]
        ctx.outcome(f"{g['a'][0]}: {len(pts)} preemption points")
        patience = 4.0
        for k in pts:
            info = self.schedule(ctx, g["a"], g["b"], [[k], []], ea, eb, g.get("shared", False), patience)
            if info["blocked"]:
                patience = 0.3
            if info["switches"]:
                ctx.interesting()

    def do_two(self, g, ctx):
        if g["a"][0] in STEP:
            return
        ea, sa = self.expected(g["a"], ctx)
        eb, sb = self.expected(g["b"], ctx)
        pa, pb = threads.points(sa, 1), threads.points(sb, 1)
        pa, pb = pa[::-(-len(pa) // 24) or 1], pb[::-(-len(pb) // 24) or 1]
        patience = 4.0
        for k in pa:
            for m in pb:
                info = self.schedule(ctx, g["a"], g["b"], [[k], [m]], ea, eb, False, patience)
                if info["blocked"]:
                    patience = 0.3
        ctx.interesting()

    def do_cross(self, g, ctx):
        ea, seq = self.expected(g["a"], ctx)
        # the first line run in each function: a line not preceded by one of the same function
        pts, seen = [], set()
        for i, (fn, ln, name) in enumerate(seq):
            if name not in seen:
                seen.add(name)
                pts.append(i)
        for n in NAMES:
            if n in STEP:
                continue
            eb, _ = self.expected([n, 0], ctx)
            for k in pts:
                self.schedule(ctx, g["a"], [n, 0], [[k], []], ea, eb)
        ctx.interesting()
