import functools
import itertools
import os
import warnings
from pathlib import Path
import h5py
import numpy as np
import matplotlib.pyplot as plt
from PIL import Image
from mc import ref, scratch
from discorpy.losa import loadersaver as losa

ref.require_repo()
FILES = ["tif", "hdf", "stream", "txt", "json", "pkl"]
PLOTS = ["lines", "points", "residual"]
EXT = {"tif": ".tif", "png": ".png", "hdf": ".hdf", "stream": ".hdf", "txt": ".txt", "json": ".json", "pkl": ".pkl",
       "lines": ".png", "points": ".png", "residual": ".png"}
LOAD = {"tif": ".tif", "png": ".png"}


def data(kind, k):
    if kind in ("tif", "hdf", "stream"):
        return np.arange(12, dtype=np.float32).reshape(3, 4) * 0.5 + k
    if kind == "png":
        return (np.arange(12).reshape(3, 4) + 10 * k).astype(np.uint8)
    if kind in ("txt", "json"):
        return (1.25 + k, 2.5 * k, [1.0, 0.125 * k, -3.0])
    if kind == "pkl":
        return [k, [k, "x"], 0.1 * k]
    if kind == "points":
        return np.array([[5.0 + k % 4, 7.0], [20.0, 11.0 + k % 5]])
    if kind == "lines":
        return [np.array([[5.0 + k % 4, 7.0], [20.0, 11.0 + k % 5]])]
    return np.array([[1.0, 0.5 * k], [2.0, 1.0], [3.0, -1.0 * k]])


def bad_data(kind):
    """Data that cannot be saved."""
    if kind in ("tif", "png"):
        return np.zeros((3, 4), np.complex64)
    if kind == "hdf":
        return [object(), {}]
    if kind in ("txt",):
        return (1.0, 2.0, 7)
    if kind == "json":
        return (1.0, 2.0, [1.0, {1, 2}])
    if kind == "pkl":
        return [1, lambda: 0]
    return 7


class Broken(OSError):
    pass


def no(*a, **k):
    raise Broken("no space left on device")


def save(kind, path, val, ow):
    """Returns the path of the file written; ow None: the default."""
    kw = {} if ow is None else {"overwrite": ow}
    if kind in ("tif", "png"):
        return losa.save_image(path, val, **kw)
    if kind == "hdf":
        return losa.save_hdf_file(path, val, **kw)
    if kind == "stream":
        s = losa.open_hdf_stream(path, val.shape, **kw)
        try:
            s[:] = val
            p = s.file.filename
        finally:
            s.file.close()
        return p
    if kind == "txt":
        return losa.save_metadata_txt(path, *val, **kw)
    if kind == "json":
        return losa.save_metadata_json(path, *val, **kw)
    if kind == "pkl":
        return losa.save_python_list(path, val, **kw)
    f = {"lines": losa.save_plot_image, "points": losa.save_plot_points, "residual": losa.save_residual_plot}[kind]
    return f(path, val, 40, 60, **kw, dpi=20)


@functools.lru_cache(maxsize=None)
def plot_reference(kind, k):
    with scratch.folder() as d:
        p = save(kind, os.path.join(d, "r.png"), data(kind, k), True)
        with open(p, "rb") as f:
            return f.read()


def holds(kind, path, k):
    v = data(kind, k)
    if kind in PLOTS:
        with open(path, "rb") as f:
            return f.read() == plot_reference(kind, k)
    if kind in ("tif", "png"):
        return np.array_equal(np.array(Image.open(path)), v)
    if kind in ("hdf", "stream"):
        with h5py.File(path, "r") as f:
            return np.array_equal(f["entry/data"][()], v)
    if kind == "txt":
        return tuple(losa.load_metadata_txt(path)) == v
    if kind == "json":
        return tuple(losa.load_metadata_json(path)) == v
    return losa.load_python_list(path) == v


class Check:
    PID = "C36"
    RULE = "state = history of save operations (saver, name, overwrite on/off, failing or not) from a folder with given files; after every step all files of the folder are compared byte for byte with the model of the folder"
    BOUNDS = {"quick": "all histories of depth 3 over 6 file savers x 2 names x 2 overwrite settings (13824); all of depth 2 over all 10 savers x 2 names x 2 settings (1600); 9 savers x 9 initial folders x depth-3 same-name histories; failing data and failing disk for every saver at every position of depth-3 histories",
              "thorough": "all histories of depth 4 over the hdf/stream/txt/tif savers x 2 names x 2 settings; depth 3 over all 10 savers x 2 names x 2 settings (64000); same initial folders with depth 4"}
    BATCH = 4

    def space(self, tier):
        deep = tier == "thorough"
        ops = [(s, n, o) for s in FILES for n in ("a", "b") for o in (0, 1)]
        allops = [(s, n, o) for s in FILES + ["png"] + PLOTS for n in ("a", "b") for o in (0, 1)]
        # a state holds a first operation; all continuations are explored below it
        if deep:
            few = [o for o in ops if o[0] in ("hdf", "stream", "txt", "tif")]
            for a, b in itertools.product(few, repeat=2):
                yield {"k": "hist", "pre": [a, b], "ops": [list(o) for o in few], "n": 2}
            for a, b in itertools.product(allops, repeat=2):
                yield {"k": "hist", "pre": [a, b], "ops": [list(o) for o in allops], "n": 1}
        else:
            for a, b in itertools.product(ops, repeat=2):
                yield {"k": "hist", "pre": [a, b], "ops": [list(o) for o in ops], "n": 1}
            for a in allops:
                yield {"k": "hist", "pre": [a], "ops": [list(o) for o in allops], "n": 1}
        for s in FILES + ["png"] + PLOTS:
            for i in range(len(self.initial("x"))):
                yield {"k": "init", "s": s, "i": i, "n": 4 if deep else 3}
            for many in ((101, 10002) if s not in PLOTS else (101,)):
                yield {"k": "many", "s": s, "n": many}
            for mode in ("data", "disk"):
                yield {"k": "fault", "s": s, "mode": mode, "n": 4 if deep else 3}
            yield {"k": "rel", "s": s}

    def initial(self, e):
        return [["a" + e], ["a" + e, "a_0000" + e], ["a" + e, "a_0001" + e], ["a" + e, "a_0000" + e, "a_0001" + e, "a_0003" + e],
                ["a_0000" + e], ["a" + e] + [f"a_{i:04d}{e}" for i in range(12)], ["a" + e + "/", "a_0000" + e + "/"], ["a/", "a" + e],
                ["a" + e, "A" + e, "a.bak", "a", "other.dat"]]

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        try:
            getattr(self, "do_" + g["k"])(g, ctx)
        finally:
            plt.close("all")

    def step(self, ctx, d, state, op, k, what, name=None, fault=None, conv=str):
        """One transition; returns the new state of the folder."""
        kind, base, ow = op
        path = os.path.join(d, base) if name is None else name
        target = base if Path(base).suffix else base + EXT[kind]
        if kind in ("tif", "png") and not Path(path).suffix:
            path += EXT[kind]
        val = data(kind, k) if fault != "data" else bad_data(kind)
        saved = {}
        if fault == "disk":
            saved = {"H": losa.h5py.File, "I": Image.Image.save, "P": plt.savefig}
            losa.h5py.File, Image.Image.save, plt.savefig, losa.open = no, no, no, no
        try:
            p = ctx.call(save, kind, conv(path), val, None if ow == 2 else bool(ow))
            err = None
        except Exception as e:
            p, err = None, type(e)
            if fault is None and (state.get(target, b"") is not None or not ow):
                ctx.fail(f"{what}: saving raised {type(e).__name__}: {e}")
        finally:
            if saved:
                losa.h5py.File, Image.Image.save, plt.savefig = saved["H"], saved["I"], saved["P"]
                if "open" in vars(losa):
                    del losa.open
        new = scratch.snapshot(d)
        for n, c in state.items():
            if ow and n == target:
                continue
            ctx.check(n in new and new[n] == c, lambda: f"{what}: the file {n} was {'removed' if n not in new else 'changed'}")
        fresh = [n for n in new if n not in state]
        if err is None and fault is None:
            ctx.check(os.path.isfile(str(p)), lambda: f"{what}: returned {p}, which does not exist")
            rel = os.path.relpath(os.path.realpath(str(p)), d)
            if ow or target not in state:
                ctx.check(rel == target, lambda: f"{what}: saved as {rel} instead of {target}")
                ctx.check(fresh == [n for n in [target] if n not in state], lambda: f"{what}: new files {fresh}")
            else:
                ctx.check(rel not in state, lambda: f"{what}: returned the existing path {rel}")
                ctx.check(fresh == [rel], lambda: f"{what}: new files {fresh}, returned {rel}")
                ctx.check(Path(rel).suffix == Path(target).suffix and Path(rel).parent == Path(target).parent, lambda: f"{what}: saved as {rel} for {target}")
            ctx.check(holds(kind, os.path.join(d, rel), k), lambda: f"{what}: {rel} does not hold the new data")
        elif fault is not None:
            ctx.check(len(fresh) <= 1, lambda: f"{what}: failing save left {fresh}")
        ctx.outcome((sorted(new), kind, ow, fault))
        return new

    def do_hist(self, g, ctx):
        for tail in itertools.product(g["ops"], repeat=g["n"]):
            hist = [tuple(o) for o in g["pre"]] + [tuple(o) for o in tail]
            with scratch.folder() as d:
                st = {}
                for k, op in enumerate(hist):
                    st = self.step(ctx, d, st, op, k, f"history {hist[:k + 1]}")
            ctx.interesting(len(st) > 1)

    def fill(self, d, names):
        for i, n in enumerate(names):
            p = os.path.join(d, n)
            if n.endswith("/"):
                os.makedirs(p, exist_ok=True)
                with open(os.path.join(p, "inside"), "wb") as f:
                    f.write(b"inside %d" % i)
            elif not os.path.isdir(p):
                with open(p, "wb") as f:
                    f.write(b"existing %d" % i)
        return scratch.snapshot(d)

    def do_init(self, g, ctx):
        s = g["s"]
        names = self.initial(EXT[s])[g["i"]]
        # 2: overwrite not given, which means overwriting
        for seq in itertools.chain(itertools.product((0, 1), repeat=g["n"]), itertools.product((0, 2), repeat=2)):
            with scratch.folder() as d:
                st = self.fill(d, names)
                for k, ow in enumerate(seq):
                    if ow and st.get("a" + EXT[s], b"") is None:
                        continue            # a folder cannot be overwritten
                    st = self.step(ctx, d, st, (s, "a", ow), k, f"{s} from {names}: overwrite {seq[:k + 1]}")
        ctx.interesting()

    def do_many(self, g, ctx):
        """More versions than two or four digits can number."""
        s, e = g["s"], EXT[g["s"]]
        names = ["a" + e] + [f"a_{i:04d}{e}" for i in range(g["n"])]
        with scratch.folder() as d:
            st = self.fill(d, names)
            for k, ow in enumerate((0, 0, 1)):
                st = self.step(ctx, d, st, (s, "a", ow), k, f"{s} with {g['n']} earlier versions, save {k}")
        ctx.interesting()

    def do_fault(self, g, ctx):
        s = g["s"]
        if g["mode"] == "data" and s == "stream":
            return
        for seq in itertools.product((0, 1), repeat=g["n"]):
            for bad in range(g["n"]):
                with scratch.folder() as d:
                    st = self.fill(d, ["a" + EXT[s], "b" + EXT[s]])
                    for k, ow in enumerate(seq):
                        st = self.step(ctx, d, st, (s, "a", ow), k, f"{s}: overwrite {seq[:k + 1]}, failing {g['mode']} at step {bad}",
                                       fault=g["mode"] if k == bad else None)
        ctx.interesting()

    def do_rel(self, g, ctx):
        """Relative paths, Path objects, missing folders, symbolic links."""
        s = g["s"]
        e = EXT[s]
        old = os.getcwd()
        for conv in (str, Path):
            for sub in ("", "new", os.path.join("v1.2", "deep")):
                for seq in itertools.product((0, 1), repeat=3):
                    with scratch.folder() as d:
                        os.chdir(d)
                        try:
                            st = self.fill(d, ["z" + e])
                            if sub:
                                os.makedirs(os.path.join(d, sub)) if seq[0] else None
                                st = scratch.snapshot(d)
                            for k, ow in enumerate(seq):
                                full = os.path.join(sub, "a" + e)
                                if sub and not os.path.isdir(sub):
                                    os.makedirs(sub)     # folders are not files: keep the model simple
                                    st = scratch.snapshot(d)
                                st = self.step(ctx, d, st, (s, full, ow), k, f"{s} relative {full} {seq[:k + 1]}", name=full, conv=conv)
                        finally:
                            os.chdir(old)
        # an existing link: the file it names must stay as it is
        with scratch.folder() as d:
            st = self.fill(d, ["t/", "z" + e])
            os.symlink(os.path.join(d, "z" + e), os.path.join(d, "a" + e))
            st = scratch.snapshot(d)
            p = ctx.call(save, s, os.path.join(d, "a" + e), data(s, 1), False)
            new = scratch.snapshot(d)
            for n, c in st.items():
                ctx.check(new.get(n, 0) == c, f"{s}: {n} changed through a link")
            ctx.check(holds(s, str(p), 1), f"{s}: {p} does not hold the data")
        ctx.interesting()
