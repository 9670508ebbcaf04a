import contextlib
import itertools
import os
import platform
import sys
import warnings
from pathlib import Path
import h5py
import numpy as np
import matplotlib.pyplot as plt
from PIL import Image
from mc import ref, scratch
from discorpy.losa import loadersaver as losa

ref.require_repo()
ARR = np.arange(12, dtype=np.float32).reshape(3, 4) + 0.5
# names whose first letter makes an escape sequence after a backslash
ESC = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", "0": "\0"}
SAVERS = ["tif", "hdf", "stream", "txt", "json", "pkl", "points", "lines", "residual"]
EXT = dict(tif=".tif", hdf=".hdf", stream=".h5", txt=".txt", json=".json", pkl=".pkl", points=".png", lines=".png", residual=".jpg")


@contextlib.contextmanager
def on(system):
    """The code under test sees this platform."""
    keep = platform.system, sys.platform
    platform.system = lambda: system
    sys.platform = {"Windows": "win32", "Darwin": "darwin", "Linux": "linux"}[system]
    try:
        yield
    finally:
        platform.system, sys.platform = keep


def save(kind, p):
    if kind == "tif":
        return losa.save_image(p, ARR)
    if kind == "hdf":
        return losa.save_hdf_file(p, ARR)
    if kind == "stream":
        s = losa.open_hdf_stream(p, ARR.shape)
        s[:] = ARR
        q = s.file.filename
        s.file.close()
        return q
    if kind in ("txt", "json"):
        return getattr(losa, "save_metadata_" + kind)(p, 1.5, 2.5, [1.0, 0.25])
    if kind == "pkl":
        return losa.save_python_list(p, [1, "x"])
    pts = np.array([[5.0, 7.0], [20.0, 11.0]])
    if kind == "points":
        return losa.save_plot_points(p, pts, 40, 60, dpi=20)
    if kind == "lines":
        return losa.save_plot_image(p, [pts], 40, 60, dpi=20)
    return losa.save_residual_plot(p, np.array([[1.0, 0.5], [2.0, 1.0]]), 40, 60, dpi=20)


def loaders(kind):
    if kind == "tif":
        return [(losa.load_image, lambda r: np.array_equal(r, ARR))]
    if kind in ("hdf", "stream"):
        return [(losa.load_hdf_file, lambda r: np.array_equal(r, ARR)),
                (lambda p: losa.load_hdf_file(p, "entry/data"), lambda r: np.array_equal(r, ARR)),
                (lambda p: losa.load_hdf_object(p, "entry/data"), lambda r: np.array_equal(r[()], ARR) and r.file.close() is None),
                (losa.get_hdf_information, lambda r: any(k.strip("/") == "entry/data" for k in r[0])),
                (lambda p: losa.find_hdf_key(p, "data"), lambda r: any(k.strip("/") == "entry/data" for k in r[0]))]
    if kind in ("txt", "json"):
        return [(getattr(losa, "load_metadata_" + kind), lambda r: (r[0], r[1], list(r[2])) == (1.5, 2.5, [1.0, 0.25]))]
    if kind == "pkl":
        return [(losa.load_python_list, lambda r: r == [1, "x"])]
    return [(losa.load_image, lambda r: r.ndim == 2 and r.size > 0)]


class Check:
    PID = "C43"
    RULE = "state = (platform seen by the code, reader or writer, path spelling) or (writer, folder chain, moment at which another program creates one of the folders); the file really on disk is compared with the one meant"
    BOUNDS = {"quick": "3 platforms x 9 savers and their 5 kinds of loaders x folder names from 10 initials in chains of 1..2 x 4 spellings x {str, Path}; 11 unusual folder names x 9 file names; missing files for 8 loaders; races: chains of 1..3 new folders x every folder x 9 savers",
              "thorough": "same with all chains of 1..3 initials"}

    def space(self, tier):
        deep = tier == "thorough"
        ini = list(ESC) + ["q", "1"]
        for system in ("Windows", "Linux", "Darwin"):
            for kind in SAVERS:
                if kind in ("points", "lines", "residual"):
                    chains = [(a, ini[(i + 3) % 10]) for i, a in enumerate(ini)]
                    fast = True
                else:
                    fast = False
                    chains = [(a,) for a in ini] + list(itertools.product(ini, repeat=2))
                    if deep:
                        chains += list(itertools.product(ini, repeat=3))
                for i in range(0, len(chains), 20):
                    yield {"k": "path", "sys": system, "kind": kind, "c": [list(c) for c in chains[i:i + 20]], "fast": fast}
        for a in ini:
            for b in ini:
                yield {"k": "find", "c": [a, b]}
        for kind in SAVERS:
            for system in ("Windows", "Linux", "Darwin"):
                yield {"k": "odd", "kind": kind, "sys": system}
            yield {"k": "missing", "kind": kind}
            for n in (1, 2, 3):
                for at in range(n):
                    yield {"k": "race", "kind": kind, "n": n, "at": at}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        try:
            with scratch.folder() as d:
                getattr(self, "do_" + g["k"])(g, ctx, d)
        finally:
            plt.close("all")

    def spell(self, root, parts, style, system):
        """How a user writes root/parts[0]/parts[1]...: slash, backslash,
        backslash in a plain (not raw) Python string, and a mixture."""
        if style == "slash":
            return root + "/" + "/".join(parts)
        if style == "back":
            return root + "\\" + "\\".join(parts)
        if style == "plain":
            return root + "".join(ESC.get(p[0], "\\" + p[0]) + p[1:] for p in parts)
        return root + "/" + parts[0] + "".join("\\" + p for p in parts[1:])

    def do_path(self, g, ctx, d):
        kind, system = g["kind"], g["sys"]
        e = EXT[kind]
        n = 0
        for chain in g["c"]:
            parts = [a + "older" for a in chain[:-1]] + [chain[-1] + "file" + e]
            styles = ["slash", "back", "plain", "mix"] if system == "Windows" else ["slash"]
            for style in styles:
                for conv in (str, Path) if not g["fast"] else (str,):
                    n += 1
                    root = os.path.join(d, f"r{n}")
                    os.mkdir(root)
                    p = self.spell(root, parts, style, system)
                    if conv is Path and "\0" in p:
                        continue
                    want = os.path.join(root, *parts)
                    what = f"{kind} on {system}, path {p[len(root):]!r} as {conv.__name__}"
                    with on(system):
                        r = ctx.call(save, kind, conv(p))
                    ctx.check(os.path.isfile(want), lambda: f"{what}: there is no file {want}, only {[q for q in scratch.snapshot(root)]}")
                    ctx.check(os.path.realpath(str(r)) == os.path.realpath(want), lambda: f"{what}: returned {r}")
                    ctx.check([q for q, c in scratch.snapshot(root).items() if c is not None] == [os.path.relpath(want, root)], lambda: f"{what}: files {list(scratch.snapshot(root))}")
                    for f, good in loaders(kind):
                        with on(system):
                            v = ctx.call(f, conv(p))
                        ctx.check(good(v), lambda: f"{what}: loaded {v!r}")
                    ctx.outcome((style, os.path.relpath(want, root)))
            if system != "Windows":
                # elsewhere a backslash or a control character belongs to the name
                for name in ("a\\b" + e, chain[-1] + "\t" + e, "x\ny" + e):
                    n += 1
                    root = os.path.join(d, f"r{n}")
                    os.mkdir(root)
                    p = os.path.join(root, name)
                    with on(system):
                        ctx.call(save, kind, p)
                        ctx.check(os.listdir(root) == [name], lambda: f"{kind} on {system}: {name!r} saved as {os.listdir(root)}")
                        for f, good in loaders(kind):
                            ctx.check(good(ctx.call(f, p)), lambda: f"{kind} on {system}: {name!r} not loaded")
        ctx.interesting()

    def do_find(self, g, ctx, d):
        a, b = g["c"]
        parts = [a + "older", b + "file.tif"]
        want = os.path.join(d, *parts)
        os.makedirs(os.path.dirname(want))
        with open(want, "w") as f:
            f.write("x")
        pat = parts[:-1] + [b + "fi*.tif"]
        for system in ("Windows", "Linux"):
            for style in ("slash", "back", "plain", "mix"):
                for conv in (str, Path):
                    p = self.spell(d, pat, style, system)
                    if conv is Path and "\0" in p:
                        continue
                    with on(system):
                        r = ctx.call(losa.find_file, conv(p))
                    ctx.check(r == [want], lambda: f"find_file {p[len(d):]!r} on {system}: {r} instead of {want}")
        ctx.outcome(want[len(d):])
        ctx.interesting()

    def do_odd(self, g, ctx, d):
        """Unusual names of missing folders and of files."""
        kind, e, n = g["kind"], EXT[g["kind"]], 0
        folders = ["run.01", "a/v1.2", "v1.2/b", ".hidden", "x y", "\u00e9t\u00e9", "a/../b.c", "tif", e, "q" + e, "1.5/2.5/3.5"]
        names = ["file", "my.data.v2", "a b", "\u00fc", "file" + e, "1.5", "-x", "a_0000", "FILE"]
        for fo in folders:
            for na in (names if kind not in ("points", "lines", "residual") else names[:3]):
                n += 1
                root = os.path.join(d, f"r{n}")
                os.mkdir(root)
                if ".." in fo:
                    os.mkdir(os.path.join(root, "a"))
                p = os.path.join(root, fo, na + e)
                want = os.path.normpath(p)
                what = f"{kind} on {g['sys']}, {fo}/{na}{e}"
                with on(g["sys"]):
                    r = ctx.call(save, kind, p if n % 2 else Path(p))
                ctx.check(os.path.isfile(want), lambda: f"{what}: there is no file {want}, only {[q for q in scratch.snapshot(root)]}")
                ctx.check(os.path.realpath(str(r)) == os.path.realpath(want), lambda: f"{what}: returned {r}")
                ctx.check([q for q, c in scratch.snapshot(root).items() if c is not None] == [os.path.relpath(want, root)], lambda: f"{what}: files {list(scratch.snapshot(root))}")
                for f, good in loaders(kind):
                    with on(g["sys"]):
                        v = ctx.call(f, p)
                    ctx.check(good(v), lambda: f"{what}: loaded {v!r}")
        ctx.interesting()

    def do_missing(self, g, ctx, d):
        for system in ("Windows", "Linux", "Darwin"):
            for name in ("no" + EXT[g["kind"]], "sub/no" + EXT[g["kind"]], "no"):
                for conv in (str, Path):
                    for f, _ in loaders(g["kind"]):
                        with on(system):
                            ctx.raises(ValueError, f, conv(os.path.join(d, name)))
        ctx.check(os.listdir(d) == [], lambda: f"loading a missing file created {os.listdir(d)}")
        ctx.interesting()

    def do_race(self, g, ctx, d):
        """Another program creates folder number `at` of the chain just before
        this one does."""
        real = os.mkdir
        for conv in (str, Path):
            root = os.path.join(d, conv.__name__)
            real(root)
            chain = [os.path.join(root, *["n%d" % j for j in range(i + 1)]) for i in range(g["n"])]
            victim = os.path.realpath(chain[g["at"]])
            hits = []

            def mkdir(p, *a, **k):
                if os.path.realpath(os.fspath(p)) == victim and not hits and os.path.isdir(os.path.dirname(victim)):
                    hits.append(1)
                    real(victim)
                return real(p, *a, **k)
            os.mkdir = mkdir
            try:
                want = os.path.join(chain[-1], "file" + EXT[g["kind"]])
                ctx.call(save, g["kind"], conv(want))
            finally:
                os.mkdir = real
            ctx.check(os.path.isfile(want), lambda: f"{g}: not saved")
            for f, good in loaders(g["kind"]):
                ctx.check(good(ctx.call(f, want)), lambda: f"{g}: not loaded")
            ctx.outcome((g["n"], g["at"], len(hits)))
        ctx.interesting()
