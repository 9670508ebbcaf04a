import contextlib
import io
import itertools
import os
import warnings
import h5py
import numpy as np
from mc import ref, scratch
from discorpy.losa import loadersaver as losa

ref.require_repo()
KINDS = ["d1", "d0", "d3", "empty", "soft", "ext", "good"]
ROOTS = [[], ["d1", "d0"], ["d0", "soft"], ["d3", "empty", "ext"], ["none", "good", "d0"]]
NAMES = ["data", "Data a", "ab"]


def norm(k):
    return k.strip("/")


class Check:
    PID = "C38"
    RULE = "state = HDF tree (nodes with parents, names and kinds: dataset, empty group, broken or good links) or stream request; the listing is compared with the tree that was written"
    BOUNDS = {"quick": "all trees: 1..2 groups in all nestings, each holding up to 2 children of 7 kinds, plus up to 3 root children (5 sets, two of them in rotation for 2 groups); 15 patterns each; up to 1100 datasets, 60 groups, 12 levels; streams: 5 shapes x 6 types x 6 key paths x 6 option sets",
              "thorough": "same with 3 groups in all nestings (chains, siblings, mixtures)"}

    def groups(self, n):
        """All nestings of n groups, as lists of paths."""
        out = []
        for parents in itertools.product(*[range(-1, i) for i in range(n)]):
            paths = []
            for i, p in enumerate(parents):
                name = ["g", "entry", "ga"][i]
                paths.append((paths[p] + "/" if p >= 0 else "") + name)
            out.append(paths)
        return out

    def space(self, tier):
        deep = tier == "thorough"
        kids = [()] + [(k,) for k in KINDS] + list(itertools.combinations_with_replacement(KINDS, 2))
        for n in (0, 1, 2) + ((3,) if deep else ()):
            for gs in self.groups(n):
                few = kids if n < 3 else kids[:8]
                for i, combo in enumerate(itertools.product(few, repeat=n)):
                    yield {"k": "tree", "g": gs, "c": [list(c) for c in combo], "roots": (ROOTS if n < 2 or (deep and n == 2) else [ROOTS[i % 5], ROOTS[(i + 2) % 5]])}
        yield {"k": "void"}
        for n, m, depth in ((300, 1, 1), (5, 60, 1), (1, 12, 12), (40, 3, 4), (1100, 1, 2)):
            yield {"k": "many", "n": n, "m": m, "depth": depth}
        for s in [(3,), (2, 3), (2, 3, 4), (1, 1, 1), (5, 1)]:
            for t in ("float32", "float64", "uint8", "int16", "uint16", "bool"):
                yield {"k": "stream", "s": list(s), "t": t}

    def run(self, g, ctx):
        warnings.simplefilter("ignore")
        with scratch.folder() as d:
            getattr(self, "do_" + g["k"])(g, ctx, d)

    def build(self, p, g, root):
        """Writes the tree; returns {key: (shape, dtype) or None} of intact
        datasets and groups, the empty groups and the broken links."""
        data, groups, broken = {}, set(), set()
        with h5py.File(p, "w") as f:
            f.create_group("target_")["v"] = np.zeros((2, 2), np.int16)
            data["target_/v"] = ((2, 2), np.dtype("int16"))
            for q in g["g"]:
                f.create_group(q)
                groups.add(q)
            todo = [("", root)] + list(zip(g["g"], g["c"]))
            for par, kids in todo:
                for i, k in enumerate(kids):
                    nm = (par + "/" if par else "") + NAMES[i]
                    if k == "d1":
                        f[nm] = np.arange(3.0)
                        data[nm] = ((3,), np.dtype("float64"))
                    elif k == "d0":
                        v = [np.float32(1.5), "text"][len(data) % 2]
                        f[nm] = v
                        data[nm] = ((), f[nm].dtype)
                    elif k == "none":
                        f.create_dataset(nm, (0, 3), "int8")
                        data[nm] = ((0, 3), np.dtype("int8"))
                    elif k == "d3":
                        f[nm] = np.zeros((2, 1, 3), np.uint16)
                        data[nm] = ((2, 1, 3), np.dtype("uint16"))
                    elif k == "empty":
                        f.create_group(nm)
                        groups.add(nm)
                    elif k == "soft":
                        f[nm] = h5py.SoftLink("/nowhere/x")
                        broken.add(nm)
                    elif k == "ext":
                        f[nm] = h5py.ExternalLink("missing_file.h5", "/x")
                        broken.add(nm)
                    else:
                        f[nm] = h5py.SoftLink("/target_/v")
                        data[nm] = ((2, 2), np.dtype("int16"))
            empty = {q for q in groups if not any(o.startswith(q + "/") for o in set(data) | groups | broken)}
        return data, groups | {"target_"}, empty, broken

    def do_tree(self, g, ctx, d):
        for root in g["roots"]:
            p = os.path.join(d, "t.h5")
            data, groups, empty, broken = self.build(p, g, root)
            what = f"groups {g['g']} children {g['c']} root {root}"
            keys, shapes, types = ctx.call(losa.get_hdf_information, p)
            ctx.check(len(keys) == len(shapes) == len(types), lambda: f"{what}: {len(keys)} keys, {len(shapes)} shapes, {len(types)} types")
            got = {}
            for k, s, t in zip(keys, shapes, types):
                k = norm(k)
                if k in got:
                    ctx.check(got[k] == (s, t), lambda: f"{what}: {k} listed as {got[k]} and {(s, t)}")
                got[k] = (s, t)
            rootlinks = {NAMES[i] for i, k in enumerate(root) if k == "good"}  # links at the root are not visited by h5py
            for k, v in data.items():
                if k not in rootlinks:
                    ctx.check(k in got, lambda: f"{what}: dataset {k} is not listed: {sorted(got)}")
            for k in empty:
                ctx.check(k in got, lambda: f"{what}: empty group {k} is not listed: {sorted(got)}")
            for k, v in got.items():
                if k in data:
                    ctx.check(v[0] == data[k][0] and v[1] == data[k][1], lambda: f"{what}: {k} listed as {v}, stored as {data[k]}")
                else:
                    ctx.check(k in groups or k in broken, lambda: f"{what}: {k} does not exist")
                    ctx.check(v == (None, None), lambda: f"{what}: {k} is not a dataset but listed as {v}")
            for pat in ("", "data", "a", "ab", "g", "entry", "/", "g/", "zz", "entry/data", "Data", "DATA", "t.", "a a", "ta_/v"):
                k2, s2, t2 = ctx.call(losa.find_hdf_key, p, pat)
                want = [(k, s, t) for k, s, t in zip(keys, shapes, types) if pat in k]
                ctx.check(sorted(set(map(str, zip(k2, s2, t2)))) == sorted(set(map(str, want))) and len(k2) == len(s2) == len(t2),
                          lambda: f"{what} pattern {pat!r}: {list(zip(k2, s2, t2))} instead of {want}")
            for f, a, want in ((losa.get_hdf_information, (), (keys, shapes, types)), (losa.find_hdf_key, ("a",), None), (losa.find_hdf_key, ("zz",), ([], [], []))):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    quiet = ctx.call(f, p, *a)
                ctx.check(buf.getvalue() == "", lambda: f"{what}: {f.__name__} prints {buf.getvalue()!r} unasked")
                with contextlib.redirect_stdout(buf):
                    shown = ctx.call(f, p, *a, display=True)
                ctx.check(str(shown) == str(quiet) and (want is None or str(shown) == str(want)), lambda: f"{what}: display changes the answer of {f.__name__} to {shown}")
                text = buf.getvalue().splitlines()
                for k, sh, t in zip(*shown):
                    ctx.check(any(k in l and str(sh) in l and str(t) in l for l in text), lambda: f"{what}: {f.__name__} does not show {k} {sh} {t}: {text}")
                ctx.check(len(text) >= max(1, len(shown[0])), lambda: f"{what}: {f.__name__} shows {text}")
            with h5py.File(p, "r+") as f:      # the file was left closed
                for k in got:
                    if k in data or k in groups:
                        ctx.check(f.get(k) is not None, f"{what}: {k} cannot be opened")
            ctx.outcome(sorted(map(str, got.items())))
            ctx.interesting(len(got) > 1)

    def do_many(self, g, ctx, d):
        """Many datasets, many groups, deep nesting."""
        p = os.path.join(d, "t.h5")
        data = {}
        with h5py.File(p, "w") as f:
            for i in range(g["m"]):
                path = "/".join("l%d_%d" % (k, i if k == g["depth"] - 1 else 0) for k in range(g["depth"]))
                for j in range(g["n"]):
                    s = (1 + j % 3, 1 + i % 2)
                    f[f"{path}/d{j}"] = np.zeros(s, np.int16 if j % 2 else np.float32)
                    data[f"{path}/d{j}"] = (s, np.dtype(np.int16 if j % 2 else np.float32))
        keys, shapes, types = ctx.call(losa.get_hdf_information, p)
        got = {norm(k): (s, t) for k, s, t in zip(keys, shapes, types)}
        ctx.check(len(keys) == len(shapes) == len(types), f"{g}: lists of different lengths")
        for k, v in data.items():
            ctx.check(k in got and got[k][0] == v[0] and got[k][1] == v[1], lambda: f"{g}: {k} stored as {v}, listed as {got.get(k)}")
        for pat in ("d1", "l0", "_1/", "zz"):
            k2, s2, t2 = ctx.call(losa.find_hdf_key, p, pat)
            ctx.check(set(k2) == {k for k in keys if pat in k} and len(k2) == len(s2) == len(t2), lambda: f"{g}: pattern {pat!r} finds {len(k2)} keys")
            for k, s, t in zip(k2, s2, t2):
                ctx.check((s, t) == got[norm(k)], lambda: f"{g}: {k} found as {(s, t)}")
        ctx.outcome(len(got))
        ctx.interesting()

    def do_void(self, g, ctx, d):
        """A file without any object."""
        p = os.path.join(d, "t.h5")
        h5py.File(p, "w").close()
        for kw in ({}, {"display": True}):
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.check(ctx.call(losa.get_hdf_information, p, **kw) == ([], [], []), "listing of an empty file")
                ctx.check(ctx.call(losa.find_hdf_key, p, "", **kw) == ([], [], []), "search in an empty file")
        ctx.outcome("void")

    def do_stream(self, g, ctx, d):
        s, t = tuple(g["s"]), g["t"]
        opts = [{}, {"o": {"x": np.arange(3.0)}}, {"o": {"entry/angles": [1.0, 2.0], "energy": 53.0}}, {"a": {"m/n/o": "text"}, "b": {"q": [1, 2]}},
                {"o": {"entry2/data": np.zeros((2, 2))}}, {"o": {"z": np.uint8(3)}, "p": {"y": np.zeros((1, 2, 3), np.float32)}}]
        n = 0
        for key in ("entry/data", "data", "a/b/c", "/entry/data", "entry", "k/data_1"):
            for i, o in enumerate(opts):
                flat = {k: v for q in o.values() for k, v in q.items()}
                if any(norm(k).startswith(norm(key)) or norm(key).startswith(norm(k) + "/") or key in k for k in flat):
                    continue
                n += 1
                p = os.path.join(d, "sub", f"s{n}.hdf")
                what = f"stream {s} {t} {key} options {list(flat)}"
                st = ctx.call(losa.open_hdf_stream, p, s, key_path=key, data_type=t, **o)
                ctx.check(st.shape == s and st.dtype == np.dtype(t), lambda: f"{what}: {st.shape} {st.dtype}")
                vals = (np.arange(np.prod(s)) % 3).astype(t).reshape(s)
                for j in range(s[0]):
                    st[j] = vals[j]
                st.file.close()
                with h5py.File(p, "r") as f:
                    ctx.check(np.array_equal(f[key][()], vals) and f[key].dtype == np.dtype(t), lambda: f"{what}: stored {f[key][()]}")
                    for k, v in flat.items():
                        r = f[k][()]
                        ok = r.decode() == v if isinstance(v, str) else np.array_equal(r, v)
                        ctx.check(ok, lambda: f"{what}: metadata {k} stored as {r!r}")
                    names = []
                    f.visititems(lambda nm, ob: names.append(nm) if isinstance(ob, h5py.Dataset) else None)
                    ctx.check(set(names) == {norm(key)} | {norm(k) for k in flat}, lambda: f"{what}: datasets {names}")
                ctx.outcome((key, i, vals))
            for child in (key + "/x", key + "/x/y"):
                for where in ({"o": {child: 1.0}}, {"o": {"ok": 1.0, child: 2.0}}, {"o": {"ok": 1.0}, "p": {child: 2.0}}):
                    n += 1
                    ctx.raises(ValueError, losa.open_hdf_stream, os.path.join(d, f"e{n}.hdf"), s, key_path=key, data_type=t, **where)
        st = ctx.call(losa.open_hdf_stream, os.path.join(d, "def.hdf"), s)
        ctx.check(st.name == "/entry/data" and st.dtype == np.float32 and st.shape == s, f"default stream {st}")
        st.file.close()
        ctx.interesting()
