POST = "discorpy/post/postprocessing.py"
UTIL = "discorpy/util/utility.py"
PROC = "discorpy/proc/processing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
LOSA = "discorpy/losa/loadersaver.py"
SPECS = []


def bug(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c02-chunk-wide", "C02", [(POST, "    yu_list = np.arange(start_index, stop_index + 1) - ycenter\n", "    yu_list = np.arange(start_index, stop_index + 1) - np.rint(ycenter)\n")],
    "a chunk of slices corrected with a centre between two rows",
    "the chunk is corrected with the centre rounded to a row",
    """
import numpy as np
from discorpy.post import postprocessing as post
rng = np.random.default_rng(0)
v = np.float32(rng.random((2, 30, 30)))
for yc in (15.0, 15.4):
    c = post.unwarp_chunk_slices_backward(v, 14.0, yc, [1.0, 2e-3], 4, 9)
    e = np.asarray([post.unwarp_image_backward(f, 14.0, yc, [1.0, 2e-3])[4:10] for f in v])
    assert np.abs(c - e).max() < 1e-3, yc
""")

bug("c03-expo", "C03", [(POST, "    list_expo = np.arange(len(list_fact), dtype=np.int16)\n    for _, line in enumerate(list_lines):", "    list_expo = np.arange(len(list_fact), dtype=np.int16)\n    list_expo = np.minimum(list_expo, 5)\n    for _, line in enumerate(list_lines):")],
    "a model of seven or more coefficients",
    "terms above the fifth power are applied with the fifth power",
    """
import numpy as np
from discorpy.post import postprocessing as post
f = [1.0, 0, 0, 0, 0, 0, 1e-12]
p = post.unwarp_line_forward([np.asarray([[60.0, 80.0]])], 0.0, 0.0, f)[0][0]
k = sum(c * 100.0 ** i for i, c in enumerate(f))
assert abs(p[1] - 80 * k) < 1e-6, p
""")

bug("c03-swap", "C03", [(UTIL, "    if output_order == \"xy\":", "    if output_order == \"xy\" or xcenter == ycenter:")],
    "a centre with equal coordinates and the y,x order",
    "the mapped point comes back in x,y order",
    """
from discorpy.util import utility as util
for xc, yc in ((10.0, 20.0), (20.0, 20.0)):
    r = util.find_point_to_point([30.0, 50.0], xc, yc, [1.0], output_order="yx")
    assert abs(r[0] - 50) < 1e-9 or abs(r[0] - 30) < 1e-9
    q = util.find_point_to_point([30.0, 50.0], xc, yc, [1.0], output_order="xy")
    assert abs(r[0] - q[1]) < 1e-9 and abs(r[1] - q[0]) < 1e-9 and abs(q[0] - q[1]) > 1, (r, q)
""")

bug("c21-max-sign", "C21", [(PROC, "        if list_tmp[2, sorted_idx][0] > 0:\n            b_val = list_sort[0, -1]\n            c_val = list_sort[1, -1]", "        if list_tmp[2, sorted_idx][0] > 0:\n            b_val = list_sort[0, -1]\n            c_val = list_sort[1, 0]")],
    "the 'max' choice of representative lines with three or more upward lines",
    "slope and intercept of the representative line come from different lines",
    """
import numpy as np
from discorpy.proc import processing as proc
g = np.arange(-8, 9) * 50.0 + 9
Y, X = np.meshgrid(g, g, indexing="ij")
w = 1 + 1e-4 * X + 6e-5 * Y
Yp, Xp = Y / w, X / w
R = np.hypot(Xp, Yp)
B = 1 - 1e-7 * R ** 2
H = [np.c_[(Yp * B)[i], (Xp * B)[i]] + 600 for i in range(17)]
V = [np.c_[(Yp * B)[:, i], (Xp * B)[:, i]] + 600 for i in range(17)]
def spread(L, k):
    s = [np.polyfit(l[:, 1 - k] - 600, l[:, k] - 600, 2)[1] for l in L]
    return np.ptp(s)
for m in ("mean", "median", "max"):
    h, v = proc.correct_perspective_effect(H, V, 600.0, 600.0, method=m)
    assert spread(h, 0) < 0.4 * spread(H, 0) and spread(v, 1) < 0.4 * spread(V, 1), (m, spread(h, 0), spread(H, 0), spread(v, 1), spread(V, 1))
""")

bug("c22-zero-tol", "C22", [(PREP, "    max_size = dot_size + ratio * dot_size", "    max_size = dot_size + min(ratio, 1.0) * dot_size")],
    "a relative tolerance above one",
    "dots of more than twice the nominal size are removed although the tolerance allows them",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
m = np.zeros((12, 12), np.int16)
m[2:4, 2:4] = 1
m[6:10, 6:9] = 1
assert np.array_equal(prep.select_dots_based_size(m, 4, ratio=2.5), m)
""")

bug("c32-length", "C32", [(LINE, "        rlist = np.linspace(0, (height - 1) / np.cos(angle), height)", "        rlist = np.linspace(0, (height - 1) / np.cos(angle),\n                            max(height, width))")],
    "a vertical profile of a landscape image", "the vertical profile has as many samples as the image is wide",
    """
import numpy as np
from discorpy.prep import linepattern as lprep
for s in ((40, 40), (40, 60)):
    x, y, p = lprep.get_tilted_profile(np.zeros(s), 5, 3.0, "vertical")
    assert len(p) == 40
""")

bug("c38-scalar", "C38", [(LOSA, "                if list_tmp:\n                    for key2, _ in list_tmp:\n                        list_key.append(key + \"/\" + key2)\n                else:\n                    list_key.append(key)\n            else:\n                list_key.append(data.name)\n        except KeyError:\n            pass", "                if list_tmp:\n                    for key2, _ in list_tmp:\n                        list_key.append(key + \"/\" + key2)\n                else:\n                    list_key.append(key)\n            elif data.ndim > 0:\n                list_key.append(data.name)\n        except KeyError:\n            pass")],
    "a scalar dataset at the root of the file", "key search leaves out scalar datasets at the root", """
import h5py, os, tempfile, numpy as np
from discorpy.losa import loadersaver as losa
p = os.path.join(tempfile.mkdtemp(), "a.hdf")
with h5py.File(p, "w") as f:
    f["energy_one"] = 5.0
    f["energy_two"] = np.zeros(3)
k = [x.strip("/") for x in losa.find_hdf_key(p, "energy")[0]]
assert k == ["energy_one", "energy_two"], k
""")

bug("c38-options-type", "C38", [(LOSA, "    list_dkey, list_dshape, list_dtype = [], [], []\n    for _, key in enumerate(list_key):\n        if pattern in key:", "    list_dkey, list_dshape, list_dtype = [], [], []\n    for _, key in enumerate(list_key):\n        if pattern.lower() in key.lower():")],
    "keys differing in case", "the search ignores case", """
import h5py, os, tempfile, numpy as np
from discorpy.losa import loadersaver as losa
p = os.path.join(tempfile.mkdtemp(), "a.hdf")
with h5py.File(p, "w") as f:
    f["g/Data"] = np.zeros(2)
    f["g/data"] = np.zeros(3)
k = set(losa.find_hdf_key(p, "data")[0])
assert not any("Data" in x for x in k), k
""")

bug("c39-sort", "C39", [(LOSA, "    return sorted([file.as_posix() for file in file_paths])", "    return [file.as_posix() for file in sorted(file_paths, key=lambda f: (len(f.name), f.name))]")],
    "file names of different lengths", "files come back in natural rather than sorted order", """
import os, tempfile
from discorpy.losa import loadersaver as losa
d = tempfile.mkdtemp()
for n in ("b.tif", "aa.tif", "c1.tif"):
    open(os.path.join(d, n), "w").close()
r = [os.path.basename(x) for x in losa.find_file(d + "/*.tif")]
assert r == sorted(r), r
""")

