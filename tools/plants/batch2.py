POST = "discorpy/post/postprocessing.py"
UTIL = "discorpy/util/utility.py"
PROC = "discorpy/proc/processing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
LOSA = "discorpy/losa/loadersaver.py"
SPECS = []


def bug(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c05-vacant", "C05", [(POST, "mat_unw = np.zeros_like(mat)", "mat_unw = np.full_like(mat, np.min(mat))")],
    "an image without zeros and a model that leaves vacant pixels",
    "pixels to which nothing is sent get the darkest value instead of zero",
    """
import numpy as np
from discorpy.post import postprocessing as post
m = np.full((20, 20), 7.0)
u = post.unwarp_image_forward(m, 9.5, 9.5, [1.3])
assert set(np.unique(u)) == {0.0, 7.0}, np.unique(u)
""")

bug("c08-last-row", "C08", [(UTIL, "np.clip(ycenter + t_pad + fact_mat * yu_mat, 0, height - 1))", "np.clip(ycenter + t_pad + fact_mat * yu_mat, 0,\n                height - 1 - (width > height)))")],
    "a landscape image, looked at in its last row",
    "the OpenCV path reads the last row from the row above for landscape images",
    """
import numpy as np
from discorpy.util import utility as util
for s in ((20, 30), (30, 20), (20, 20)):
    m = np.float32(np.add.outer(10 * np.arange(s[0]), np.arange(s[1])))
    a = util.unwarp_image_backward_cv2(m, 8.0, 9.0, [1.0])
    assert np.abs(a - m).max() < 1, (s, np.abs(a - m).max())
""")

bug("c10-degenerate-scale", "C10", [(PROC, "    list_coef = np.linalg.lstsq(Amatrix, Bmatrix, rcond=1e-64)[0]\n    return list_coef\n\n\ndef update_center", "    list_coef = np.linalg.lstsq(Amatrix, Bmatrix, rcond=1e-8)[0]\n    return list_coef\n\n\ndef update_center")],
    "points with coordinates of several thousand pixels",
    "small singular values are dropped, so targets are missed by many pixels",
    """
import numpy as np
from discorpy.proc import processing as proc
from discorpy.post import postprocessing as post
s = np.array([[2000.0, 2100.0], [2010.0, 3900.0], [3800.0, 2050.0], [3900.0, 4000.0]])
t = np.array([[2000.0, 2000.0], [2000.0, 4000.0], [3900.0, 2000.0], [3900.0, 4000.0]])
c = proc.calc_perspective_coefficients(s, t, mapping="forward")
d = np.abs(post.correct_perspective_line([s], c)[0] - t).max()
assert d < 0.1, d
""")

bug("c11-map-clip", "C11", [(POST, "    xd_mat = np.float32(np.clip(xd_mat, 0, width - 1))\n    yd_mat = np.float32(np.clip(yd_mat, 0, height - 1))\n    indices", "    size = max(height, width)\n    xd_mat = np.float32(np.clip(xd_mat, 0, size - 1))\n    yd_mat = np.float32(np.clip(yd_mat, 0, size - 1))\n    indices")],
    "an image that is not square and a perspective map leaving it through its long side",
    "pixels outside are reflected instead of taken from the edge",
    """
import numpy as np
from discorpy.post import postprocessing as post
m = np.add.outer(np.arange(10.0) ** 2, np.arange(30.0))
c = [1, 0, 0, 0, 1.5, 0, 0, 0]
a = post.correct_perspective_image(m, c)
y = np.clip(1.5 * np.arange(10), 0, 9)
e = np.array([np.interp(y, np.arange(10), m[:, k]) for k in range(30)]).T
assert np.abs(a - e).max() < 1e-3, np.abs(a - e).max()
""")

bug("c12-equal-min", "C12", [(PROC, "            dist_h = dist_v = min(dist_v, dist_h)", "            dist_h = dist_v = min(dist12, dist13)")],
    "equal distances with the smallest scale when the shortest side is not at the first corner",
    "the target square is larger than the smallest side",
    """
import numpy as np
from discorpy.proc import processing as proc
p = [[10.0, 10.0], [12.0, 90.0], [100.0, 30.0], [98.0, 60.0]]
s, t = proc.generate_4_source_target_perspective_points(p, equal_dist=True, scale="min")
d = np.hypot(*(t[0] - t[1]))
assert abs(d - np.hypot(2, 30)) < 0.1, d
""")

bug("c14-percent", "C14", [(POST, "    perc_err = (1.0 * len(res_list[res_list > 1.0]) / len(res_list))", "    perc_err = np.mean(np.sort(res_list)[int(np.ceil(0.85 * len(res_list))):] > 1.0)"), (POST, "    if perc_err > 0.15:", "    if perc_err == 1.0:")],
    "a table whose length makes 15 % of it not a whole number",
    "the verdict is positive for tables with at most 15 % of large residuals",
    """
import numpy as np
from discorpy.post import postprocessing as post
for n in range(1, 60):
    for m in range(n + 1):
        t = np.zeros((n, 2)); t[:m, 1] = 2.0
        assert bool(post.check_distortion(t)) == (100 * m > 15 * n), (n, m)
""")

bug("c15-ref-order", "C15", [(PROC, "        if num_points < len(list_fact):", "        ref_points = ref_points[:5000]\n        if num_points < len(list_fact):")],
    "more than 5000 reference points given in scan order",
    "the inverse is fitted to the first part of the reference points only and is off at the others",
    """
import numpy as np
from discorpy.proc import processing as proc
f = [1.0, 1e-4, 5e-7, -3e-10]
p = [[i, j] for i in np.linspace(0, 900, 120) for j in np.linspace(0, 50, 100)]
g = proc.transform_coef_backward_and_forward(f, mapping="backward", ref_points=p)
r = np.linspace(0, 900, 50)
u = r * sum(c * r ** i for i, c in enumerate(f))
b = u * sum(c * u ** i for i, c in enumerate(g))
assert np.abs(b - r).max() < 3, np.abs(b - r).max()
""")

bug("c19-single-precision", "C19", [(PROC, "            new_ver_lines[j, i] = np.asarray([y + ycenter, x + xcenter])", "            new_ver_lines[j, i] = np.asarray([y, x])")],
    "regenerating grid points with the centre searched for (find_center)",
    "vertical lines are returned relative to the centre, horizontal lines are not",
    """
import numpy as np
from discorpy.proc import processing as proc
y, x = np.mgrid[0:9, 0:9] * 20.0 + 15.0
r2 = (x - 90) ** 2 + (y - 95) ** 2
k = 1 - 2e-6 * r2
yd, xd = 95 + k * (y - 95), 90 + k * (x - 90)
H = [np.stack([yd[i], xd[i]], 1) for i in range(9)]
V = [np.stack([yd[:, i], xd[:, i]], 1) for i in range(9)]
for fc in (False, True):
    h, v = proc.regenerate_grid_points_parabola(H, V, find_center=fc)
    assert np.abs(np.asarray(h) - np.swapaxes(np.asarray(v), 0, 1)).max() < 1e-3, fc
""")

bug("c26-ver-residual", "C26", [(PREP, """            [dot for i, dot in enumerate(list_) if error[i] < residual])
        if len(dots_left) > 0:
            dots_left = np.fliplr(dots_left)""", """            [dot for i, dot in enumerate(list_) if error[i] < residual])
        if len(dots_left) > 1:
            dots_left = np.fliplr(dots_left)""")],
    "a column of which exactly one dot remains within the limit",
    "the column is dropped instead of being kept with its one dot",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
good = np.array([[float(i), 5.0] for i in range(8)])
bad = np.array([[0.0, 0.0], [10.0, 30.0], [20.0, 0.0], [31.0, -30.0], [40.0, 2.0]])
h = prep.remove_residual_dots_hor([np.fliplr(good), np.fliplr(bad)], 0.0, 2.0)
v = prep.remove_residual_dots_ver([good, bad], 0.0, 2.0)
assert len(h) == len(v), (len(h), len(v))
for a, b in zip(h, v):
    assert np.allclose(np.fliplr(a), b)
""")

bug("c27-margin-order", "C27", [(PREP, "        bot_margin = ver_margin[-1]", "        bot_margin = min(ver_margin)")],
    "different top and bottom margins with the larger one at the bottom",
    "the larger bottom margin is not respected",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
m = prep.make_parabola_mask(40, 40, hor_curviness=0.0, ver_curviness=0.0, hor_margin=2, ver_margin=(3, 12))
r = np.flatnonzero(m[:, 20])
assert r[0] == 4 and r[-1] == 27, (r[0], r[-1])
""")

bug("c28-uint-median", "C28", [(PREP, "        mat = ndi.median_filter(np.abs(mat), (2, 2))", "        mat = ndi.median_filter(np.abs(np.float32(mat)), (2, 2))\n        mat = np.uint8(255 * (mat / np.max(mat)))")],
    "an image with a few pixels much brighter than dots and background",
    "grey levels are squeezed into 8 bits, dots of low contrast are lost",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
m = np.full((120, 120), 1000.0)
y, x = np.mgrid[:120, :120]
n = 0
for cy in range(10, 115, 20):
    for cx in range(10, 115, 20):
        m[(y - cy) ** 2 + (x - cx) ** 2 <= 16] += 1.5
        n += 1
m[:3, :3] = 5000.0
p = prep.get_points_dot_pattern(m)
assert len(p) == n, (len(p), n)
""")

bug("c30-fft-mode", "C30", [(PREP, "    mat = np.pad(mat, ((pad, pad), (pad, pad)), mode=mode)\n", "    pad = min(pad, min(mat.shape) - 1)\n    mat = np.pad(mat, ((pad, pad), (pad, pad)), mode=mode)\n    mat = mat - mat.mean()\n"), (PREP, "    mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)", "    mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode) + np.mean(mat)")],
    "an image whose padded mean differs from its own mean (background gradient or bright rim)",
    "the background is off by a constant, so the normalised image is not flat",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
m = 10.0 + np.zeros((60, 60)); m[:8] = 40.0
a = prep.normalization_fft(m, sigma=5, pad=20)
b = prep.normalization_fft(3 * m, sigma=5, pad=20)
assert np.allclose(3 * a, b)
h = m.shape[0]
P = np.pad(m, 20, mode="reflect")
y, x = np.ogrid[-(99 / 2):99 / 2 + 1, -(99 / 2):99 / 2 + 1]
w = np.exp(-(x * x + y * y) / 50.0)
s = (-1.0) ** np.add.outer(np.arange(100), np.arange(100))
bk = np.real(np.fft.ifft2(np.fft.fft2(P * s) * w) * s)[20:80, 20:80]
e = bk.mean() * m / bk
assert np.abs(a - e).max() < 1e-6 * np.abs(e).max(), np.abs(a - e).max()
""")

bug("c34-board-odd", "C34", [(UTIL, "    for i in range(size + margin, height - margin - size, size):\n        if num % 2 == 0:", "    for i in range(size + margin, height - margin - size + height % 2, size):\n        if num % 2 == 0:")],
    "a board of odd height in which a further row of cells would exactly reach the margin",
    "one more row of cells is drawn",
    """
import numpy as np
from discorpy.util import utility as util
b = util.make_chessboard(height=91, width=90, size=9, margin=5, margin_grayscale=0.5)
rows = np.flatnonzero((b != 0.5).any(axis=1))
c = util.make_chessboard(height=90, width=91, size=9, margin=5, margin_grayscale=0.5)
cols = np.flatnonzero((c != 0.5).any(axis=0))
assert rows.max() == cols.max() , (rows.max(), cols.max())
""")

bug("c35-txt-digits", "C35", [(LOSA, 'f.write(str(line) + " = " + str(metadata[line]))', 'f.write(str(line) + " = " + "{:.15g}".format(float(metadata[line])))')],
    "a coefficient whose decimal form needs 17 digits",
    "the last bits of values are lost in text files",
    """
import numpy as np, os, tempfile
from discorpy.losa import loadersaver as losa
with tempfile.TemporaryDirectory() as d:
    p = losa.save_metadata_txt(os.path.join(d, "a.txt"), 0.1 + 0.2, 2.0 / 3.0, [1.0, 1e-3 / 3])
    x, y, f = losa.load_metadata_txt(p)
    assert x == 0.1 + 0.2 and y == 2.0 / 3.0 and f == [1.0, 1e-3 / 3]
""")

bug("c40-shared-map", "C40", [(UTIL, "    fact_mat = np.sum(np.asarray(\n        [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)\n    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))\n    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))\n    indices", ("    key = (height, width, xcenter, ycenter, id(list_fact))\n    if key not in _FACT:\n        _FACT.clear()\n        _FACT[key] = np.sum(np.asarray(\n            [factor * ru_mat ** i for i, factor in enumerate(list_fact)]),\n            axis=0)\n    fact_mat = _FACT[key]\n    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))\n    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))\n    indices", 0)), (UTIL, "def make_circle_mask", "_FACT = {}\n\n\ndef make_circle_mask")],
    "the same coefficient array refilled by the caller between two calls",
    "the second call uses the distortion model of the first",
    """
import numpy as np
from discorpy.util import utility as util
m = np.random.RandomState(0).rand(20, 24)
f = np.array([1.0, 0.0])
util.unwarp_color_image_backward(m, 10.0, 9.0, f)
f[1] = 5e-3
a = util.unwarp_color_image_backward(m, 10.0, 9.0, f)
b = util.unwarp_color_image_backward(m, 10.0, 9.0, np.array([1.0, 5e-3]))
assert np.array_equal(a, b)
""")

bug("c41-shared-buffer", "C41", [(POST, "    mat_unw = np.zeros_like(mat)\n    mat_unw[yu_mat, xu_mat] = mat\n    return mat_unw", "    mat_unw = _BUFFER.get((mat.shape, mat.dtype.str))\n    if mat_unw is None:\n        mat_unw = _BUFFER[(mat.shape, mat.dtype.str)] = np.empty_like(mat)\n    mat_unw.fill(0)\n    mat_unw[yu_mat, xu_mat] = mat\n    return mat_unw.copy()"), (POST, "def unwarp_line_forward(", "_BUFFER = {}\n\n\ndef unwarp_line_forward(")],
    "two threads correcting images of the same size at the same time",
    "one thread overwrites the scratch image of the other before it is copied",
    """
import sys, threading
import numpy as np
from discorpy.post import postprocessing as post
# stop thread 1 before each of its lines in turn, run the whole other call there
def go(stop):
    a, b = np.full((9, 9), 1.0), np.full((9, 9), 2.0)
    out = {}
    n = [0]
    def tr(fr, ev, arg):
        if not fr.f_code.co_filename.endswith("postprocessing.py"):
            return None
        def loc(fr, ev, arg):
            if ev == "line":
                n[0] += 1
                if n[0] == stop:
                    t = threading.Thread(target=lambda: out.__setitem__("b", post.unwarp_image_forward(b, 4.0, 4.0, [1.0])))
                    t.start(); t.join()
            return loc
        return loc
    sys.settrace(tr)
    out["a"] = post.unwarp_image_forward(a, 4.0, 4.0, [1.0])
    sys.settrace(None)
    assert (out["a"] == 1.0).all() and ("b" not in out or (out["b"] == 2.0).all()), stop
    return n[0]
k = go(0)
for s in range(1, k + 1):
    go(s)
""")
