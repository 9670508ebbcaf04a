POST = "discorpy/post/postprocessing.py"
UTIL = "discorpy/util/utility.py"
PROC = "discorpy/proc/processing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
LOSA = "discorpy/losa/loadersaver.py"
SPECS = []


def bug(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-zero-coef", "C01", [(POST, "[factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)", ("[f * ru_mat ** i for i, f in enumerate(\n            x for x in list_fact if x != 0.0)]), axis=0)", 0))],
    "a coefficient list with a zero that is not last (even-order lens model)",
    "the powers of the radius after a zero coefficient are shifted by one",
    """
import numpy as np
from discorpy.post import postprocessing as post
from scipy.ndimage import map_coordinates
m = np.add.outer(np.arange(40.0), 3 * np.arange(50.0))
xc, yc, f = 20.0, 22.0, [1.0, 0.0, 1e-4]
y, x = np.mgrid[:40, :50]
r = np.hypot(x - xc, y - yc)
k = 1 + 1e-4 * r ** 2
e = map_coordinates(m, [np.clip(yc + k * (y - yc), 0, 39), np.clip(xc + k * (x - xc), 0, 49)], order=1, mode="reflect")
assert np.abs(post.unwarp_image_backward(m, xc, yc, f) - e).max() < 1e-2
""")

bug("c02-slice-rows", "C02", [(POST, "    yd_max = int(np.ceil(np.amax(yd_list))) + 1\n    yd_list = yd_list - yd_min", "    yd_max = int(np.floor(np.amax(yd_list))) + 1\n    yd_list = yd_list - yd_min")],
    "a slice whose lowest source row lies between two rows of the detector",
    "the last source row is not read, values between rows are taken from the row above",
    """
import numpy as np
from discorpy.post import postprocessing as post
v = np.add.outer(np.arange(30.0) ** 2, np.arange(20.0))[None]
f = [1.0, 4e-3]
for i in (3, 11, 25):
    a = post.unwarp_slice_backward(v, 8.3, 12.6, f, i)[0]
    b = post.unwarp_image_backward(v[0], 8.3, 12.6, f)[i]
    assert np.abs(a - b).max() < 1e-2, (i, np.abs(a - b).max())
""")

bug("c04-fixed-point", "C04", [(POST, """            minimum = optimize.minimize(_func_diff, rd, args=tuple(list_arg))
            ru = minimum.x[0]
""", """            ru = rd
            for _ in range(4):
                ru = rd / np.sum(np.asarray(
                    [fact * ru ** i for i, fact in enumerate(list_fact)]))
""")],
    "points far from the centre of a strongly distorting lens",
    "the inverse stops before convergence, the unwarped point does not map back",
    """
import numpy as np
from discorpy.post import postprocessing as post
f = [1.0, 2e-4, 4e-7]
line = np.array([[700.0, 650.0], [30.0, 900.0]])
u = post.unwarp_line_backward([line], 10.0, 20.0, f)[0]
b = post.unwarp_line_forward([u], 10.0, 20.0, f)[0]
assert np.abs(b - line).max() < 0.01, b - line
""")

bug("c06-alpha", "C06", [(UTIL, "        for i in range(mat_pad.shape[-1]):", "        for i in range(min(3, mat_pad.shape[-1])):")],
    "an image with four channels",
    "the fourth channel is dropped",
    """
import numpy as np
from discorpy.util import utility as util
m = np.random.RandomState(0).rand(20, 24, 4)
u = util.unwarp_color_image_backward(m, 11.0, 9.0, [1.0, 1e-3])
assert u.shape == m.shape
""")

bug("c07-pad-corner", "C07", [(UTIL, "            b_val = max(yu_bl, yu_br)", "            b_val = max(yu_bl, yu_tl)")],
    "an off-centre lens whose bottom-right corner is moved further than the bottom-left one",
    "the automatic bottom padding ignores the bottom-right corner",
    """
import numpy as np
from discorpy.util import utility as util
t, b, l, r = util._calc_pad(True, 100, 140, 30.0, 50.0, [1.0, -1.5e-3])
t2, b2, l2, r2 = util._calc_pad(True, 100, 140, 109.0, 49.0, [1.0, -1.5e-3])
assert abs(b - t) <= 1 and abs(b - b2) <= 1, (t, b, l, r, t2, b2)
""")

bug("c13-ver-radius", "C13", [(POST, """        y_list = line[:, 0] - ycenter
        x_list = line[:, 1] - xcenter
        (a_fact, b_fact) = np.polyfit(y_list, x_list, 1)
        dist_list = np.abs(
            a_fact * y_list - x_list + b_fact) / np.sqrt(a_fact ** 2 + 1)
""", """        y_list = line[:, 0] - ycenter
        x_list = line[:, 1] - xcenter
        (a_fact, b_fact) = np.polyfit(y_list, x_list, 1)
        dist_list = np.abs(a_fact * y_list - x_list + b_fact)
""")],
    "tilted vertical lines",
    "distances are measured along x instead of perpendicular to the fitted line",
    """
import numpy as np
from discorpy.post import postprocessing as post
t = np.arange(10.0)
line = np.stack([10 * t, 6 * t + (t % 2)], axis=1)
d = post.calc_residual_ver([line], 0.0, 0.0)[:, 1]
a, b = np.polyfit(line[:, 0], line[:, 1], 1)
e = np.abs(a * line[:, 0] + b - line[:, 1]) / np.hypot(a, 1)
assert np.allclose(sorted(d), sorted(e)), (d, e)
""")

bug("c16-cod-slope", "C16", [(PROC, "    ycenter = (ycenter0 + xcenter0 * slope_hor) / (1.0 - slope_hor * slope_ver)", "    ycenter = ycenter0 + xcenter0 * slope_hor / (1.0 - slope_hor * slope_ver)")],
    "a tilted pattern (both slopes not zero)",
    "the coarse centre is off by ycenter0 * slope_hor * slope_ver",
    """
import numpy as np
from discorpy.proc import processing as proc
from discorpy.post import postprocessing as post
a = np.deg2rad(7.0)
H, V = [], []
g = np.arange(-9, 10) * 40.0
s, k = np.tan(a), 1e-7
xs, ys = np.linspace(600, 1100, 21), np.linspace(1800, 2300, 21)
H = [np.column_stack((2000 + c + k * c * (xs - 800) ** 2 + s * (xs - 800), xs)) for c in (g + 20)]
V = [np.column_stack((ys, 800 + c + k * c * (ys - 2000) ** 2 - s * (ys - 2000))) for c in (g + 20)]
x, y = proc.find_cod_coarse(H, V)
assert abs(y - 2000) < 6 and abs(x - 800) < 6, (x, y)
""")

bug("c20-uneven", "C20", [(PROC, "        dist_ver = np.max(np.abs(np.diff(list_coef_ver[posv1: posv2, 1])))\n    elif scale == \"min\":", "        dist_ver = np.max(np.abs(np.diff(list_coef_ver[posh1: posh2, 1])))\n    elif scale == \"min\":")],
    "scale='max' with a different number of horizontal and vertical lines",
    "the spacing of vertical lines is taken over the index range of horizontal lines",
    """
import numpy as np
from discorpy.proc import processing as proc
xs = np.cumsum([0, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41.0])
ys = np.arange(5) * 30.0
H = [np.array([[y, x] for x in xs]) for y in ys]
V = [np.array([[y, x] for y in ys]) for x in xs]
h, v = proc.generate_undistorted_perspective_lines(H, V, equal_dist=False, scale="max", optimizing=False)
d = np.diff([l[0, 1] for l in v])
assert np.allclose(d, 36.0, atol=0.01), d
""")

bug("c23-nearest", "C23", [(PREP, "        if any(dist_error < ratio):", "        if dist_error[0] < ratio or dist_error[-1] < ratio:")],
    "a dot whose second-nearest neighbour is the only one at a multiple of the spacing",
    "the dot is removed although a neighbour is at the expected distance",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
m = np.zeros((120, 120), np.int16)
for y, x in ((50, 50), (50, 59), (60, 50), (50, 64), (100, 100), (90, 100), (100, 90), (100, 110)):
    m[y - 1:y + 2, x - 1:x + 2] = 1
r = prep.select_dots_based_distance(m, 10.0, ratio=0.3)
assert r[50, 50] == 1
""")

bug("c24-order", "C24", [(PREP, "    lines_selected = sorted(\n        lines_selected, key=lambda list_: np.mean(list_[:, 1]))\n    return lines_selected\n\n\ndef remove_residual_dots_hor", "    lines_selected = sorted(\n        lines_selected, key=lambda list_: list_[0, 1])\n    return lines_selected\n\n\ndef remove_residual_dots_hor")],
    "tilted columns of which one starts lower than the others (missing first dots)",
    "the lines are not ordered from left to right",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
s = 0.35
pts = [(y * 10.0, x * 10.0 + s * y * 10.0) for x in range(4) for y in range(12) if not (x == 1 and y < 3)]
L = prep.group_dots_ver_lines(np.array(pts), s, 10.0, accepted_ratio=0.5)
m = [l[:, 1].mean() for l in L]
assert m == sorted(m), m
""")

bug("c31-flat", "C31", [(LINE, "    radius = int(np.clip(radius, 1, num_point // 4))", "    radius = int(np.clip(radius, 3, num_point // 4))")],
    "a radius below three samples with closely spaced extrema",
    "narrow extrema next to deeper ones are not reported",
    """
import numpy as np
from discorpy.prep import linepattern as lp
d = np.full(40, 10.0)
d[15], d[17] = 2.0, 4.0
p = lp.get_local_extrema_points(d, option="min", radius=1, denoise=False, norm=False, subpixel=False)
assert list(p) == [15, 17], p
""")

bug("c32-vertical-window", "C32", [(LINE, "        xmin = np.int32(np.floor(np.amin(xlist)))", "        xmin = np.int32(np.round(np.amin(xlist)))")],
    "a vertical profile at a negative angle that ends between two columns, past the middle",
    "the sampled window starts one column late, the end of the profile repeats the first column",
    """
import numpy as np
from discorpy.prep import linepattern as lp
m = np.add.outer(np.zeros(30), np.arange(60.0))
for a in np.arange(-10, 11, 0.5):
    x, y, p = lp.get_tilted_profile(m, 25, a, "vertical")
    assert np.abs(p - x).max() < 0.2, (a, np.abs(p - x).max())
""")

bug("c36-number", "C36", [(LOSA, "            name_add = f\"_{nfile:04d}\"", "            name_add = f\"_{nfile % 10:04d}\"")],
    "more than ten saved versions of one file",
    "the search for a free name never ends",
    """
import os, signal, tempfile
from discorpy.losa import loadersaver as losa
d = tempfile.mkdtemp()
signal.alarm(60)
seen = set()
for i in range(13):
    p = str(losa.save_metadata_txt(os.path.join(d, "a.txt"), 1.0, 2.0, [i], overwrite=False))
    assert p not in seen
    seen.add(p)
""")

bug("c37-step", "C37", [(LOSA, "                    list_index = list(range(start, stop, step))", "                    list_index = list(range(start, stop))[:(stop - start)\n                                                          // step * step:step]")],
    "a range whose length is not a multiple of the step",
    "the last selected slice is missing",
    """
import os, tempfile
import numpy as np
from discorpy.losa import loadersaver as losa
d = tempfile.mkdtemp()
a = np.arange(120.0).reshape(10, 3, 4)
p = losa.save_hdf_file(os.path.join(d, "a.hdf"), a)
r = losa.load_hdf_file(p, "entry/data", index=(0, 10, 3))
assert r.shape[0] == 4, r.shape
""")
