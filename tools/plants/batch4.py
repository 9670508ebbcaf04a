POST = "discorpy/post/postprocessing.py"
UTIL = "discorpy/util/utility.py"
PROC = "discorpy/proc/processing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
LOSA = "discorpy/losa/loadersaver.py"
SPECS = []


def bug(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c18-float-frame", "C18", [(PROC, "            [(point[0] + ycenter, point[1] + xcenter) for point in line])", "            [(point[0] + ycenter, point[1] + xcenter)\n             for point in np.round(line, 1)])")],
    "iterative vanishing-point centres or perspective correction at sub-pixel level",
    "points are rounded to a tenth of a pixel when the centre is put back",
    """
import numpy as np
from discorpy.proc import processing as proc
l = [np.asarray([[0.123, 0.456], [1.987, 2.345]])]
r = proc.update_center(l, 10.0, 20.0)
assert np.abs(r[0] - (l[0] + [20.0, 10.0])).max() < 1e-6
""")

bug("c18-rect-use", "C18", [(PROC, "    num_use = min(3, num_hline // 2 - 1, num_vline // 2 - 1)\n", ("    num_use = min(3, num_hline // 2 - 1)\n", 0))],
    "a pattern with few lines in one direction",
    "the spacing is measured over a different set of lines when the axes are exchanged, so the coefficients differ",
    """
import numpy as np
from discorpy.proc import processing as proc
gy, gx = np.arange(-9, 10) * 40.0 + 7, np.arange(-2, 3) * 60.0 + 11
Y, X = np.meshgrid(gy, gx, indexing="ij")
R = np.hypot(X, Y)
B = 1 - 4e-7 * R ** 2
H = [np.c_[(Y * B)[i], (X * B)[i]] + 600 for i in range(19)]
V = [np.c_[(Y * B)[:, i], (X * B)[:, i]] + 600 for i in range(5)]
f = proc.calc_coef_forward(H, V, 600.0, 600.0, 3)
T = lambda L: [l[:, ::-1] for l in L]
g = proc.calc_coef_forward(T(V), T(H), 600.0, 600.0, 3)
r = 300.0
a, b = (sum(c * r ** i for i, c in enumerate(q)) for q in (f, g))
assert abs(a - b) < 1e-5, (a, b)
""")

bug("c22-thin", "C22", [(PREP, "    if (height < 2) or (width < 2):\n        return check", "    if (height < 3) or (width < 3):\n        return check")],
    "round dots two pixels across",
    "shape selection removes every dot of two by two pixels",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
m = np.zeros((12, 12), np.int16)
m[2:4, 2:4] = 1
m[6:9, 6:9] = 1
assert np.array_equal(prep.select_dots_based_ratio(m), m)
""")

bug("c17-missing-warn", "C17", [(PROC, "    if (herror > threshold) or (verror > threshold):", "    if (herror > threshold) and (verror > threshold):")],
    "a line missing from one of the two sets only", "no warning about the missing line",
    """
import warnings
import numpy as np
from discorpy.proc import processing as proc
g = np.arange(-10, 11) * 40.0 + 7
Y, X = np.meshgrid(g, g, indexing="ij")
H = [np.c_[Y[i], X[i]] + 600 for i in range(21) if i != 13]
V = [np.c_[Y[:, i], X[:, i]] + 600 for i in range(21)]
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    proc.calc_coef_forward(H, V, 600.0, 600.0, 3)
assert any("missing" in str(i.message) for i in w)
""")

bug("c25-order", "C25", [(PREP, "    poly_fit = np.poly1d(np.polyfit(cx, cy, int(order)))", "    poly_fit = np.poly1d(np.polyfit(cx, cy, min(int(order),\n                                                len(cx) // 3)))")],
    "curved rows of which only few points lie in the middle", "rows are fitted by straight lines when the seed has fewer than six points",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
pts = np.asarray([(20.0 * i + 4e-4 * (20.0 * j - 200) ** 2, 20.0 * j) for i in range(8) for j in range(21)])
r = prep.group_dots_hor_lines_based_polyfit(pts, 0.0, 20.0, ratio=0.1, num_dot_miss=2)
assert [len(l) for l in r] == [21] * 8, [len(l) for l in r]
""")

bug("c25-dup", "C25", [(PREP, "                selected_points = np.unique(selected_points, axis=0)", ("                selected_points = np.unique(np.round(selected_points, 2),\n                                            axis=0)", 1))],
    "columns with sub-pixel coordinates", "coordinates of columns are rounded to hundredths",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
pts = np.asarray([(20.12345 * i, 20.54321 * j) for i in range(30) for j in range(8)])
r = prep.group_dots_ver_lines_based_polyfit(pts, 0.0, 20.0)
assert len(r) == 8 and all(np.abs(l[:, None] - pts[None]).sum(-1).min(1).max() < 1e-6 for l in r)
""")

bug("c29-argmax", "C29", [(PREP, "    best_angle = (list_angle[np.argmax(list_max)])", "    best_angle = np.clip(list_angle[np.argmax(list_max)], -20.0, 20.0)")],
    "columns tilted by more than 21 degrees", "the vertical slope is limited",
    """
import numpy as np
from discorpy.prep import preprocessing as prep
H = W = 500
y, x = np.mgrid[:H, :W]
for deg in (10.0, 24.0):
    t = np.deg2rad(deg)
    u = (x - 250) * np.cos(t) - (y - 250) * np.sin(t)
    v = (x - 250) * np.sin(t) + (y - 250) * np.cos(t)
    p = 20.0
    m = ((u / p - np.round(u / p)) ** 2 + (v / p - np.round(v / p)) ** 2 < 0.06).astype(np.int16)
    s = prep.calc_ver_slope(m, ratio=0.5)
    assert abs(s - np.tan(t)) < 0.01, (deg, s)
""")

bug("c32-neg-index", "C32", [(LINE, "    if (index < min_idx) or (index > max_idx):", "    if (index < 0) or (index > max_idx):")],
    "an index below the possible range", "an index for which the line leaves the image is accepted",
    """
import numpy as np
from discorpy.prep import linepattern as lprep
try:
    lprep.get_tilted_profile(np.zeros((40, 40)), 1, 10.0, "horizontal")
except ValueError:
    pass
else:
    raise SystemExit(1)
""")

bug("c33-chess-scale", "C33", [(LINE, "        ylist1 = rlist * np.sin(angle) + ylist[0]", "        ylist1 = rlist * np.sin(np.abs(angle)) + ylist[0]")],
    "horizontal lines tilted downwards on the left", "cross points on vertical lines are mirrored for negative slopes",
    """
import numpy as np
from discorpy.prep import linepattern as lprep
H = W = 300
y, x = np.mgrid[:H, :W]
for deg in (8.0, -8.0):
    t = np.deg2rad(deg)
    u = (x - 150) * np.cos(t) + (y - 150) * np.sin(t)
    d = 40.0
    m = 1.0 - np.exp(-((u / d - np.round(u / d)) * d / 3) ** 2)
    pts = lprep.get_cross_points_ver_lines(m, np.tan(t), d)
    pu = (pts[:, 1] - 150) * np.cos(t) + (pts[:, 0] - 150) * np.sin(t)
    e = np.abs(pu / d - np.round(pu / d)) * d
    assert len(pts) > 20 and np.percentile(e, 95) < 2.0, (deg, np.percentile(e, 95))
""")

