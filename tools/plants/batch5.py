POST = "discorpy/post/postprocessing.py"
UTIL = "discorpy/util/utility.py"
PROC = "discorpy/proc/processing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
LOSA = "discorpy/losa/loadersaver.py"
SPECS = []


def bug(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c09-portrait", "C09", [(UTIL, "    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))\n    check, frame", "    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, width - 1))\n    check, frame")],
    "a camera held upright: frames higher than wide",
    "the lower part of every shown frame repeats one row",
    """
import numpy as np
import cv2
from discorpy.util import utility as util
shown = []
cv2.imshow = lambda n, f: shown.append(f.copy())
cv2.waitKey = lambda t: -1
cv2.destroyAllWindows = lambda: None
F = np.uint8(np.add.outer(3 * np.arange(20), 10 * np.arange(12)) % 250 + 1)
class Cam:
    n = 0
    def get(self, k):
        return 12 if k == cv2.CAP_PROP_FRAME_WIDTH else 20
    def read(self):
        self.n += 1
        return (self.n < 3, F.copy())
    def release(self):
        pass
util.unwarp_video_cv2(Cam(), 6.0, 9.0, [1.0, 1e-3], pad=0)
e = util.unwarp_image_backward_cv2(F, 6.0, 9.0, [1.0, 1e-3], pad=0)
assert len(shown) == 2
for s in shown:
    assert s.shape == e.shape and np.array_equal(s, e)
""")

bug("c29-range", "C29", [(PREP, "    coarse_range = 30.0  # Degree\n", "    coarse_range = 16.0  # Degree\n")],
    "a pattern rotated by more than sixteen degrees",
    "the horizontal slope stops at the end of the searched range",
    """
import numpy as np
from scipy.ndimage import rotate
from discorpy.prep import preprocessing as prep
m = np.zeros((501, 501), np.float32)
Y, X = np.mgrid[:501, :501] - 250.0
t = np.deg2rad(22.0)
U, V = X * np.cos(t) + Y * np.sin(t), -X * np.sin(t) + Y * np.cos(t)
d = np.hypot(U - 30 * np.round(U / 30), V - 30 * np.round(V / 30))
m = np.float32(d < 5)
h = prep.calc_hor_slope(m, ratio=0.6)
assert abs(h - np.tan(t)) < 0.02, h
""")

bug("c42-from-forward", "C42", [(PROC, """                ru = ffactor * rd
                Amatrix.append(np.power(ru, list_expo))
                Bmatrix.append(Fb)
    Amatrix =""", """                ru = rd / Fb if Fb > 1.0 else rd
                Amatrix.append(np.power(ru, list_expo))
                Bmatrix.append(Fb)
    Amatrix ="""),
  (PROC, """                ru = ffactor * rd
                Amatrix.append(np.power(ru, list_expo))
                Bmatrix.append(Fb)
    for _, line in enumerate(list_ver_lines):""", """                ru = rd / Fb if Fb > 1.0 else rd
                Amatrix.append(np.power(ru, list_expo))
                Bmatrix.append(Fb)
    for _, line in enumerate(list_ver_lines):""")],
    "coefficients obtained by the forward fit with conversion, barrel distortion",
    "the equations use the distorted radius in place of the undistorted one, so that the corrected image keeps distortion",
    """
import numpy as np
from discorpy.proc import processing as proc
g = np.arange(-8, 9) * 50.0
Y, X = np.meshgrid(g + 7, g + 11, indexing="ij")
R = np.hypot(X, Y)
B = 1 - 4e-7 * R ** 2
H = [np.c_[(Y * B)[i], (X * B)[i]] + 600 for i in range(17)]
V = [np.c_[(Y * B)[:, i], (X * B)[:, i]] + 600 for i in range(17)]
f, b = proc.calc_coef_backward_from_forward(H, V, 600.0, 600.0, 5)
r = np.linspace(60, 450, 20)
q = lambda c, r: sum(k * r ** i for i, k in enumerate(c))
u = r * q(f, r)
d = u * q(b, u)
assert np.abs(d - r).max() < 0.3, np.abs(d - r).max()
""")

bug("c43-vertical-tab", "C43", [(LOSA, "        '\\v': r'\\v',\n", "")],
    "Windows and a plain string with a folder starting with v (a vertical tab)",
    "the file goes to another place than the one the path names",
    """
import os, tempfile, platform
import discorpy.losa.loadersaver as losa
platform.system = lambda: "Windows"
d = tempfile.mkdtemp()
os.makedirs(d + "/vol")
losa.save_metadata_json(d + "\\vol\\\\par.json", 1.0, 2.0, [1.0])
assert os.path.exists(d + "/vol/par.json"), os.listdir(d)
""")

