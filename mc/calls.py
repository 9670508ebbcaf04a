"""Catalogue of public calls with deterministic arguments.

CALLS[name] = (function, build) where build(v, d) returns (args, kwargs) made
afresh; variants 0 and 2 have the same shapes but other values, 1 other shapes.
d is a scratch folder.
"""
import copy
import os
import numpy as np
from mc import grids, dots, linegrid
from discorpy.losa import loadersaver as losa
from discorpy.post import postprocessing as post
from discorpy.prep import linepattern as lp
from discorpy.prep import preprocessing as prep
from discorpy.proc import processing as proc
from discorpy.util import utility as util

CALLS = {}


def reg(func, name=None):
    def deco(build):
        CALLS[name or func.__name__] = (func, build)
        return build
    return deco


# ---- data ------------------------------------------------------------------
CO = {0: [1.0, 1e-3, -2e-5], 1: [1.0, -1e-3, 3e-5, 1e-7], 2: [1.01, -2e-3, 1e-5]}
CE = {0: (15.3, 10.2), 1: (12.0, 19.5), 2: (9.1, 14.4)}
SH = {0: (24, 30), 1: (33, 21), 2: (24, 30)}


def img(v, c=None, dt=np.float64):
    h, w = SH[v]
    y, x = np.mgrid[:h, :w]
    m = 50 + 20 * np.sin(x / (3.0 + v)) * np.cos(y / 4.0) + ((x * 7 + y * 13 + 5 * v) % 11)
    if c:
        m = np.stack([m + 3 * k for k in range(c)], axis=2)
    return m.astype(dt)


def grid(v, persp=False):
    ny, nx = [(9, 10), (11, 8), (9, 10)][v]
    t = [2.0, -4.0, 5.0][v]
    d = [20.0, 24.0, 21.0][v]
    g = grids.base_grid(ny, nx, d, d, ny * d / 2 + 7, nx * d / 2 + 3 * v, t)
    if persp:
        g = grids.perspective(g, [1.02, 0.01, 0, 0.02, 0.99, 0, 2e-5, 1e-5], ny * d / 2, nx * d / 2)
    return g


def curved(v):
    g = grid(v)
    R = 0.5 * np.hypot(*np.ptp(g.reshape(-1, 2), axis=0))
    xc, yc = g[..., 1].mean() + 5.3 + v, g[..., 0].mean() - 4.1 * (v + 1)
    H, V = grids.lines(grids.distort(g, xc, yc, [1.0, 0.0, [-0.04, 0.03, 0.05][v] / R ** 2]))
    return H, V, xc, yc


def dotimg(v):
    h, w = [(150, 150), (170, 140), (150, 150)][v]
    c = dots.lattice(h, w, [14.0, 15.0, 14.5][v], [3.0, -5.0, 6.0][v])
    return dots.draw(h, w, list(c.values()), 3.2)


def lineimg(v):
    h, w = [(150, 150), (140, 160), (150, 150)][v]
    return 1.0 - linegrid.lines(h, w, 20.0 + v, 19.0 + v, [2.0, -3.0, -1.0][v])


def points(v):
    return np.array([p for l in curved(v)[0] for p in l])


def profile(v):
    n = [80, 95, 80][v]
    x = np.arange(n)
    return 10 + np.cos(x / (2.5 + 0.3 * v)) * 4 + 0.01 * x


# ---- post --------------------------------------------------------------------
@reg(post.unwarp_line_forward)
def _(v, d):
    return (curved(v)[0][:4], *CE[v], np.array(CO[v]) * [1, .01, .001, .0001][:len(CO[v])]), {}


@reg(post.unwarp_line_backward)
def _(v, d):
    return ([l[:3] for l in curved(v)[0][:2]], 80.0 + v, 60.0, [1.0, 1e-4 * (v + 1)]), {}


@reg(post.unwarp_image_backward)
def _(v, d):
    return (img(v), *CE[v], CO[v]), {}


@reg(post.unwarp_image_backward, "unwarp_image_backward cubic")
def _(v, d):
    return (img(v, dt=np.float32), *CE[v], np.array(CO[v])), {"order": 3, "mode": "constant"}


@reg(post.unwarp_image_forward)
def _(v, d):
    return (img(v), *CE[v], CO[v]), {}


@reg(post.unwarp_slice_backward)
def _(v, d):
    return (np.stack([img(v), img(v) + 1, img(v) * 2]), *CE[v], CO[v], 5 + v), {}


@reg(post.unwarp_chunk_slices_backward)
def _(v, d):
    return (np.stack([img(v), img(v) + 1, img(v) * 2]), *CE[v], CO[v], 3 + v, 9), {}


@reg(post.calc_residual_hor)
def _(v, d):
    return (curved(v)[0], *CE[v]), {}


@reg(post.calc_residual_ver)
def _(v, d):
    return (curved(v)[1], *CE[v]), {}


@reg(post.check_distortion)
def _(v, d):
    return (np.stack([np.arange(20.0), np.arange(20.0) % (3 + v)], axis=1),), {}


PC = {0: [1.0, 0.02, 1.0, -0.01, 0.98, 2.0, 1e-4, 2e-4], 1: [0.97, 0.0, 0.5, 0.01, 1.02, -1.0, -1e-4, 1e-4], 2: [1.03, 0.01, -1.0, 0.02, 1.0, 1.0, 2e-4, -1e-4]}


@reg(post.correct_perspective_line)
def _(v, d):
    return (curved(v)[0], PC[v]), {}


@reg(post.correct_perspective_image)
def _(v, d):
    return (img(v), PC[v]), {}


# ---- proc --------------------------------------------------------------------
for _f in (proc.find_cod_coarse, proc.find_cod_bailey, proc.find_center_based_vanishing_points, proc.find_center_based_vanishing_points_iteration,
           proc.regenerate_grid_points_linear, proc.regenerate_grid_points_parabola):
    CALLS[_f.__name__] = (_f, lambda v, d: (curved(v)[:2], {}))
for _f in (proc.calc_coef_backward, proc.calc_coef_forward, proc.calc_coef_backward_from_forward):
    CALLS[_f.__name__] = (_f, lambda v, d: ((*curved(v), 3 + v % 2), {}))
    CALLS[_f.__name__ + " optimizing"] = (_f, lambda v, d: ((*curved(v), 4), {"optimizing": True}))
for _f in (proc.generate_undistorted_perspective_lines, proc.generate_source_target_perspective_points):
    CALLS[_f.__name__] = (_f, lambda v, d: (grids.lines(grid(v, True)), {}))


@reg(proc.regenerate_grid_points_parabola, "regenerate_grid_points_parabola perspective")
def _(v, d):
    return curved(v)[:2], {"perspective": True}


@reg(proc.find_cod_fine)
def _(v, d):
    H, V, x, y = curved(v)
    return (H[:5], V[:5], x + 1, y - 1, 1), {}


@reg(proc.transform_coef_backward_and_forward)
def _(v, d):
    return ([1.0, 1e-4 * (v + 1), -1e-8],), {"mapping": "forward" if v == 1 else "backward", "ref_points": [[i, j] for i in range(-200, 200, 50) for j in range(-100, 100, 50)]}


@reg(proc.generate_4_source_target_perspective_points)
def _(v, d):
    return ([[10.0, 12.0 + v], [14.0, 90.0], [80.0, 8.0], [85.0 + v, 97.0]],), {"scale": ["mean", "max", "min"][v]}


@reg(proc.calc_perspective_coefficients)
def _(v, d):
    return (np.array([[10.0, 12.0 + v], [14.0, 90.0], [80.0, 8.0], [85.0, 97.0]]), np.array([[10.0, 10.0], [10.0, 90.0], [80.0 + v, 10.0], [80.0 + v, 90.0]])), {}


@reg(proc.update_center)
def _(v, d):
    return (curved(v)[0], 3.5 + v, -2.0), {}


@reg(proc.correct_perspective_effect)
def _(v, d):
    return curved(v), {}


# ---- prep --------------------------------------------------------------------
@reg(prep.normalization)
def _(v, d):
    return (img(v), 7), {}


@reg(prep.normalization_fft)
def _(v, d):
    return (img(v), 6), {"pad": 10}


@reg(prep.binarization)
def _(v, d):
    return (dotimg(v) * 100 + 10,), {}


for _f in (prep.check_num_dots, prep.calc_size_distance, prep.select_dots_based_ratio):
    CALLS[_f.__name__] = (_f, lambda v, d: ((np.int16(dotimg(v)),), {}))
for _f in (prep.calc_hor_slope, prep.calc_ver_slope):
    CALLS[_f.__name__] = (_f, lambda v, d: ((np.int16(dotimg(v)),), {"ratio": 0.6}))


@reg(prep.select_dots_based_size)
def _(v, d):
    return (np.int16(dotimg(v)), 32 + v), {}


@reg(prep.select_dots_based_distance)
def _(v, d):
    return (np.int16(dotimg(v)), 14.0), {}


@reg(prep.group_dots_hor_lines)
def _(v, d):
    return (points(v), np.tan(np.deg2rad([2.0, -4.0, 5.0][v])), 21.0), {}


@reg(prep.group_dots_ver_lines)
def _(v, d):
    return (points(v), -np.tan(np.deg2rad([2.0, -4.0, 5.0][v])), 21.0), {}


@reg(prep.group_dots_hor_lines_based_polyfit)
def _(v, d):
    return (points(v), np.tan(np.deg2rad([2.0, -4.0, 5.0][v])), 21.0), {}


@reg(prep.group_dots_ver_lines_based_polyfit)
def _(v, d):
    return (points(v), -np.tan(np.deg2rad([2.0, -4.0, 5.0][v])), 21.0), {}


@reg(prep.remove_residual_dots_hor)
def _(v, d):
    return ([l + 0.3 * np.array([[(i * 7) % 3, 0] for i in range(len(l))]) for l in curved(v)[0]], 0.05), {"residual": 0.25 + 0.05 * v}


@reg(prep.remove_residual_dots_ver)
def _(v, d):
    return ([l + 0.3 * np.array([[0, (i * 7) % 3] for i in range(len(l))]) for l in curved(v)[1]], 0.05), {"residual": 0.25 + 0.05 * v}


@reg(prep.calculate_threshold)
def _(v, d):
    return (img(v),), {"bgr": "dark" if v == 1 else "bright"}


@reg(prep.make_parabola_mask)
def _(v, d):
    return (60, 70), {"hor_margin": (8 + v, 10), "ver_margin": 9, "rotate": 0.0 if v else 5.0}


@reg(prep.remove_points_using_parabola_mask)
def _(v, d):
    return (points(v), 190, 200), {"hor_margin": 20 + v, "ver_margin": [15, 20]}


@reg(prep.get_points_dot_pattern)
def _(v, d):
    return (dotimg(v),), {"binarize": v == 1}


@reg(prep.rotate_points)
def _(v, d):
    return (points(v), 10.0 + v), {}


@reg(prep.remove_subset_points)
def _(v, d):
    p = points(v)
    return (p[3:9 + v], p), {}


# ---- line pattern ----------------------------------------------------------------
@reg(lp.locate_subpixel_point)
def _(v, d):
    return ([5.0, 2.0 - v, 3.0],), {}


@reg(lp.select_good_peaks)
def _(v, d):
    x = np.arange(90.0)
    return (np.exp(-(x - 30 - v) ** 2 / 20) + 0.7 * np.exp(-(x - 61) ** 2 / 20), [30 + v, 61]), {}


@reg(lp.sliding_window_slope)
def _(v, d):
    return (profile(v),), {"size": 5}


@reg(lp.get_local_extrema_points)
def _(v, d):
    return (profile(v),), {"option": "max" if v == 2 else "min", "sensitive": 0.05}


@reg(lp.get_tilted_profile)
def _(v, d):
    return (img(v), 8, 5.0 * (v - 1), "horizontal" if v == 0 else "vertical"), {}


@reg(lp.convert_chessboard_to_linepattern)
def _(v, d):
    return (linegrid.chess(60, 70 if v != 1 else 50, 12.0, 12.0 + v, 3.0),), {}


for _f in (lp.calc_slope_distance_hor_lines, lp.calc_slope_distance_ver_lines):
    CALLS[_f.__name__] = (_f, lambda v, d: ((lineimg(v),), {"ratio": 0.7, "search_range": 5.0, "radius": 5}))


@reg(lp.get_cross_points_hor_lines)
def _(v, d):
    return (lineimg(v), 0.03 * (v - 1), 19.0), {"radius": 5, "norm": False}


@reg(lp.get_cross_points_ver_lines)
def _(v, d):
    return (lineimg(v), -0.03 * (v - 1), 20.0), {"radius": 5, "norm": False}


# ---- util ----------------------------------------------------------------------
@reg(util.make_circle_mask)
def _(v, d):
    return (9 + v, 0.9), {}


@reg(util.make_dot_pattern)
def _(v, d):
    return (), {"height": 50 + v % 2, "width": 60, "dot_distance": 10 + v, "dot_size": 5, "margin": [5, (4, 6), 7][v]}


@reg(util.make_line_pattern)
def _(v, d):
    return (), {"height": 50 + v % 2, "width": 60, "line_distance": 10 + v, "line_size": 3, "margin": [5, (4, 6), 7][v]}


@reg(util.make_chessboard)
def _(v, d):
    return (), {"height": 50 + v % 2, "width": 60, "size": 8 + v, "margin": 4, "margin_grayscale": 0.5 + 0.1 * v}


@reg(util.find_point_to_point)
def _(v, d):
    return ((3.0 + v, 25.0), *CE[v], CO[v]), {"output_order": "yx" if v == 1 else "xy"}


@reg(util.unwarp_color_image_backward)
def _(v, d):
    return (img(v, 3), *CE[v], CO[v]), {"pad": [True, 3, (1, 2, 3, 4)][v]}


@reg(util.unwarp_color_image_backward, "unwarp_color_image_backward grey")
def _(v, d):
    return (img(v), *CE[v], [1.0, -2e-3 * (v + 1)]), {"pad": True}


@reg(util.mapping_cv2)
def _(v, d):
    h, w = SH[v]
    y, x = np.mgrid[:h, :w].astype(np.float32)
    return (img(v, dt=np.float32), x * 0.9 + 1 + v, y * 0.95), {}


@reg(util.unwarp_image_backward_cv2)
def _(v, d):
    return (img(v, [None, 3, None][v], np.float32), *CE[v], CO[v]), {"pad": v == 1}


# ---- files ---------------------------------------------------------------------
def _p(d, n):
    return os.path.join(d, n)


class Shown(list):
    pass


def _fresh(d, n):
    """A folder made for this call only."""
    import tempfile
    return os.path.join(tempfile.mkdtemp(dir=d), n)


def _read(path):
    with open(path, "rb") as f:
        b = f.read()
    return os.path.basename(str(path)), b


def _plot(func):
    def run(path, *a, **k):
        return _read(func(path, *a, **k))
    return run


def _hdf(path):
    import h5py
    with h5py.File(path, "r") as f:
        return os.path.basename(str(path)), f["entry/data"][()]


CALLS["save_image"] = (lambda *a, **k: _read(losa.save_image(*a, **k)), lambda v, d: ((_fresh(d, "a.png" if v != 1 else "a.tif"), img(v, dt=np.float32)), {}))
CALLS["save_plot_image"] = (_plot(losa.save_plot_image), lambda v, d: ((_fresh(d, "p.png"), curved(v)[0][:2], 60, 80), {"dpi": 30}))
CALLS["save_plot_points"] = (_plot(losa.save_plot_points), lambda v, d: ((_fresh(d, "p.png"), points(v)[:3], 60, 80), {"dpi": 30}))
CALLS["save_residual_plot"] = (_plot(losa.save_residual_plot), lambda v, d: ((_fresh(d, "p.png"), np.stack([np.arange(5.0), np.arange(5.0) ** 2 + v], axis=1), 60, 80), {"dpi": 30}))
CALLS["save_hdf_file"] = (lambda *a, **k: _hdf(losa.save_hdf_file(*a, **k)), lambda v, d: ((_fresh(d, "a.hdf"), img(v)), {}))
CALLS["save_metadata_txt"] = (_plot(losa.save_metadata_txt), lambda v, d: ((_fresh(d, "a.txt"), *CE[v], CO[v]), {}))
CALLS["save_metadata_json"] = (_plot(losa.save_metadata_json), lambda v, d: ((_fresh(d, "a.json"), *CE[v], np.array(CO[v])), {}))
CALLS["save_python_list"] = (_plot(losa.save_python_list), lambda v, d: ((_fresh(d, "a.pkl"), [v, [1, 2.5]]), {}))


def _stream(path, v):
    s = losa.open_hdf_stream(path, (2, 3), options={"angles": [1.0, v]})
    s[:] = v
    f = s.file
    out = {k: f[k][()] for k in ("entry/data", "angles")}
    f.close()
    return sorted(out.items())


CALLS["open_hdf_stream"] = (_stream, lambda v, d: ((_fresh(d, "s.hdf"), v), {}))


def _mk(kind):
    """Arguments of the loaders: a file written without discorpy."""
    def build(v, d):
        import h5py
        import json
        import pickle
        from PIL import Image
        p = _fresh(d, {"img": "a.png", "hdf": "a.hdf", "txt": "a.txt", "json": "a.json", "pkl": "a.pkl"}[kind])
        if kind == "img":
            Image.fromarray(img(v, 3 if v == 1 else None, np.uint8)).save(p)
        elif kind == "hdf":
            with h5py.File(p, "w") as f:
                f["entry/data"] = np.stack([img(v), img(v) + 1])
                f["entry/x%d" % v] = [1, 2]
                f.create_group("empty")
        elif kind == "txt":
            with open(p, "w") as f:
                f.write("xcenter = 1.5\nycenter = %d.25\nfactor0 = 1.0\n" % v)
        elif kind == "json":
            with open(p, "w") as f:
                json.dump({"xcenter": 1.5, "ycenter": v + .25, "list_fact": [1.0, v]}, f)
        else:
            with open(p, "wb") as f:
                pickle.dump([v, "a"], f)
        return (p,), {}
    return build


CALLS["load_image"] = (losa.load_image, _mk("img"))
CALLS["get_hdf_information"] = (losa.get_hdf_information, _mk("hdf"))
CALLS["find_hdf_key"] = (lambda p: losa.find_hdf_key(p, "data"), _mk("hdf"))
CALLS["load_hdf_file"] = (lambda p: losa.load_hdf_file(p, "entry/data", index=(0, 1)), _mk("hdf"))
CALLS["load_hdf_object"] = (lambda p: losa.load_hdf_object(p, "entry/data")[()], _mk("hdf"))
CALLS["load_metadata_txt"] = (losa.load_metadata_txt, _mk("txt"))
CALLS["load_metadata_json"] = (losa.load_metadata_json, _mk("json"))
CALLS["load_python_list"] = (losa.load_python_list, _mk("pkl"))
CALLS["find_file"] = (lambda p: [os.path.basename(x) for x in losa.find_file(p)], _mk("txt"))

for _n, (_f, _b) in list(CALLS.items()):
    # arguments made afresh, nothing shared with this module
    CALLS[_n] = (_f, lambda v, d, _b=_b: copy.deepcopy(_b(v, d)))
