"""Independent reference models (plain numpy, float64)."""
import os
import numpy as np
from scipy import ndimage as ndi

REPO = os.environ.get("VERIF_REPO", "/repo")


def require_repo():
    import discorpy
    p = os.path.realpath(list(discorpy.__path__)[0])
    assert p.startswith(os.path.realpath(REPO) + os.sep), p


def F(r, coefs):
    """Radial polynomial, Horner."""
    r = np.asarray(r, dtype=np.float64)
    acc = np.zeros_like(r)
    for c in reversed(list(coefs)):
        acc = acc * r + float(c)
    return acc


def radial(y, x, xc, yc, coefs):
    dy = np.asarray(y, dtype=np.float64) - yc
    dx = np.asarray(x, dtype=np.float64) - xc
    f = F(np.hypot(dx, dy), coefs)
    return yc + f * dy, xc + f * dx


def backward_coords(h, w, xc, yc, coefs):
    yy, xx = np.mgrid[0:h, 0:w]
    y, x = radial(yy, xx, xc, yc, coefs)
    return np.clip(y, 0, h - 1), np.clip(x, 0, w - 1)


def bilinear(img, y, x):
    """Own bilinear interpolation inside the image."""
    img = np.asarray(img, dtype=np.float64)
    h, w = img.shape
    y0 = np.clip(np.floor(y).astype(int), 0, max(h - 2, 0))
    x0 = np.clip(np.floor(x).astype(int), 0, max(w - 2, 0))
    y1 = np.minimum(y0 + 1, h - 1)
    x1 = np.minimum(x0 + 1, w - 1)
    fy = y - y0
    fx = x - x0
    return (img[y0, x0] * (1 - fy) * (1 - fx) + img[y0, x1] * (1 - fy) * fx +
            img[y1, x0] * fy * (1 - fx) + img[y1, x1] * fy * fx)


def interp(img, y, x, order, mode):
    if order == 1:
        return bilinear(img, y, x)
    a = np.asarray(img, dtype=np.float64)
    return ndi.map_coordinates(a, [y.ravel(), x.ravel()], order=order,
                               mode=mode).reshape(y.shape)


def texture(h, w, k=0):
    """Deterministic rough texture without symmetry, values in 0..200."""
    yy, xx = np.mgrid[0:h, 0:w]
    v = (yy * 37 + xx * 101 + (yy * xx) % 23 * 7 + (xx * xx) % 19 * 5 +
         (yy * yy) % 17 * 3 + k * 41) % 201
    return v.astype(np.float64)


def smooth(h, w):
    yy, xx = np.mgrid[0:h, 0:w]
    return (100.0 + 0.31 * xx - 0.17 * yy + 20 * np.sin(0.31 * xx + 0.2) +
            15 * np.cos(0.23 * yy - 0.4) + 0.01 * xx * yy / max(h, w))


def local_range(img, y, x):
    """max-min of img in the 4x4 window round each position (error scale)."""
    a = np.asarray(img, dtype=np.float64)
    mx = ndi.maximum_filter(a, 4, mode="nearest")
    mn = ndi.minimum_filter(a, 4, mode="nearest")
    r = mx - mn
    h, w = a.shape
    iy = np.clip(np.rint(y).astype(int), 0, h - 1)
    ix = np.clip(np.rint(x).astype(int), 0, w - 1)
    return r[iy, ix]


def rel_coefs(name, R):
    """Named families of coefficient lists, scaled to a radius R."""
    R = float(R)
    T = {
        "id": [1.0],
        "shrink": [0.8],
        "grow": [1.25],
        "zero": [0.0],
        "mirror": [-0.7],
        "lin": [1.0, 0.15 / R],
        "linm": [1.1, -0.2 / R],
        "barrel": [1.0, 0.0, -0.12 / R ** 2],
        "pin": [1.0, 0.0, 0.12 / R ** 2],
        "quad": [1.02, -0.05 / R, 0.06 / R ** 2, -0.08 / R ** 3],
        "five": [1.0, 0.03 / R, -0.08 / R ** 2, 0.05 / R ** 3, -0.03 / R ** 4],
        "fivep": [0.97, -0.02 / R, 0.05 / R ** 2, 0.02 / R ** 3, 0.04 / R ** 4],
        "six": [1.01, 0.02 / R, -0.03 / R ** 2, 0.04 / R ** 3, -0.05 / R ** 4,
                0.03 / R ** 5],
        "odd": [1.0, 0.0, 0.0, -0.1 / R ** 3],
        "last6": [1.0, 0, 0, 0, 0, 0, -0.1 / R ** 6],
        "strong": [1.3, -0.6 / R, 0.5 / R ** 2],
    }
    return T[name]


MONO = ["id", "shrink", "grow", "lin", "linm", "barrel", "pin", "quad", "five",
        "fivep", "six", "odd", "last6", "strong"]
ALL = MONO + ["zero", "mirror"]


def inverse_radius(rd, coefs, rmax):
    """ru with ru*F(ru) = rd by bisection (monotonic model)."""
    lo, hi = 0.0, float(rmax)
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mid * float(F(mid, coefs)) < rd:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def is_monotonic(coefs, rmax):
    r = np.linspace(0, rmax, 400)
    v = r * F(r, coefs)
    return bool(np.all(np.diff(v) > 0))
