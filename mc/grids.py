"""Synthetic grids distorted by a known radial model (independent of discorpy)."""
import numpy as np
from mc import ref


def base_grid(ny, nx, dy, dx, oy, ox, angle_deg=0.0):
    """(ny, nx, 2) array of undistorted (y, x) points; (oy, ox) is the position
    of the grid's middle, angle turns rows so that y increases with x."""
    a = np.deg2rad(angle_deg)
    j, i = np.meshgrid(np.arange(nx) - (nx - 1) / 2.0, np.arange(ny) - (ny - 1) / 2.0)
    x, y = j * dx, i * dy
    return np.stack([oy + y * np.cos(a) + x * np.sin(a), ox + x * np.cos(a) - y * np.sin(a)], axis=2)


def distort(g, xc, yc, co):
    y, x = ref.radial(g[..., 0], g[..., 1], xc, yc, co)
    return np.stack([y, x], axis=-1)


def lines(g):
    hor = [np.array(g[i, :, :]) for i in range(g.shape[0])]
    ver = [np.array(g[:, j, :]) for j in range(g.shape[1])]
    return hor, ver


def models(R):
    """name -> backward coefficients (monotonic), corner displacement a few %."""
    return {
        "b1": [1.0, 0.0, -0.02 / R ** 2],
        "b2": [1.0, 0.0, -0.05 / R ** 2],
        "b3": [1.0, -0.01 / R, -0.03 / R ** 2],
        "p1": [1.0, 0.0, 0.02 / R ** 2],
        "p2": [1.0, 0.0, 0.05 / R ** 2],
        "b5": [1.0, -0.003 / R, -0.03 / R ** 2, 0.004 / R ** 3, -0.008 / R ** 4],
        "p5": [1.0, 0.002 / R, 0.03 / R ** 2, -0.003 / R ** 3, 0.006 / R ** 4],
    }


def perspective(g, c, yc=0.0, xc=0.0):
    """Apply homography [c1..c8] about (yc, xc)."""
    x, y = g[..., 1] - xc, g[..., 0] - yc
    d = c[6] * x + c[7] * y + 1.0
    return np.stack([yc + (c[3] * x + c[4] * y + c[5]) / d, xc + (c[0] * x + c[1] * y + c[2]) / d], axis=-1)
