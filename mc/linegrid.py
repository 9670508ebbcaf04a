"""Line-grid and chessboard images drawn from known geometry."""
import numpy as np


def coords(h, w, t_deg, oy=0.0, ox=0.0):
    """Coordinates across the horizontal (u) and vertical (v) lines of a grid
    tilted so that y increases with x for t > 0."""
    y, x = np.mgrid[:h, :w].astype(float)
    return across(y, x, h, w, t_deg, oy, ox)


def across(y, x, h, w, t_deg, oy=0.0, ox=0.0):
    t = np.deg2rad(t_deg)
    y, x = y - h / 2.0 - oy, x - w / 2.0 - ox
    return y * np.cos(t) - x * np.sin(t), x * np.cos(t) + y * np.sin(t)


def off(u, d):
    """Signed distance to the nearest line of spacing d."""
    return u - d * np.rint(u / d)


def lines(h, w, dh, dv, t_deg, oy=0.0, ox=0.0, sig=1.5):
    """1 on the lines, 0 between (Gaussian profile)."""
    u, v = coords(h, w, t_deg, oy, ox)
    return np.maximum(np.exp(-off(u, dh) ** 2 / (2 * sig * sig)), np.exp(-off(v, dv) ** 2 / (2 * sig * sig)))


def chess(h, w, dh, dv, t_deg, oy=0.0, ox=0.0, soft=0.7):
    u, v = coords(h, w, t_deg, oy, ox)
    def sq(a, d):
        s = np.tanh(off(a, d) / soft)
        return s * np.where(np.rint(a / d) % 2 == 0, 1, -1)
    return 0.5 * (1 + sq(u, dh) * sq(v, dv))
