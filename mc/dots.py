"""Dot-pattern images drawn from known centres (independent of discorpy)."""
import numpy as np


def draw(h, w, centres, r, soft=False):
    """0/1 image (or edges smoothed over one pixel) of discs at (y, x) centres."""
    img = np.zeros((h, w))
    R = int(np.ceil(r + 2))
    for cy, cx in np.asarray(centres, float).reshape(-1, 2):
        y0, y1, x0, x1 = max(0, int(cy) - R), min(h, int(cy) + R + 1), max(0, int(cx) - R), min(w, int(cx) + R + 1)
        if y0 >= y1 or x0 >= x1:
            continue
        y, x = np.mgrid[y0:y1, x0:x1]
        d = np.hypot(y - cy, x - cx)
        v = np.clip(r + 0.5 - d, 0, 1) if soft else (d <= r).astype(float)
        img[y0:y1, x0:x1] = np.maximum(img[y0:y1, x0:x1], v)
    return img


def lattice(h, w, d, t_deg, oy=0.0, ox=0.0, dx=None):
    """All points of a tilted lattice (rows: y increases with x for t > 0) that
    fall in the image, as dict (i, j) -> (y, x), origin in the middle."""
    dx = dx or d
    t = np.deg2rad(t_deg)
    n = int(np.hypot(h, w) / min(d, dx)) + 2
    out = {}
    for i in range(-n, n + 1):
        for j in range(-n, n + 1):
            u, v = i * d, j * dx
            y = h / 2 + oy + u * np.cos(t) + v * np.sin(t)
            x = w / 2 + ox + v * np.cos(t) - u * np.sin(t)
            if -0.5 <= y < h - 0.5 and -0.5 <= x < w - 0.5:
                out[i, j] = (y, x)
    return out
