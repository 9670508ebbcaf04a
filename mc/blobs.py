"""Reference labelling of binary images and a catalogue of dot shapes."""
import numpy as np


def components(img):
    """4-connected components as lists of (y, x), by flood fill."""
    img = np.asarray(img) != 0
    todo = {(int(y), int(x)) for y, x in zip(*np.nonzero(img))}
    out = []
    while todo:
        p = min(todo)
        todo.discard(p)
        comp, stack = [p], [p]
        while stack:
            y, x = stack.pop()
            for q in ((y + 1, x), (y - 1, x), (y, x + 1), (y, x - 1)):
                if q in todo:
                    todo.discard(q)
                    comp.append(q)
                    stack.append(q)
        out.append(comp)
    return out


def axes_excess(comp):
    """major axis / minor axis - 1 of a set of pixels (None: no area)."""
    p = np.asarray(comp, float)
    if len(set(p[:, 0])) < 2 or len(set(p[:, 1])) < 2:
        return None
    d = p - p.mean(axis=0)
    a, b, c = (d[:, 0] ** 2).mean(), (d[:, 0] * d[:, 1]).mean(), (d[:, 1] ** 2).mean()
    r = np.sqrt((a - c) ** 2 / 4 + b * b)
    l1, l2 = (a + c) / 2 + r, (a + c) / 2 - r
    return np.sqrt(l1 / l2) - 1


def disc(r):
    y, x = np.mgrid[-r:r + 1, -r:r + 1]
    return (x * x + y * y <= r * r + 0.5).astype(int)


def catalogue():
    ring = np.ones((9, 9), int)
    ring[2:7, 2:7] = 0
    big = np.ones((15, 15), int)
    big[2:13, 2:13] = 0
    cee = ring.copy()
    cee[3:6, 7:] = 0
    ell = np.zeros((8, 8), int)
    ell[:, :2] = 1
    ell[6:, :] = 1
    stair = np.zeros((7, 7), int)
    for i in range(6):
        stair[i, i] = stair[i, i + 1] = 1
    return {"d1": disc(1), "d2": disc(2), "d3": disc(3), "sq": np.ones((2, 2), int), "px": np.ones((1, 1), int),
            "bar": np.ones((1, 6), int), "rect": np.ones((6, 3), int), "ring": ring, "big": big, "cee": cee, "ell": ell, "stair": stair,
            "cross": np.pad(np.ones((3, 7), int), ((2, 2), (0, 0))) | np.pad(np.ones((7, 3), int), ((0, 0), (2, 2)))}


def paste(img, shape, y, x):
    h, w = shape.shape
    img[y:y + h, x:x + w] |= shape.astype(img.dtype)
