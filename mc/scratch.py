"""Scratch folders for checks that write files (never outside $VERIF_SCRATCH)."""
import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def folder():
    root = os.environ["VERIF_SCRATCH"]
    d = os.path.realpath(tempfile.mkdtemp(prefix="w", dir=root))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def snapshot(d):
    """{relative path: bytes} of all files below d (None for folders)."""
    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(r, n), d)] = None
        for n in fs:
            p = os.path.join(r, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
