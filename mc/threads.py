"""Controlled scheduler: runs two calls in two real threads, switching only at
the source lines of the package that the schedule names."""
import os
import sys
import threading
import discorpy

ROOT = os.path.dirname(os.path.realpath(discorpy.__file__)) + os.sep


def inside(frame, _known={}):
    fn = frame.f_code.co_filename
    r = _known.get(fn)
    if r is None:
        r = _known[fn] = os.path.realpath(fn).startswith(ROOT)
    return r


def record(func):
    """Runs func alone; returns its result and the lines it executed, in order."""
    seq = []

    def local(frame, event, arg):
        if event == "line":
            seq.append((frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name))
        return local

    def glob(frame, event, arg):
        return local if inside(frame) else None

    box = {}

    def body():
        sys.settrace(glob)
        try:
            box["r"] = func()
        except BaseException as e:
            box["e"] = e
        finally:
            sys.settrace(None)

    t = threading.Thread(target=body)
    t.start()
    t.join()
    if "e" in box:
        raise box["e"]
    return box["r"], seq


def points(seq, visits):
    """Indices of events: the first `visits` and the last visit of every line."""
    at = {}
    for i, p in enumerate(seq):
        at.setdefault(p, []).append(i)
    return sorted({i for v in at.values() for i in v[:visits] + v[-1:]})


def run(funcs, cuts, patience=4.0):
    """funcs: two calls. cuts: for each thread the event indices before which it
    is preempted (control goes to the other thread). Thread 0 starts. Returns
    the two outcomes ("ok", value) or ("raised", text), and the number of
    switches made; a thread that waits for a lock of the other is noticed by a
    timeout and the other one resumed."""
    go = [threading.Event(), threading.Event()]
    out = [None, None]
    info = {"switches": 0, "blocked": 0}

    def hand_over(me):
        if out[1 - me] is not None:
            return
        info["switches"] += 1
        go[me].clear()
        go[1 - me].set()
        if not go[me].wait(patience):
            info["blocked"] += 1

    def body(me):
        todo = sorted(cuts[me], reverse=True)
        n = 0

        def local(frame, event, arg):
            nonlocal n
            if event == "line":
                if todo and n >= todo[-1]:
                    todo.pop()
                    hand_over(me)
                n += 1
            return local

        def glob(frame, event, arg):
            return local if inside(frame) else None

        go[me].wait()
        if todo:
            sys.settrace(glob)
        try:
            r = ("ok", funcs[me]())
        except BaseException as e:
            r = ("raised", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
        out[me] = r
        go[1 - me].set()

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in (0, 1)]
    for t in ts:
        t.start()
    go[0].set()
    for t in ts:
        t.join()
    return out, info
