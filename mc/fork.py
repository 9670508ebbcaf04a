"""Run a function in a fresh forked child and get its (picklable) answer."""
import os
import pickle
import signal
import traceback


def child(func, limit=120):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                out = ("ok", func())
            except BaseException as e:
                out = ("error", f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-5))
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(("error", f"unpicklable: {e}"))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return "error", f"the process died (status {st})"
    return pickle.loads(data)
