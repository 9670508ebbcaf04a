import itertools
import numpy as np
import cv2
from mc import ref
from discorpy.util import utility as util

ref.require_repo()
cv2.setNumThreads(1)
PADS = [True, False, 0, 4, (1, 2, 3, 4), (3, 0, 0, 0), (0, 0, 0, 5)]


MODES = [{}, {"pad_mode": "edge"}, {"border": cv2.BORDER_REPLICATE, "method": cv2.INTER_LINEAR}, {"border": cv2.BORDER_REFLECT, "method": cv2.INTER_CUBIC, "pad_mode": "reflect"}]


class Runaway(BaseException):
    pass


class Camera:
    """Scripted camera: delivers the frames, then reports the end of stream."""

    def __init__(self, frames, h, w, log):
        self.frames, self.h, self.w, self.log = list(frames), h, w, log
        self.pos = 0
        self.after_end = 0
        self.released = 0

    def get(self, prop):
        if prop == cv2.CAP_PROP_FRAME_WIDTH:
            return float(self.w)
        if prop == cv2.CAP_PROP_FRAME_HEIGHT:
            return float(self.h)
        return 0.0

    def isOpened(self):
        return self.released == 0

    def read(self):
        if self.released:
            self.log.append(("read-after-release",))
        if self.pos < len(self.frames):
            f = self.frames[self.pos]
            self.pos += 1
            self.log.append(("frame", self.pos - 1))
            return True, f.copy()
        self.after_end += 1
        self.log.append(("end",))
        if self.after_end > 20:
            raise Runaway()
        return False, None

    def release(self):
        self.released += 1
        self.log.append(("release",))


class Check:
    PID = "C09"
    RULE = ("state = (environment history: frames then end of stream, key answers, pad, frame kind); the real loop runs against a scripted camera and "
            "window system; shown frames compared with still-image unwarping and the event log with the specification automaton")
    BOUNDS = {"quick": "all histories of 0..4 frames x all key sequences over {none, other key, ESC} x 7 pads x grey/colour x 2 models; 7 frame shapes (upright, square, very narrow) x 3 centres x pads x 4 models x interpolation, border and pad modes in rotation; all sequences of 1..4 frames over {black, white, the same again, other}",
              "thorough": "all histories of 0..6 frames x all key sequences over {none, other key, ESC} x 7 pads x grey/colour x 4 models x 2 methods; 7 frame shapes x 3 centres x pads x 4 models x 4 settings"}
    ASSUMPTIONS = ["the camera reports the end of the stream by a failed read, as OpenCV does"]

    def space(self, tier):
        deep = tier == "thorough"
        for n in range(0, 7 if deep else 5):
            for keys in itertools.product((-1, 113, 27), repeat=n):
                if 27 in keys and keys.index(27) < n - 1 and any(k != -1 for k in keys[keys.index(27) + 1:]):
                    continue  # keys after ESC are never asked for
                for p in range(len(PADS)):
                    for ch in (0, 3):
                        for c in (["barrel", "five"] if not deep else ["barrel", "five", "pin", "lin"]):
                            for m in ([None] if not deep else [None, "nearest"]):
                                yield {"n": n, "keys": list(keys), "p": p, "ch": ch, "c": c, "m": m}
        for sh in ((24, 17), (17, 17), (9, 31), (31, 9), (1, 12), (12, 1), (2, 40)):
            for cen in ((0.45, 0.55), (0.1, 0.9), (0.9, 0.1)):
                for p in range(len(PADS)):
                    for ch in (0, 3):
                        for c in ("barrel", "five", "pin", "lin"):
                            for mode in range(len(MODES)):
                                if not deep and (p + ch + mode + sh[0]) % 3:
                                    continue
                                yield {"n": 2, "keys": [-1, -1], "p": p, "ch": ch, "c": c, "m": None, "sh": sh, "cen": cen, "mode": mode}
        # what a frame holds is no reason to skip it: black, white, the same again
        for n in range(1, 6 if deep else 5):
            for body in itertools.product("kwsd", repeat=n):
                for p in (0, 1):
                    yield {"n": n, "keys": [-1] * n, "p": p, "ch": 3 * (n % 2), "c": "barrel", "m": None, "body": "".join(body)}
        # long streams
        for n in (40, 70, 150, 300) + ((1100, 3000) if deep else ()):
            for esc in (None, n - 2):
                for p in (0, 1):
                    yield {"n": n, "keys": [27 if i == esc else -1 for i in range(n)], "p": p, "ch": 0, "c": "barrel", "m": None}
        for key in list(range(0, 256)) + [-1]:
            yield {"n": 3, "keys": [key, -1, -1], "p": 1, "ch": 0, "c": "barrel", "m": None}

    def run(self, g, ctx):
        h, w = g.get("sh", (17, 24))
        n, keys, pad = g["n"], g["keys"], PADS[g["p"]]
        frames = []
        for i in range(n):
            f = np.mod(ref.smooth(h, w) + 13 * i, 250).astype(np.uint8)
            body = g.get("body", "d" * n)[i]
            if body != "d":
                f = np.full((h, w), 0 if body == "k" else 255, np.uint8) if body in "kw" else np.mod(ref.smooth(h, w), 250).astype(np.uint8)
            if g["ch"]:
                f = np.stack([f, 255 - f, np.roll(f, i, axis=1)] if body == "d" else [f] * 3, axis=2)
            frames.append(f)
        co = ref.rel_coefs(g["c"], 14.0)
        xc, yc = 10.5, 9.25
        if "cen" in g:
            xc, yc = w * g["cen"][0], h * g["cen"][1]
            co = ref.rel_coefs(g["c"], 0.6 * np.hypot(h, w))
        log = []
        shown = []
        cam = Camera(frames, h, w, log)
        state = {"key": 0}

        def imshow(name, im):
            shown.append(np.array(im))
            log.append(("show",))

        def wait(delay=0):
            log.append(("wait",))
            i = len(shown) - 1
            return keys[i] if 0 <= i < len(keys) else -1

        def destroy(*a):
            log.append(("destroy",))

        kw = {} if g["m"] is None else {"method": cv2.INTER_NEAREST}
        if g.get("mode"):
            kw.update(MODES[g["mode"]])
        saved = {k: getattr(cv2, k) for k in ("imshow", "waitKey", "destroyAllWindows", "destroyWindow", "waitKeyEx", "pollKey") if hasattr(cv2, k)}
        cv2.imshow, cv2.waitKey, cv2.destroyAllWindows, cv2.destroyWindow = imshow, wait, destroy, destroy
        cv2.waitKeyEx = wait
        try:
            ctx.call(util.unwarp_video_cv2, cam, xc, yc, co, pad=pad, **kw)
        except Runaway:
            ctx.fail("the call keeps reading after the end of the stream and never returns")
        finally:
            for k, v in saved.items():
                setattr(cv2, k, v)
        ctx.calls += len(log)  # environment events driven through the real loop
        exp_n = keys.index(27) + 1 if 27 in keys else n
        ctx.check(len(shown) == exp_n, f"{len(shown)} frames shown, {exp_n} expected for {n} frames and keys {keys}")
        for i in range(exp_n):
            e = util.unwarp_image_backward_cv2(frames[i], xc, yc, co, pad=pad, **kw)
            ctx.check(shown[i].shape == e.shape and np.max(np.abs(shown[i].astype(int) - e.astype(int))) <= 1,
                      f"frame {i} shown differs from the frame unwarped as a still image")
            ctx.outcome(shown[i])
        ctx.check(cam.released >= 1, "the camera was not released")
        ctx.check(("destroy",) in log, "the windows were not closed")
        ctx.check(("read-after-release",) not in log, "the camera was read after its release")
        ctx.outcome(log)
        ctx.interesting(n > 0)
