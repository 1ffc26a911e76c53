"""Runs harnesses on concrete inputs against the unpatched repository code (JSON lines on stdin/stdout)."""
import contextlib
import importlib
import io
import json
import os
import sys
import traceback

from symx import env as E


def patch_random(env):
    """the random source is an input of the harness: feed the chosen draws"""
    import numpy as np

    class R:
        def _draw(self, shape):
            if shape == ():
                return env.draw()
            a = np.empty(shape)
            f = a.reshape(-1)
            for i in range(f.shape[0]):
                f[i] = env.draw()
            return a

        def rand(self, *shape):
            return self._draw(shape)

        def random(self, size=None):
            return self._draw(() if size is None else ((size,) if isinstance(size, int) else tuple(size)))

        def uniform(self, low=0.0, high=1.0, size=None):
            return low + (high - low) * self.random(size)

        def choice(self, x, size=None, replace=True):
            if isinstance(x, int):
                x = range(x)
            left = list(range(len(x)))

            def one():
                i = env.draw_index(len(left))
                v = x[left[i]]
                if not replace:
                    del left[i]
                return v

            if size is None:
                return one()
            n = int(np.prod(size))
            return np.asarray([one() for _ in range(n)]).reshape(size)

        def randint(self, low, high=None, size=None):
            low, high = (0, low) if high is None else (low, high)
            return low + self.choice(high - low, size)

        integers = randint

    r = R()
    np.random.rand = r.rand
    np.random.random = np.random.random_sample = np.random.ranf = np.random.sample = r.random
    np.random.uniform = r.uniform
    np.random.choice = r.choice
    np.random.randint = r.randint
    np.random.default_rng = lambda *a, **k: r


def jsonable(v):
    if isinstance(v, (str, bool, int, type(None))):
        return v
    if hasattr(v, "item") and getattr(v, "ndim", 1) == 0:
        return jsonable(v.item())
    if isinstance(v, float):
        return v if v == v and abs(v) != float("inf") else str(v)
    return str(v)


def run_one(req):
    env = E.ConcreteEnv(req["inputs"])
    mod = importlib.import_module(req["mod"])
    patch_random(env)
    exc = None
    af = False
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            getattr(mod, req["fn"])(env, **req["cfg"])
        except E.AssumeFailed:
            af = True
        except Exception:
            exc = traceback.format_exc()[-3000:]
    return dict(failed=env.failed, covered=env.covered, obs=[(a, jsonable(b)) for a, b in env.obs], exc=exc, assume_failed=af)


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        r = run_one(json.loads(line))
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
