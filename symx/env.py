"""The concrete environment (no z3): runs a harness on given inputs against the plain, unpatched code."""
import atexit
import builtins
import os
import shutil
import tempfile

_DIR = []


def csv_file(rows):
    """writes the rows to a scratch file (removed when the process ends)"""
    if not _DIR:
        _DIR.append(tempfile.mkdtemp(prefix="symx"))
        atexit.register(shutil.rmtree, _DIR[0], True)
    fn = os.path.join(_DIR[0], "table.csv")
    with open(fn, "w") as f:
        for r in rows:
            f.write(",".join('"%s"' % x if "," in x else x for x in map(str, r)) + "\n")
    return fn


class AssumeFailed(BaseException):
    pass


class ConcreteEnv:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failed = []
        self.covered = []
        self.drawn = []
        self.obs = []
        self.used = {}
        self.rand_n = 0

    def int(self, name, lo, hi, seeds=()):
        v = self.inputs.get(name, lo)
        self.used[name] = v
        return v

    def csv(self, header, rows):
        return csv_file([header] + [[x if isinstance(x, str) else repr(x) for x in r] for r in rows])

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def flag(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def pick(self, v):
        return v

    same_draw = None

    def share_draws(self, name):
        self.same_draw = name
        return self.int(name, 0, 2 ** 53 - 1)

    def draw(self):
        if self.same_draw:
            return self.inputs.get(self.same_draw, 0) / 2.0 ** 53
        n = self.rand_n
        self.rand_n += 1
        return self.inputs.get(f"rand{n}", 0) / 2.0 ** 53

    def draw_index(self, n):
        k = self.rand_n
        self.rand_n += 1
        v = self.inputs.get(f"rand{k}", 0)
        self.drawn.append(v)
        return v

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label, detail=None):
        if not c:
            self.failed.append(label)

    def cover(self, label):
        self.covered.append(label)

    def observe(self, label, v):
        self.obs.append((label, v))
