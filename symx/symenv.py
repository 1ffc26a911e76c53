"""The symbolic environment and the exploration loop of one task."""
import json
import os
import random
import subprocess
import sys
import time
import traceback

import z3

from . import values as V
from . import engine as E
from .values import SymInt, SymFloat, SymBool, Unsupported, IV, F

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Worker:
    """the plain code in the repository's own interpreter"""

    def __init__(self):
        self.p = None
        self.runs = 0

    def start(self):
        e = dict(os.environ)
        e.update(PYTHONPATH=f"{VERIF}:{REPO}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        self.p = subprocess.Popen([REAL_PY, "-m", "symx.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=e, cwd="/", text=True)

    def run(self, mod, fn, cfg, inputs):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps({"mod": mod, "fn": fn, "cfg": cfg, "inputs": inputs}) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    self.runs += 1
                    return json.loads(line)
            except (BrokenPipeError, ValueError):
                pass
            self.close()
        raise RuntimeError("concrete worker died")

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None


from .env import csv_file  # noqa: E402
from . import pandas_shim  # noqa: E402


class SymEnv:
    symbolic = True

    def __init__(self, ctx, task):
        self.ctx = ctx
        self.task = task
        self.covered = []
        self.drawn = []
        self.obs = []

    def int(self, name, lo, hi, seeds=()):
        c = self.ctx
        if name in c.inputs:
            return c.inputs[name]
        if lo == hi:
            v = lo
            c.inputs[name] = lo
            return lo
        v = SymInt(z3.Int(name), lo, hi)
        c.inputs[name] = v
        if seeds:
            c.seeds[name] = list(seeds)
        c.fact(z3.And(v.t >= lo, v.t <= hi))
        return v

    def csv(self, header, rows):
        """a comma-separated file with these rows; symbolic numbers are written as placeholders"""
        pandas_shim.TOKENS.clear()

        def text(x):
            if not isinstance(x, V.Sym):
                return str(x)
            t = "%d.0625" % (990000 + len(pandas_shim.TOKENS))
            pandas_shim.TOKENS[t] = x
            return t

        return csv_file([header] + [[text(x) for x in r] for r in rows])

    def bool(self, name):
        v = self.int(name, 0, 1)
        return SymBool(v.t == IV(1))

    def flag(self, name):
        return bool(self.bool(name))

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        if not isinstance(i, V.Sym):
            return options[i]
        return options[self.ctx.concretize(i)]

    def pick(self, v):
        """fork over the values of a small integer"""
        if isinstance(v, V.Sym):
            return self.ctx.concretize(v)
        return v

    same_draw = None

    def share_draws(self, name):
        """every later random number is one and the same arbitrary value; returns its integer numerator (over 2^53)"""
        self.same_draw = name
        return self.int(name, 0, 2 ** 53 - 1, seeds=(0, 2 ** 53 - 1, 2 ** 52, 2 ** 51, 3 * 2 ** 51))

    def draw(self):
        n = self.ctx.rand_n
        self.ctx.rand_n += 1
        v = self.int(self.same_draw or f"rand{n}", 0, 2 ** 53 - 1, seeds=(0, 2 ** 53 - 1, 2 ** 52, 2 ** 51, 3 * 2 ** 51))
        return SymFloat(None, F(0), F(2 ** 53 - 1, 2 ** 53), F(1, 2 ** 53), None, (v, F(1, 2 ** 53)))

    def draw_index(self, k):
        n = self.ctx.rand_n
        self.ctx.rand_n += 1
        v = self.pick(self.int(f"rand{n}", 0, k - 1))
        self.drawn.append(v)
        return v

    def assume(self, c):
        self.ctx.assume(c)

    def cover(self, label):
        self.covered.append(label)

    def observe(self, label, v):
        self.obs.append((label, v))

    def check(self, c, label, detail=None):
        self.task.check(c, label)


def model_inputs(ctx, m):
    out = {}
    for k, v in ctx.inputs.items():
        if not isinstance(v, V.Sym):
            out[k] = v
            continue
        r = m.eval(v.t, model_completion=True)
        x = r.as_long()
        if x < v.lo or x > v.hi:
            x = min(max(x, v.lo), v.hi)
        out[k] = x
    return out


class Task:
    def __init__(self, mod, modname, spec, worker, seed=1, deadline=None, validate=12, known=()):
        self.mod = mod
        self.modname = modname
        self.spec = dict(spec)
        self.fn = self.spec.pop("h")
        self.opts = self.spec.pop("_opts", {})
        self.cfg = self.spec
        self.worker = worker
        self.seed = seed
        self.deadline = deadline
        self.validate = validate
        self.known = known
        self.undecided_s = 0.0
        self.res = dict(h=self.fn, cfg=self.cfg, paths=0, cut=0, checks=0, checks_proved=0, covers={}, violation=None,
                        gaps=[], inconclusive=[], spurious=0, validated=0, mismatches=[], samples=[], known=[],
                        complete=False)

    # ---------------------------------------------------------------- the deciding step
    def check(self, c, label):
        ctx = self.ctx
        if type(c) is not SymBool:
            if not ctx.live:
                return
            self.res["checks"] += 1
            if c:
                self.res["checks_proved"] += 1
                return
            neg = z3.BoolVal(True)
        else:
            if not ctx.live:
                return
            self.res["checks"] += 1
            k = ctx._const_truth(c.t)
            if k is True:
                self.res["checks_proved"] += 1
                return
            neg = z3.Not(c.t)
        proved = self.decide(neg, label)
        # a proved assertion is only worth keeping as a lemma while it is small
        if type(c) is SymBool and (not proved or len(ctx.reach(c.t)) <= 4):
            ctx.add(c.t)
            if ctx._mval(c.t) is not True:
                r, m = ctx._check()
                if r == z3.unsat:
                    raise E.PathEnd()
                ctx.model = m

    def decide(self, neg, label):
        ctx = self.ctx
        t0 = time.time()
        # a task that already spent its allowance on undecided obligations only tries briefly
        tired = self.undecided_s > self.opts.get("undecided_s", 45)
        if tired:
            ctx.solver.set("timeout", 400)
        try:
            r, m = ctx._check(neg)
        finally:
            if tired:
                ctx.solver.set("timeout", ctx.query_ms)
        if r == z3.unsat:
            self.res["checks_proved"] += 1
            return True
        spurious = 0
        if r == z3.sat:
            blocks = []
            tried = 0
            while r == z3.sat:
                inp = model_inputs(ctx, m)
                st = self.candidate(inp, label)
                if st == "known":
                    pass
                else:
                    spurious += 1
                    self.res["spurious"] += 1
                tried += 1
                if tried >= (4 if spurious > 3 else 12) or not [v for v in ctx.inputs.values() if isinstance(v, V.Sym)]:
                    break
                blocks.append(z3.Or(*[v.t != inp[k] for k, v in ctx.inputs.items() if isinstance(v, V.Sym)]))
                r, m = ctx._check(neg, *blocks)
            if r == z3.unsat:
                self.res["checks_proved"] += 1
                return
            if tried and not spurious and any(k["id"] in self.res["known"] and k.get("inputs") is None for k in self.known):
                return  # fails wherever it is looked at, as recorded for all inputs
        # undecided (unknown, or models that the real code does not reproduce): slices
        if not tired:
            self.slices(neg, label)
        self.undecided_s += time.time() - t0
        self.res["inconclusive"].append(label)

    def slices(self, neg, label):
        """fix all inputs but one to seed values: smaller queries that look for a real counterexample"""
        ctx = self.ctx
        names = [k for k, v in ctx.inputs.items() if isinstance(v, V.Sym)]
        if not names:
            return
        rnd = random.Random(self.seed)
        t_end = time.time() + self.opts.get("slice_s", 20)
        base = [None] if ctx.model is None else [model_inputs(ctx, ctx.model)]
        for rounds in range(40):
            if time.time() > t_end:
                return
            asg = {}
            src = base[0] if (rounds == 0 and base[0]) else None
            for k in names:
                v = ctx.inputs[k]
                if src is not None:
                    asg[k] = src[k]
                elif ctx.seeds.get(k) and rnd.random() < 0.8:
                    asg[k] = rnd.choice(ctx.seeds[k])
                else:
                    asg[k] = rnd.randint(v.lo, v.hi)
            free = names[rounds % len(names)]
            fix = [ctx.inputs[k].t == asg[k] for k in names if k != free]
            r, m = ctx._check(neg, *fix)
            if r == z3.sat:
                self.candidate(model_inputs(ctx, m), label)

    def candidate(self, inp, label):
        """replay on the plain code; raises Violation when it reproduces"""
        out = self.worker.run(self.modname, self.fn, self.cfg, inp)
        bad = list(out["failed"])
        if out.get("exc"):
            bad.append("exception: " + out["exc"].strip().splitlines()[-1])
        if bad and not out.get("assume_failed"):
            k = self.match_known(bad, inp)
            if k is not None:
                if k not in self.res["known"]:
                    self.res["known"].append(k)
                return "known"
            self.res["violation"] = dict(label=label, failed=bad, inputs=inp, exc=out.get("exc"))
            raise E.Violation()
        return "spurious"

    def match_known(self, bad, inp):
        for k in self.known:
            if k.get("harness") == self.fn and all(any(l.startswith(x) for x in k["labels"]) for l in bad):
                c = k.get("cfg")
                if c is None or all(self.cfg.get(a) == b for a, b in c.items()):
                    p = k.get("inputs")
                    if p is None or all(inp.get(a) in (b if isinstance(b, list) else [b]) for a, b in p.items()):
                        return k["id"]
        return None

    # ---------------------------------------------------------------- exploration
    def run(self):
        o = self.opts
        self.ctx = ctx = E.Ctx(query_ms=o.get("query_ms", 5000), deadline=self.deadline,
                               fl_monotone=o.get("fl_monotone", False), max_concretize=o.get("max_concretize", 60))
        ctx.solver.set("random_seed", self.seed)
        V.set_ctx(ctx)
        f = getattr(self.mod, self.fn)
        res = self.res
        t0 = time.time()
        max_paths = o.get("max_paths", 200000)
        rnd = random.Random(self.seed * 7919 + 13)
        pending = []
        try:
            while True:
                ctx.reset_path()
                env = ctx.env = SymEnv(ctx, self)
                ok = False
                try:
                    f(env, **self.cfg)
                    ok = True
                except E.PathEnd:
                    res["cut"] += 1
                except Unsupported as e:
                    self.gap("unsupported: %s @ %s" % (e, where()))
                except RecursionError:
                    raise
                except Exception as e:
                    # an exception escaping the code under test (or an encoding gap): the plain code decides
                    if not ctx.live:
                        raise RuntimeError("exception while replaying a prefix") from e
                    self.exception(e)
                if ok:
                    res["paths"] += 1
                    for c in env.covered:
                        res["covers"][c] = res["covers"].get(c, 0) + 1
                    # reservoir of path models to run on the plain code
                    if ctx.model is None:
                        r, m = ctx._check()
                        ctx.model = m
                    if ctx.model is not None:
                        i = res["paths"]
                        item = None
                        if len(pending) < self.validate:
                            item = len(pending)
                            pending.append(None)
                        else:
                            j = rnd.randrange(i)
                            if j < self.validate:
                                item = j
                        if item is not None:
                            pending[item] = (model_inputs(ctx, ctx.model), list(env.covered), self.obs_under(env, ctx.model))
                if res["paths"] + res["cut"] >= max_paths:
                    break
                if not ctx.next_path():
                    res["complete"] = True
                    break
        except E.Violation:
            pass
        except E.OutOfBudget:
            res["inconclusive"].append("time budget")
        if res["violation"] is None:
            for p in pending:
                inp, cov, obs = p
                out = self.worker.run(self.modname, self.fn, self.cfg, inp)
                bad = list(out["failed"])
                if out.get("exc"):
                    bad.append("exception: " + out["exc"].strip().splitlines()[-1])
                if out.get("assume_failed"):
                    res["mismatches"].append(dict(inputs=inp, what="assumption differs"))
                    continue
                if bad:
                    k = self.match_known(bad, inp)
                    if k is not None:
                        continue
                    res["violation"] = dict(label="validation", failed=bad, inputs=inp, exc=out.get("exc"))
                    break
                if out["covered"] != cov:
                    res["mismatches"].append(dict(inputs=inp, what="path differs", task=self.cfg, sym=cov[-6:], real=out["covered"][-6:]))
                    continue
                om = self.obs_diff(obs, out["obs"])
                if om:
                    res["mismatches"].append(dict(inputs=inp, what="observed " + om))
                    continue
                res["validated"] += 1
                if len(res["samples"]) < 2:
                    res["samples"].append(dict(h=self.fn, cfg=self.cfg, inputs=inp))
        res.update(decisions=ctx.n_decisions, queries=ctx.n_queries, unsat=ctx.n_unsat, sat=ctx.n_sat, unknown=ctx.n_unknown,
                   unknown_branches=ctx.unknown_branches, solver_s=round(ctx.solver_s, 3), wall_s=round(time.time() - t0, 3))
        return res

    def obs_under(self, env, m):
        out = []
        for l, v in env.obs:
            if isinstance(v, SymInt):
                out.append((l, m.eval(v.t, model_completion=True).as_long()))
            elif isinstance(v, SymBool):
                out.append((l, bool(z3.is_true(m.eval(v.t, model_completion=True)))))
            elif isinstance(v, SymFloat):
                out.append((l, None))
            else:
                out.append((l, v))
        return out

    @staticmethod
    def obs_diff(a, b):
        if len(a) != len(b):
            return "count"
        for (l, x), (l2, y) in zip(a, b):
            if x is None:
                continue
            if isinstance(x, (int, str, bool)) and x != y:
                return f"{l}: {x!r} vs {y!r}"
        return None

    def gap(self, msg):
        self.res["gaps"].append(msg[:300])
        if not self.ctx.live:
            return
        self.concolic("gap")

    def exception(self, e):
        r, m = (None, self.ctx.model) if self.ctx.model is not None else self.ctx._check()
        if m is None:
            if r == z3.unsat:
                return
            self.res["gaps"].append("exception %r, no model" % (e,))
            return
        st = self.candidate(model_inputs(self.ctx, m), "exception")
        if st == "spurious":
            self.res["gaps"].append(("exception not reproduced: %r @ %s" % (e, where(e)))[:400])

    def concolic(self, label):
        ctx = self.ctx
        r, m = ctx._check()
        if m is not None:
            self.candidate(model_inputs(ctx, m), label)


def where(e=None):
    tb = (e.__traceback__ if e is not None else sys.exc_info()[2])
    fr = traceback.extract_tb(tb)
    keep = [f for f in fr if REPO in f.filename or "/harness/" in f.filename][-2:]
    return " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(keep))
