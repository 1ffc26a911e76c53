"""Path exploration: depth-first by re-execution, solver scopes aligned with the decisions."""
import time
import fractions
import random as _random

import z3

from . import values as V
from .values import SymInt, SymFloat, SymBool, Unsupported, IV, RV, F


class PathEnd(BaseException):
    """the current path is infeasible or cut"""


class Violation(BaseException):
    pass


class OutOfBudget(BaseException):
    pass


class Ctx:
    def __init__(self, query_ms=4000, deadline=None, max_concretize=40, fl_monotone=False):
        self.solver = z3.SolverFor("ALL") if False else z3.Solver()
        self.query_ms = query_ms
        self.solver.set("timeout", query_ms)
        self.deadline = deadline
        self.max_concretize = max_concretize
        self.fl_monotone = fl_monotone
        # decision stack: [kind, payload, value, other_open]
        self.prefix = []
        self.pos = 0
        self.model = None
        self.base_done = False
        # statistics
        self.n_queries = 0
        self.n_unsat = 0
        self.n_sat = 0
        self.n_unknown = 0
        self.solver_s = 0.0
        self.n_decisions = 0
        self.unknown_branches = 0
        self.inconclusive = []
        self.dump = None
        self._simp = {}
        # facts about uninterpreted applications (rounding, square roots), asserted only when a query mentions them
        self.defs = {}
        self._reach = {}
        self.active = [{}]
        self.reset_path()

    def reset_path(self):
        self.pos = 0
        self.inputs = {}
        self.input_order = []
        self.seeds = {}
        self.rand_n = 0

    # -- replay bookkeeping
    @property
    def live(self):
        return self.pos >= len(self.prefix)

    def fact(self, t):
        if self.live:
            self.solver.add(t)
            if self.model is not None and self._mval(t) is not True:
                self.model = None

    # -- lazily asserted definitions
    def define(self, r, fact, x=None):
        k = r.get_id()
        if k not in self.defs:
            self.defs[k] = (r, fact, x)

    def reach(self, t):
        """ids of the defined applications inside a term"""
        k0 = t.get_id()
        c = self._reach.get(k0)
        if c is not None:
            return c[1]
        stack = [t]
        while stack:
            n = stack[-1]
            k = n.get_id()
            if k in self._reach:
                stack.pop()
                continue
            ch = n.children()
            todo = [x for x in ch if x.get_id() not in self._reach]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            sets = [self._reach[x.get_id()][1] for x in ch]
            out = frozenset().union(*sets) if sets else frozenset()
            if k in self.defs or (z3.is_app(n) and n.num_args() == 1 and n.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                out = out | {k}
            self._reach[k] = (n, out)
        return self._reach[k0][1]

    def _inactive(self, t):
        return [k for k in self.reach(t) if k in self.defs and not any(k in a for a in self.active)]

    def _activate(self, *terms):
        """assert, in the current scope, the facts the terms depend on; True when there were new ones"""
        new = False
        for t in terms:
            for k in sorted(self._inactive(t)):
                r, f, x = self.defs[k]
                self.solver.add(f)
                if self.fl_monotone and x is not None:
                    for a in self.active:
                        for k2 in a:
                            r2, _, x2 = self.defs[k2]
                            if x2 is not None:
                                self.solver.add(z3.Implies(x <= x2, r <= r2), z3.Implies(x2 <= x, r2 <= r))
                self.active[-1][k] = True
                new = True
        return new

    def push(self):
        self.solver.push()
        self.active.append({})

    def pop(self):
        self.solver.pop()
        self.active.pop()

    def add(self, t):
        if self._activate(t):
            self.model = None
        self.solver.add(t)

    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfBudget()
        t0 = time.time()
        if assumptions:
            self.push()
            self._activate(*assumptions)
            self.solver.add(*assumptions)
        try:
            r = self.solver.check()
        except z3.Z3Exception as e:
            if "canceled" in str(e) or "timeout" in str(e):
                r = z3.unknown
            else:
                raise
        m = self.solver.model() if r == z3.sat else None
        if self.dump is not None:
            self.dump(self.solver, r)
        if assumptions:
            self.pop()
        self.solver_s += time.time() - t0
        self.n_queries += 1
        if r == z3.sat:
            self.n_sat += 1
        elif r == z3.unsat:
            self.n_unsat += 1
        else:
            self.n_unknown += 1
        return r, m

    def _mval(self, t):
        """truth of t under the current model (None if undetermined)"""
        if self.model is None or self._inactive(t):
            return None
        try:
            r = self.model.eval(t, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def _const_truth(self, t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = t.get_id()
        c = self._simp.get(k)
        if c is None:
            st = z3.simplify(t)
            v = True if z3.is_true(st) else False if z3.is_false(st) else None
            self._simp[k] = (v, t)
            return v
        return c[0]

    def branch(self, t, payload=None):
        c = self._const_truth(t)
        if c is not None:
            return c
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d[2]
        mv = self._mval(t)
        can_t = can_f = None
        mt = mf = None
        if mv is True:
            can_t, mt = True, self.model
        elif mv is False:
            can_f, mf = True, self.model
        if can_t is None:
            r, m = self._check(t)
            if r == z3.unsat:
                can_t = False
            else:
                can_t, mt = True, m
                if r == z3.unknown:
                    self.unknown_branches += 1
        if can_f is None:
            if can_t is False:
                can_f, mf = True, self.model
            else:
                r, m = self._check(z3.Not(t))
                if r == z3.unsat:
                    can_f = False
                else:
                    can_f, mf = True, m
                    if r == z3.unknown:
                        self.unknown_branches += 1
        if can_t and not can_f:
            self.prefix.append(["f", None, True, None, payload])
            self.pos += 1
            return True
        if can_f and not can_t:
            self.prefix.append(["f", None, False, None, payload])
            self.pos += 1
            return False
        self.n_decisions += 1
        self.push()
        self.add(t)
        self.model = mt
        self.prefix.append(["b", t, True, mf if mf is not None else "?", payload])
        self.pos += 1
        return True

    def concretize(self, v):
        v = V.lift(v)
        if type(v) is SymFloat:
            lin = v.lin or v.pre
            if lin is None:
                raise Unsupported("needs a concrete float")
            n = self.concretize(lin[0])
            return V._round_exact(F(n) * lin[1])
        if v.lo is not None and v.lo == v.hi:
            return v.lo
        if z3.is_int_value(v.t):
            return v.t.as_long()
        for _ in range(self.max_concretize):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                if d[4] is None:
                    raise RuntimeError("non-deterministic re-execution (concretize)")
                if d[2]:
                    return d[4]
                continue
            k = None
            if self._activate(v.t):
                self.model = None
            if self.model is not None:
                r = self.model.eval(v.t, model_completion=True)
                if z3.is_int_value(r):
                    k = r.as_long()
            if k is None:
                r, m = self._check()
                if r == z3.unsat:
                    raise PathEnd()
                if m is None:
                    raise Unsupported("cannot pick a value")
                self.model = m
                k = m.eval(v.t, model_completion=True).as_long()
            t = v.t == IV(k)
            if self._const_truth(t) is True:
                return k
            if self.branch(t, payload=k):
                return k
        raise Unsupported("too many values to concretize")

    def assume(self, c):
        """restrict the path to c; ends the path when infeasible"""
        if type(c) is not SymBool:
            if not c:
                raise PathEnd()
            return
        if not self.live:
            return
        self.add(c.t)
        mv = self._mval(c.t)
        if mv is not True:
            r, m = self._check()
            if r == z3.unsat:
                raise PathEnd()
            self.model = m

    def next_path(self):
        """flip the deepest open decision; False when exhausted"""
        while self.prefix:
            d = self.prefix[-1]
            if d[0] == "f":
                self.prefix.pop()
                continue
            self.pop()
            if d[3] is None:
                self.prefix.pop()
                continue
            other = d[3]
            self.push()
            self.add(z3.Not(d[1]))
            d[2] = False
            d[3] = None
            self.model = None if other == "?" else other
            return True
        return False
