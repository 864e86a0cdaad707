"""Symbolic execution of Python code by proxies: integers are Z3 terms, every branch on one is decided by the solver and both sides are explored."""
import z3, time
class Dead(BaseException): pass      # the rest of this path is not explored (assumption violated)
class Engine:
    def __init__(self, replay=None):
        self.replay = replay; self.stats = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, assert_queries=0, solver_s=0.0, infeasible=0); self.violations = []; self.samples = []; self.reached = {}
    # one path
    def begin(self, prefix):
        self.prefix, self.pos, self.trail, self.open = prefix, 0, [], []; self.dead = False; self.s = z3.Solver(); self.names = []; self.ri = 0; self.obs = []
    def check(self, *c):
        t = time.time(); self.s.set("timeout", 20000); r = self.s.check(*c); self.stats["solver_s"] += time.time() - t; self.stats["queries"] += 1; self.stats[str(r)] += 1
        if r == z3.unknown: raise RuntimeError("the solver gave no answer")
        return r == z3.sat
    def kill(self): self.dead = True; raise Dead()
    def fresh(self, name, lo, hi):
        if self.replay is not None:
            n, v = self.replay[self.ri]; self.ri += 1; assert n == name, (n, name); return v
        v = z3.Int("%s!%d" % (name, len(self.names))); self.names.append((name, v)); self.s.add(v >= lo, v <= hi); return SymInt(self, v)
    def choose(self, name, n):
        if self.replay is not None:
            m, v = self.replay[self.ri]; self.ri += 1; assert m == name, (m, name); return v
        if n == 1: self.names.append((name, 0)); return 0
        v = self.decide(list(range(n))); self.names.append((name, v)); return v
    def decide(self, alts):  # alternatives known to be feasible; the first not yet explored is taken
        if self.pos < len(self.prefix): i = self.prefix[self.pos]
        else:
            i = 0
            for j in range(1, len(alts)): self.open.append(self.trail + [j]); self.stats["forks"] += 1
        self.pos += 1; self.trail.append(i); return alts[i]
    def branch(self, cond):
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.prefix): r = self.decide([True, False])
        else:
            t = self.check(cond); f = (not t) or self.check(z3.Not(cond))
            if t and f: r = self.decide([True, False])
            else: self.pos += 1; self.trail.append(0 if t else 1); r = t
        self.s.add(cond if r else z3.Not(cond)); return r
    def value(self, e):  # one path per feasible value
        e = z3.simplify(e)
        while True:
            if z3.is_int_value(e): return e.as_long()
            if not self.check(): self.kill()
            # smallest feasible value first, so that the order of exploration does not depend on the solver
            v = self.s.model().eval(e, model_completion=True).as_long()
            while self.check(e < v): v = self.s.model().eval(e, model_completion=True).as_long()
            if self.branch(e == v): return v
    def assume(self, c):
        c = expr(c)
        if isinstance(c, bool):
            if not c: self.stats["infeasible"] += 1; self.kill()
            return
        self.s.add(c)
        if not self.check(): self.stats["infeasible"] += 1; self.kill()
    def model(self, m): return [(n, v if isinstance(v, int) else m.eval(v, model_completion=True).as_long()) for n, v in self.names]
    def ensure(self, c, msg):
        c = expr(c); self.stats["asserts"] += 1
        if isinstance(c, bool):
            if c: return True
            if self.replay is None: self.check(); self.violations.append((msg, self.model(self.s.model())))
            else: self.violations.append((msg, None))
            return False
        self.stats["assert_queries"] += 1
        if self.check(z3.Not(c)): self.violations.append((msg, self.model(self.s.model()))); return False
        return True
    def reach(self, l): self.reached[l] = self.reached.get(l, 0) + 1
    def explore(self, f, limit, todo=None, enough=0):
        """explores below the given prefixes; with enough: stops, leaving at least that many open, in self.todo"""
        todo = [[]] if todo is None else todo; t0 = time.time(); self.todo = todo
        while todo:
            if time.time() - t0 > limit: return False
            if enough and len(todo) >= enough: return True
            self.begin(todo.pop(0 if enough else -1))
            try: f(self)
            except Dead: pass
            self.stats["paths"] += 1
            if self.violations: del todo[:]; return True
            todo.extend(self.open)
            if not self.dead and self.stats["paths"] % 97 == 1 and len(self.samples) < 8 and self.check(): self.samples.append((self.model(self.s.model()), [conc(self, o) for o in self.obs]))
        return True
    def explore_all(self, f, limit, jobs):
        import concurrent.futures as cf, multiprocessing as mp
        t0 = time.time(); ok = self.explore(f, limit, enough=jobs * 16)
        if not ok or self.violations or not self.todo: return ok
        left = limit - (time.time() - t0)
        with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=_init, initargs=(f,)) as ex:
            for r in ex.map(_part, [(p, t0 + limit) for p in self.todo]):
                k, st, viol, sa, re = r; ok = ok and k; self.violations += viol; self.samples = (self.samples + sa)[:8]
                for n in st: self.stats[n] += st[n]
                for n in re: self.reached[n] = self.reached.get(n, 0) + re[n]
        return ok
def _init(f): global F; F = f
def _part(a):
    en = Engine(); ok = en.explore(F, a[1] - time.time(), [a[0]]); return ok, en.stats, en.violations, en.samples[:2], en.reached
def conc(en, o):
    if isinstance(o, SymInt): return en.s.model().eval(o.e, model_completion=True).as_long()
    return o
def expr(x):
    if isinstance(x, (SymBool, SymInt)): return x.e
    return x
class SymBool:
    def __init__(self, en, e): self.en, self.e = en, e
    def __bool__(self): return self.en.branch(self.e)
class SymInt:
    def __init__(self, en, e): self.en, self.e = en, e
    def _b(self, o, f):
        if not isinstance(o, (int, SymInt)): return NotImplemented
        return SymInt(self.en, f(self.e, expr(o)))
    def _c(self, o, f):
        if not isinstance(o, (int, SymInt)): return NotImplemented
        return SymBool(self.en, f(self.e, expr(o)))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(self.en, -self.e)
    def __pos__(self): return self
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b) if isinstance(o, (int, SymInt)) else False
    def __ne__(self, o): return self._c(o, lambda a, b: a != b) if isinstance(o, (int, SymInt)) else True
    def __bool__(self): return self.en.branch(self.e != 0)
    def __index__(self): return self.en.value(self.e)
    __int__ = __index__
    def __hash__(self): return hash(self.__index__())
    def __repr__(self): return "<%s>" % self.e
    def __format__(self, s): return repr(self)
