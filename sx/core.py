"""Path exploration: depth-first re-execution driven by an SMT solver."""
import time

from .z3env import z3


class Ctl(BaseException):
    """Control flow of the engine; not an Exception on purpose."""


class Infeasible(Ctl):
    """The assumptions made so far cannot all hold."""


class Unsupported(Ctl):
    """The encoding does not cover an operation: the result is inconclusive."""


class OutOfBudget(Ctl):
    pass


class Stop(Ctl):
    """Stop exploring (enough violations)."""


class NoFork(Ctl):
    """A tentative evaluation (see models.tentative) would have to fork."""


class Entry:
    __slots__ = ('val', 'pending', 'model', 'scoped', 'tag')

    def __init__(self, val, pending, model, scoped, tag):
        self.val = val
        self.pending = pending   # list of alternatives not explored yet
        self.model = model
        self.scoped = scoped     # a solver scope was pushed for it
        self.tag = tag


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0        # solver-decided branches
        self.queries = 0
        self.solver_s = 0.0
        self.requires = 0        # obligations discharged
        self.requires_trivial = 0
        self.max_query_s = 0.0


class Explorer:
    def __init__(self, deadline=None, query_timeout_ms=20000,
                 max_paths=200000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.stats = Stats()
        self.trace = []
        self.pos = 0
        self.replay_until = 0
        self.model = None
        self.deadline = deadline
        self.max_paths = max_paths
        self.fresh = 0
        self.dead = None         # control exception in flight (see check())
        self.on_violation = None
        self.path_hooks = []
        self.fit = lambda model: model
        self.no_fork = False

    # -- solver access ----------------------------------------------------

    def check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        t = time.time() - t
        self.stats.queries += 1
        self.stats.solver_s += t
        if t > self.stats.max_query_s:
            self.stats.max_query_s = t
        if r == z3.unknown:
            self.abort(Unsupported(
                'solver answered unknown: ' + self.solver.reason_unknown()))
        return r == z3.sat

    def abort(self, exc):
        if self.no_fork and isinstance(exc, Unsupported):
            raise NoFork
        self.dead = exc
        raise exc

    def alive(self):
        if self.dead is not None:
            # somebody swallowed a control exception (bare except): insist
            raise self.dead
        if self.deadline is not None and time.time() > self.deadline:
            self.abort(OutOfBudget('time budget exceeded'))

    # -- names ------------------------------------------------------------

    def name(self, prefix):
        self.fresh += 1
        return '%s!%d' % (prefix, self.fresh)

    # -- constraints ------------------------------------------------------

    @property
    def replaying(self):
        return self.pos < self.replay_until

    def add(self, c):
        """Add a constraint known to be satisfiable with the path."""
        if self.replaying:
            return
        self.solver.add(c)
        if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)):
            self.model = None

    def need_model(self):
        if self.model is None:
            if not self.check():
                self.abort(Infeasible())
            self.model = self.solver.model()
        return self.model

    def assume(self, c):
        self.alive()
        if self.replaying:
            return
        if isinstance(c, bool):
            if not c:
                self.abort(Infeasible())
            return
        self.add(c)
        self.need_model()

    def _next_entry(self, tag):
        e = self.trace[self.pos]
        if e.tag != tag:
            self.abort(Unsupported(
                'non-deterministic re-execution: %s / %s' % (e.tag, tag)))
        self.pos += 1
        if self.pos == self.replay_until:
            self.model = e.model
        return e

    def branch(self, c):
        """Decide a condition, exploring both sides if both are feasible."""
        self.alive()
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.no_fork:
            raise NoFork
        tag = 'b'
        if self.replaying:
            e = self._next_entry(tag)
            return e.val
        model = self.need_model()
        side = z3.is_true(model.eval(c, model_completion=True))
        other = z3.Not(c) if side else c
        self.stats.branches += 1
        self.solver.push()
        self.solver.add(other)
        feasible = self.check()
        omodel = self.solver.model() if feasible else None
        self.solver.pop()
        if not feasible:
            self.trace.append(Entry(side, [], None, False, tag))
        else:
            self.solver.push()
            self.solver.add(c if side else z3.Not(c))
            self.trace.append(Entry(
                side, [(not side, other, omodel)], None, True, tag))
        self.pos += 1
        return side

    def choose(self, name, n):
        """Fork on an unconstrained n-way choice; returns (index, z3 var)."""
        self.alive()
        if self.no_fork:
            raise NoFork
        k = z3.Int('choice:' + name)
        if n == 1:
            self.add(k == 0)
            return 0, k
        tag = ('c', name, n)
        if self.replaying:
            return self._next_entry(tag).val, k
        self.solver.push()
        self.solver.add(k == 0)
        self.model = None
        self.stats.branches += 1
        self.trace.append(Entry(
            0, [(i, k == i, None) for i in range(n - 1, 0, -1)],
            None, True, tag))
        self.pos += 1
        return 0, k

    def concretize(self, z, what, cap=300):
        """Fork over all feasible values of an integer term."""
        self.alive()
        z = z3.simplify(z)
        if z3.is_int_value(z) or z3.is_bv_value(z):
            return z.as_long()
        if self.no_fork:
            raise NoFork
        for _ in range(cap):
            tag = 'v'
            if self.replaying:
                e = self._next_entry(tag)
                if e.val is not None:
                    return e.val
                continue
            model = self.need_model()
            v = model.eval(z, model_completion=True).as_long()
            self.stats.branches += 1
            self.solver.push()
            self.solver.add(z != v)
            feasible = self.check()
            omodel = self.solver.model() if feasible else None
            self.solver.pop()
            if not feasible:
                self.trace.append(Entry(v, [], None, False, tag))
            else:
                self.solver.push()
                self.solver.add(z == v)
                self.trace.append(Entry(
                    v, [(None, z != v, omodel)], None, True, tag))
            self.pos += 1
            return v
        self.abort(Unsupported('too many values of ' + what))

    # -- obligations ------------------------------------------------------

    def require(self, c, label):
        """The obligation: c holds in every completion of this path."""
        self.alive()
        if self.replaying:
            return
        if isinstance(c, bool):
            self.stats.requires += 1
            if c:
                self.stats.requires_trivial += 1
                return
            model = self.fit(self.need_model())
            self.on_violation(label, model)
            self.abort(Infeasible())
        c = z3.simplify(c)
        self.stats.requires += 1
        if z3.is_true(c):
            self.stats.requires_trivial += 1
            return
        self.solver.push()
        self.solver.add(z3.Not(c))
        bad = self.check()
        model = None
        try:
            if bad:
                model = self.fit(self.solver.model())
        finally:
            self.solver.pop()
        if bad:
            self.on_violation(label, model)
            self.assume(c)

    # -- exploration ------------------------------------------------------

    def begin(self):
        self.pos = 0
        self.fresh = 0
        self.dead = None
        if self.replay_until == 0:
            self.model = None
        else:
            self.model = None

    def backtrack(self):
        while self.trace:
            e = self.trace[-1]
            if e.scoped:
                self.solver.pop()
            if e.pending:
                val, c, model = e.pending.pop()
                e.val = val
                e.model = model
                self.solver.push()
                self.solver.add(c)
                e.scoped = True
                self.replay_until = len(self.trace)
                return True
            self.trace.pop()
        return False

    def explore(self, run, finish=None):
        """run() executes one path; finish(status) is called after it."""
        while True:
            self.begin()
            status = 'done'
            try:
                run()
                self.alive()
            except Infeasible:
                status = 'infeasible'
            if self.dead is not None and not isinstance(
                    self.dead, Infeasible):
                raise self.dead
            if status == 'done' and self.replaying:
                raise Unsupported(
                    'non-deterministic re-execution: path ended early')
            if status == 'done':
                self.stats.paths += 1
            else:
                self.stats.infeasible += 1
            self.dead = None
            if finish is not None:
                finish(status)
            if self.stats.paths > self.max_paths:
                raise OutOfBudget('path budget exceeded')
            if not self.backtrack():
                return
