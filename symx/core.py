"""
Stateless re-execution symbolic explorer.

A harness is run again and again.  Every branch on a symbolic condition
goes through `Engine.decide`; the decision trail is replayed on the next
run and the deepest undecided alternative is flipped, with one z3 query
per alternative.  `Engine.check` asks z3 for a model of the negated
assertion under the current path condition.

When the exploration of a case finishes without "incomplete" marks, the
assertion holds for every value of the symbolic inputs of that case.
"""

import time
import z3


class PathAbort(BaseException):
    """ the current path is infeasible, or was cut by an assumption """


class CheckFailed(BaseException):
    """ an assertion of a harness failed """

    def __init__(self, msg, key=None):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.key = key or msg


class Unsupported(BaseException):
    """ the engine met something it has no model for """


class EngineError(BaseException):
    """ internal trouble: replays diverged and the like """


class OutOfBudget(BaseException):
    pass


D, V, C, A, K = "decide", "value", "choose", "assume", "check"


class Entry(object):
    __slots__ = ("kind", "cond", "value", "pending", "excluded", "count",
                 "key")

    def __init__(self, kind, cond, value, pending, count=0, key=None):
        self.kind = kind
        self.cond = cond
        self.value = value
        self.pending = pending
        self.excluded = None
        self.count = count
        self.key = key


CUR = None    # the engine of the case being explored in this process


def current():
    return CUR


class Engine(object):

    def __init__(self, timeout_ms=30000, deadline=None, max_paths=None,
                 value_cap=70000, soft_cap=12):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.value_cap = value_cap
        self.soft_cap = soft_cap

        self.trail = []
        self.pos = 0
        self.model = None
        self.stats = {
            "paths": 0, "aborted": 0, "queries": 0, "sat": 0, "unsat": 0,
            "unknown": 0, "solver_s": 0.0, "checks": 0, "decisions": 0,
            "check_queries": 0, "values": 0,
        }
        self.incomplete = {}
        self.covers = {}
        self.reset_path()

    # -- per path state -------------------------------------------------

    def reset_path(self):
        self.pos = 0
        self.known = {}
        self.keep = []
        self.fresh = 0
        self.hashseq = 0
        self.inputs = []
        self.observed = []
        self.stdout = []
        self.hashes = {}
        self.path_incomplete = None
        self.path_covers = set()
        self.extra = {}

    def next_hash(self):
        self.hashseq += 1
        return 0x51ED0000 + self.hashseq

    def fresh_name(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)

    def fresh_bv(self, base, width):
        return z3.BitVec("%s_%d" % (self.fresh_name(base), width), width)

    # -- solver -----------------------------------------------------------

    def query(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise OutOfBudget()
        t0 = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t0
        st = self.stats
        st["solver_s"] += dt
        st["queries"] += 1
        if r == z3.sat:
            st["sat"] += 1
        elif r == z3.unsat:
            st["unsat"] += 1
        else:
            st["unknown"] += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort("unsat prefix")
            else:
                self.mark_incomplete("solver-unknown")
                raise PathAbort("unknown")
        return self.model

    def evaluate(self, term):
        return self.get_model().eval(term, model_completion=True)

    def mark_incomplete(self, why):
        self.path_incomplete = why
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    # -- replayed trail ---------------------------------------------------

    def _next(self, kind, cond, key=None):
        """ the recorded entry at this position, when replaying """
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != kind or e.key != key or (
                    cond is not None and e.cond is not None and
                    not e.cond.eq(cond)):
                raise EngineError(
                    "replay diverged at %d: had %s %s, now %s %s"
                    % (self.pos, e.kind, e.cond, kind, cond))
            self.pos += 1
            return e
        return None

    def _append(self, e, cond):
        self.solver.push()
        if cond is not None:
            self.solver.add(cond)
        self.trail.append(e)
        self.pos += 1

    # -- decisions ----------------------------------------------------------

    def decide(self, cond):
        """ True or False for this path; the other side is explored later """

        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        if cid in self.known:
            return self.known[cid]

        e = self._next(D, cond)
        if e is None:
            self.stats["decisions"] += 1
            v = z3.is_true(self.evaluate(cond))
            e = Entry(D, cond, v, True)
            self._append(e, cond if v else z3.Not(cond))
        self._learn(cond, e.value)
        return e.value

    def _learn(self, cond, value):
        self.keep.append(cond)
        self.known[cond.get_id()] = value
        n = z3.simplify(z3.Not(cond))
        self.keep.append(n)
        self.known[n.get_id()] = not value

    def concretize(self, term, soft=None):
        """ a python int for the (unsigned) bit-vector term; every
        feasible value is explored, unless soft gives a cap, in which
        case a truncated enumeration is marked as incomplete """

        term = z3.simplify(term)
        if z3.is_bv_value(term):
            return term.as_long()
        cid = ("v", term.get_id())
        if cid in self.known:
            return self.known[cid]
        e = self._next(V, term)
        if e is None:
            self.stats["values"] += 1
            v = self.evaluate(term).as_long()
            e = Entry(V, term, v, True)
            e.excluded = []
            e.count = soft or 0
            self._append(e, term == v)
        self.keep.append(term)
        self.known[cid] = e.value
        return e.value

    def choose(self, n, key=None):
        """ explicit case split, harness level """

        if n <= 1:
            return 0
        e = self._next(C, None, key)
        if e is None:
            e = Entry(C, None, 0, n > 1, n, key)
            self._append(e, None)
        return e.value

    def assume(self, cond):
        """ restrict this path (and everything below) to cond """

        if cond is True:
            return
        if cond is False:
            raise PathAbort("assume")
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort("assume")
        if self.known.get(cond.get_id()) is True:
            return
        e = self._next(A, cond)
        if e is None:
            e = Entry(A, cond, True, False)
            self._append(e, cond)
            if self.model is not None:
                if not z3.is_true(self.evaluate(cond)):
                    self.model = None
                    r = self.query()
                    if r == z3.sat:
                        self.model = self.solver.model()
                    elif r == z3.unsat:
                        raise PathAbort("assume")
                    else:
                        self.mark_incomplete("solver-unknown")
                        raise PathAbort("unknown")
        self._learn(cond, True)

    def define(self, cond):
        """ a definitional constraint over fresh variables: it never
        makes the path infeasible """

        e = self._next(A, cond)
        if e is None:
            e = Entry(A, cond, True, False)
            self._append(e, cond)
            self.model = None

    def check(self, cond, msg, key=None):
        """ assertion: the negation of cond must be unsatisfiable here """

        self.stats["checks"] += 1
        if cond is True:
            return
        if cond is False:
            self.get_model()
            raise CheckFailed(msg, key)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.get_model()
            raise CheckFailed(msg, key)
        if self.known.get(cond.get_id()) is True:
            return
        e = self._next(K, cond, msg)
        if e is None:
            if not z3.is_true(self.evaluate(cond)):
                raise CheckFailed(msg, key)
            self.stats["check_queries"] += 1
            neg = z3.Not(cond)
            self.solver.push()
            self.solver.add(neg)
            r = self.query()
            if r == z3.sat:
                self.model = self.solver.model()
                self.solver.pop()
                raise CheckFailed(msg, key)
            self.solver.pop()
            if r == z3.unknown:
                self.mark_incomplete("solver-unknown")
                raise PathAbort("unknown")
            e = Entry(K, cond, True, False, key=msg)
            self._append(e, None)
        self._learn(cond, True)

    # -- exploration --------------------------------------------------------

    def backtrack(self):
        """ move to the next unexplored alternative; False when done """

        trail = self.trail
        solver = self.solver
        while trail:
            e = trail[-1]
            solver.pop()
            if e.kind == D and e.pending:
                e.pending = False
                c = z3.Not(e.cond) if e.value else e.cond
                solver.push()
                solver.add(c)
                r = self.query()
                if r == z3.sat:
                    e.value = not e.value
                    self.model = solver.model()
                    return True
                if r == z3.unknown:
                    self.mark_incomplete("solver-unknown")
                solver.pop()
            elif e.kind == V and e.pending:
                e.excluded.append(e.value)
                cap = e.count or self.value_cap
                if len(e.excluded) >= cap:
                    solver.push()
                    solver.add(z3.And([e.cond != x for x in e.excluded]))
                    r = self.query()
                    solver.pop()
                    if r != z3.unsat:
                        self.mark_incomplete("values-truncated")
                else:
                    solver.push()
                    solver.add(z3.And([e.cond != x for x in e.excluded]))
                    r = self.query()
                    if r == z3.sat:
                        self.model = solver.model()
                        solver.pop()
                        v = self.model.eval(e.cond, model_completion=True)
                        e.value = v.as_long()
                        solver.push()
                        solver.add(e.cond == e.value)
                        return True
                    if r == z3.unknown:
                        self.mark_incomplete("solver-unknown")
                    solver.pop()
            elif e.kind == C and e.pending:
                e.value += 1
                e.pending = e.value + 1 < e.count
                solver.push()
                return True
            trail.pop()
        return False

    def explore(self, run, on_path):
        """ run() executes the harness once.  on_path(engine, outcome) is
        called at the end of each completed path, where outcome is None,
        a CheckFailed, or an Exception that escaped the harness.  It
        returns False to stop. """

        global CUR
        CUR = self
        try:
            while True:
                self.reset_path()
                outcome = None
                done = True
                try:
                    run()
                except PathAbort:
                    done = False
                    self.stats["aborted"] += 1
                except CheckFailed as cf:
                    outcome = cf
                except (Exception, SystemExit) as ex:
                    outcome = ex
                if done:
                    try:
                        self.get_model()
                    except PathAbort:
                        done = False
                        self.stats["aborted"] += 1
                if done:
                    self.stats["paths"] += 1
                    for c in self.path_covers:
                        self.covers[c] = self.covers.get(c, 0) + 1
                    if on_path(self, outcome) is False:
                        return False
                if done and self.pos < len(self.trail):
                    raise EngineError("replay ended early")
                if self.deadline and time.time() > self.deadline:
                    raise OutOfBudget()
                if self.max_paths and self.stats["paths"] >= self.max_paths:
                    self.incomplete["max-paths"] = 1
                    return True
                if not self.backtrack():
                    return True
        finally:
            CUR = None
