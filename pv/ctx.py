"""Path exploration, solver access and proof obligations."""
import copy
import time
import z3
from .realarith import unify
from .values import *


class PathEnd(Exception):
    """this path needs no further exploration"""


class CutReached(Exception):
    """end of an arbitrary loop iteration: the path is closed by the invariant"""
    def __init__(self, rec):
        super().__init__('cut')
        self.rec = rec


class NoMerge(Exception):
    """the two branches of a conditional cannot be evaluated to one value"""


class TimeUp(Exception):
    pass


class Obligation:
    __slots__ = ('label', 'status', 'time', 'model', 'abstract', 'note')
    def __init__(self, label, status, t, model=None, abstract=False, note=''):
        self.label = label; self.status = status; self.time = t
        self.model = model; self.abstract = abstract; self.note = note


class Ctx:
    DECIDE_MS = 3000
    OBLIGE_MS = 10000
    PROVE_MS = 1500
    patience = 1

    def __init__(self, deadline=None):
        self.trace = []          # [value, remaining alternatives]
        self.funcs = {}
        self.obligations = []
        self.stats = {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'decides': 0}
        self.deadline = deadline
        self.record = True
        self.z3_ms = None
        self.new_path()

    # -------------------------------------------------------------- paths
    def new_path(self):
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.DECIDE_MS)
        self.solver.set('random_seed', 1)
        self.pc = []
        self.counter = {}
        self.choice_memo = {}
        self.assumed = set()
        self.ticks = 0
        self.world = None
        self.path_abstract = False
        self.vague = []
        self.byte_seen = set()
        self.opaque_calls = []
        self.kprobes = []
        self.find_memo = []
        self.index_terms = {}
        self.known = {}
        self.pending = []
        self.keep = []
        self.notes = []
        self.spec = 0            # inside a branch that is evaluated to a value
        self.models = []         # [model, number of path facts it is known to satisfy]

    def tick(self):
        self.ticks += 1
        return self.ticks

    def next_path(self):
        """backtrack; False when everything has been explored"""
        while self.trace and not self.trace[-1][1]:
            self.trace.pop()
        if not self.trace:
            return False
        self.trace[-1][0] = self.trace[-1][1].pop(0)
        self.new_path()
        return True

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return '%s!%d' % (name, n)

    def func(self, name, dom, rng):
        key = (name, tuple(s.name() for s in dom), rng.name())
        f = self.funcs.get(key)
        if f is None:
            f = self.funcs[key] = z3.Function(name, *(list(dom) + [rng]))
        return f

    # -------------------------------------------------------------- solver
    MODELS = 4

    def witness(self, e, want):
        """does a known model of the path give e the truth value `want`?"""
        for m in list(self.models):
            md, n = m
            while n < len(self.pc) and z3.is_true(md.eval(self.pc[n], model_completion=True)):
                n += 1
            m[1] = n
            if n < len(self.pc):
                self.models.remove(m)
            elif (z3.is_true if want else z3.is_false)(md.eval(e, model_completion=True)):
                return True
        return False

    def _check(self, e, ms):
        if self.deadline is not None and time.time() > self.deadline:
            raise TimeUp()
        if self.pending:
            self.flush()
        t = time.time()
        self.solver.push()
        self.solver.add(e)
        self.solver.set('timeout', ms * self.patience)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if m is not None:
            self.models.insert(0, [m, len(self.pc)])
            del self.models[self.MODELS:]
        self.solver.pop()
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        return r, m, dt

    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)

    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise PathEnd()
        k = e.get_id()
        if k in self.assumed:
            return
        self.assumed.add(k)
        self.add(e)

    def assume_feasible(self, e):
        """assume and end the path when that is contradictory"""
        if not self.decide_forced(e):
            raise PathEnd()

    def decide_forced(self, e):
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
        else:
            self.flush()        # what was met before the assumption is proved without it
            v = self.witness(e, True) or self._check(e, self.DECIDE_MS)[0] != z3.unsat
            self.trace.append([v, []])
            self.pos += 1
        if v:
            self.add(e)
        return v

    def decide(self, e):
        """truth of e on this path (forks when both are possible)"""
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats['decides'] += 1
        kn = self.known.get(e.get_id())
        if kn is not None:
            return kn
        if z3.is_not(e):
            kn = self.known.get(e.arg(0).get_id())
            if kn is not None:
                return not kn
        if self.spec:
            if self.prove(e):
                return True
            if self.prove(z3.Not(e)):
                return False
            raise NoMerge()
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
            self.add(e if v else z3.Not(e))
            self.learn(e, v)
            return v
        ne = z3.Not(e)
        self.flush()            # what was met before the branch is proved for both sides
        can = self.witness(e, True) or self._check(e, self.DECIDE_MS)[0] != z3.unsat
        if not can:
            self.trace.append([False, []])
            v = False
        else:
            if not self.witness(e, False) and self._check(ne, self.DECIDE_MS)[0] == z3.unsat:
                self.trace.append([True, []])
            else:
                self.trace.append([True, [False]])
            v = True
        self.pos += 1
        self.add(e if v else ne)
        self.learn(e, v)
        return v

    def learn(self, e, v):
        self.keep.append(e)
        if z3.is_not(e):
            e = e.arg(0)
            v = not v
        self.known[e.get_id()] = v

    def under(self, cond, thunk):
        """the value of thunk where cond holds, without branching; the facts it establishes
        are kept under that condition"""
        if self.pos >= len(self.trace):
            self.flush()
        names = ('assumed', 'byte_seen', 'kprobes', 'find_memo', 'index_terms', 'known', 'choice_memo')
        saved = {n: copy.copy(getattr(self, n)) for n in names}
        n = len(self.pc)
        self.solver.push()
        self.spec += 1
        facts = []
        try:
            self.add(cond)
            self.learn(cond, True)
            r = thunk()
            facts = self.pc[n + 1:]
        finally:
            self.spec -= 1
            self.solver.pop()
            del self.pc[n:]
            for m in self.models:
                m[1] = min(m[1], n)
            for k, v in saved.items():
                setattr(self, k, v)
        for f in facts:
            self.add(z3.Implies(cond, f))
        return r

    def choose(self, n):
        if n <= 1:
            return 0
        if self.spec:
            raise NoMerge()
        if self.pending:
            self.flush()
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
            return v
        self.trace.append([0, list(range(1, n))])
        self.pos += 1
        return 0

    def prove(self, e, ms=PROVE_MS):
        """is e entailed on this path (heuristic use only)?  Recorded in the
        trace, so that re-execution of the path is deterministic."""
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
            return v
        r = z3.sat if self.witness(e, False) else self._check(z3.Not(e), ms)[0]
        if r == z3.unknown:
            self.stats['unknown'] = self.stats.get('unknown', 0) + 1
        v = r == z3.unsat
        self.trace.append([v, []])
        self.pos += 1
        return v

    def feasible(self):
        r, _, _ = self._check(z3.BoolVal(True), self.OBLIGE_MS)
        return r

    def oblige(self, label, e, note=''):
        """proof obligation: e holds whenever this point is reached"""
        if not self.record:
            return
        if self.pos < len(self.trace):
            return               # already discharged on an earlier path with this prefix
        if e is True:
            self.obligations.append(Obligation(label, 'proved', 0.0))
            return
        if e is False:
            e = z3.BoolVal(False)
        self.pending.append((label, e, note))

    def open(self, label, note=''):
        """an assumption that could not be established: nothing is proved"""
        if self.record and self.pos >= len(self.trace):
            self.obligations.append(Obligation(label, 'unknown', 0.0, None, True, note))

    def flush(self):
        """discharge the obligations met since the last branch of the path"""
        pend, self.pending = self.pending, []
        if not pend:
            return
        es = []
        todo = []
        for (label, e, note) in pend:
            s = z3.simplify(e)
            if z3.is_true(s):
                self.obligations.append(Obligation(label, 'proved', 0.0))
            else:
                todo.append((label, e, note))
                es.append(e)
        if not todo:
            return
        if len(todo) > 1:
            r, m, dt = self._check(z3.Not(z3.And(*es)), self.OBLIGE_MS)
            if r == z3.unsat:
                for (label, e, note) in todo:
                    self.obligations.append(Obligation(label, 'proved', dt / len(todo)))
                return
        for (label, e, note) in todo:
            r, m, dt = self._check(z3.Not(e), self.OBLIGE_MS)
            st = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
            if st == 'refuted':
                e2 = unify(z3.substitute(e, *self.vague) if self.vague else e)
                if not e2.eq(e):    # does something equality needs fail?
                    r, m, _ = self._check(z3.Not(e2), self.OBLIGE_MS)
                    st = 'refuted' if r == z3.sat else 'unknown'
            self.obligations.append(Obligation(label, st, dt, m, self.path_abstract, note))
