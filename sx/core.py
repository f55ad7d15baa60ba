"""Path exploration: one Ctx per symbolic path, decisions replayed from a prefix, z3 as the only oracle."""
import time
import z3


import os
TRACE = os.environ.get('SX_TRACE')


def _tr():
    import traceback
    st = [f for f in traceback.extract_stack() if 'run_check' not in f.filename and '/python' not in f.filename]
    with open(TRACE, 'a') as f:
        f.write(' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in st[::-1][2:9]) + '\n')


class Control(BaseException):
    """Engine control flow: never visible to the code under test (handlers are rewritten to let it through)."""


class PathEnd(Control):
    """The path is infeasible (an assumption contradicts it)."""


class PathCut(Control):
    """A stated bound was reached; the path is outside the claim."""


class MergeAbort(Control):
    """Speculative merging of two arms is impossible here: fall back to forking."""


class PathTimeout(Control):
    """Wall-clock limit of one path."""


CTX = None          # the running context (one per process)


def ctx():
    return CTX


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Ctx(object):
    symbolic = True

    def __init__(self, prefix=(), logic='QF_BV', query_timeout=20000, max_decisions=4000,
                 max_conc=40, rand_limit=12):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []
        self.pending = []               # alternative prefixes discovered on this path
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.bv_only = bool(logic)
        self.query_timeout = query_timeout
        self.solver.set('timeout', query_timeout)
        self.inputs = {}                # name -> (kind, z3 expr)
        self.model = None
        self.model_ok = False
        self.funcs = set()
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.concretizations = 0
        self.checks = 0
        self.candidates = []            # [(msg, inputs)]
        self.spec = 0
        self.max_decisions = max_decisions
        self.max_conc = max_conc
        self.rand_limit = rand_limit
        self.rand_n = 0
        self.files = {}
        self.tokens = {}
        self.uf = {}                    # Ackermann tables of opaque functions
        self.fresh_n = 0
        self.covered = set()
        self.goals, self.reached = set(), set()     # what must be possible, and what is on this path
        self.notes = set()
        self.nassert = 0

    # ---------------------------------------------------------------- solver
    def use_reals(self):
        """A symbolic real showed up: leave the bit-vector-only solver."""
        old, self.solver = self.solver, z3.Solver()
        self.solver.set('timeout', self.query_timeout)
        self.solver.add(*old.assertions())
        self.bv_only = self.model_ok = False

    def _check(self, *lits):
        self.queries += 1
        t = time.time()
        r = self.solver.check(*lits)
        self.solver_time += time.time() - t
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def _second_opinion(self):
        """Undecided (perhaps because the machine is busy): other solvers, and more time."""
        asserts = self.solver.assertions()
        for make in (lambda: z3.Then('simplify', 'qfnra-nlsat').solver(), lambda: z3.Solver(),
                     lambda: z3.SolverFor('QF_BV') if self.bv_only else z3.SolverFor('QF_NRA')):
            try:
                s = make()
                s.set('timeout', 3 * self.query_timeout)
                s.add(*asserts)
                t = time.time()
                r = s.check()
                self.solver_time += time.time() - t
                self.queries += 1
                if r != z3.unknown:
                    return r, s.model() if r == z3.sat else None
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    def sat_with(self, cond):
        """Is the path condition together with cond satisfiable? unknown counts as satisfiable."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.solver.push()
        try:
            self.solver.add(cond)
            r = self._check()
            if r == z3.sat:
                self.last_model = self.solver.model()
            return r != z3.unsat, r
        finally:
            self.solver.pop()

    def _feasible(self, cond):
        m = self._model()
        if m is not None:
            v = m.eval(cond, model_completion=True)
            if z3.is_true(v):
                return True
        r = self.sat_with(cond)
        return r if isinstance(r, bool) else r[0]

    def _model(self):
        if self.model is None or not self.model_ok:
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            self.model = self.solver.model() if r == z3.sat else None
            self.model_ok = True
        return self.model

    def add(self, cond):
        if z3.is_true(cond):
            return
        self.nassert += 1
        self.solver.add(cond)
        if self.model is not None and self.model_ok:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model_ok = False

    # ------------------------------------------------------------- decisions
    def branch(self, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.spec:
            raise MergeAbort()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            if d == 'T':
                self.add(cond)
            elif d == 'F':
                self.add(z3.Not(cond))
            return d in 'Tt'
        if len(self.trail) >= self.max_decisions:
            raise PathCut('decision limit')
        s = z3.simplify(cond)
        if z3.is_true(s) or z3.is_false(s):
            d = 't' if z3.is_true(s) else 'f'
        else:
            m = self._model()
            neg = z3.Not(cond)
            if m is not None and z3.is_true(m.eval(cond, model_completion=True)):
                t = True
                f = self._feasible_q(neg)
            elif m is not None:
                f = True
                t = self._feasible_q(cond)
            else:
                t, f = self._feasible_q(cond), self._feasible_q(neg)
            if t and f:
                if TRACE:
                    _tr()
                self.pending.append(self.trail + ['F'])
                d = 'T'
            elif t:
                d = 't'
            elif f:
                d = 'f'
            else:
                raise PathEnd()
            if d == 'T':
                self.add(cond)
        self.pos += 1
        self.trail.append(d)
        self.prefix.append(d)
        return d in 'Tt'

    def _feasible_q(self, cond):
        r = self.sat_with(cond)
        return r if isinstance(r, bool) else r[0]

    def concretize(self, expr, to_py):
        """Fork over the feasible values of expr; returns the python value on this path."""
        if self.spec:
            raise MergeAbort()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trail.append(d)
                kind, v = d
                zv = to_py(v)
                if kind == '=':
                    self.add(expr == zv)
                    return v
                elif kind == '!':
                    return v
                self.add(expr != zv)
                n += 1
                continue
            if n >= self.max_conc:
                raise PathCut('concretization cap')
            m = self._model()
            if m is None:
                raise PathCut('solver gave no model')
            ve = m.eval(expr, model_completion=True)
            v = from_z3(ve)
            self.concretizations += 1
            other = self._feasible_q(expr != ve)
            self.pos += 1
            if other:
                self.pending.append(self.trail + [('#', v)])
                d = ('=', v)
                self.add(expr == ve)
            else:
                d = ('!', v)
            self.trail.append(d)
            self.prefix.append(d)
            return v

    # ---------------------------------------------------------------- inputs
    def new_var(self, name, kind, expr):
        self.inputs[name] = (kind, expr)

    def model_inputs(self, model):
        out = {}
        for name, (kind, e) in self.inputs.items():
            out[name] = from_z3(model.eval(e, model_completion=True))
        return out

    # ---------------------------------------------------------------- checks
    def check_expr(self, cond, msg):
        """cond: z3 Bool. Records a counterexample candidate when it can be false on this path."""
        self.checks += 1
        if z3.is_true(cond):
            return
        neg = z3.Not(cond)
        learnt = []
        self.solver.push()
        try:
            self.solver.add(neg)
            r = self._check()
            model = None
            if r == z3.unknown:
                r, model = self._second_opinion()
            if r == z3.sat and model is None and self.uf.get('defined'):
                from .capstub import settle
                r, model, learnt = settle(self)
            if r == z3.sat:
                self.candidates.append((msg, self.model_inputs(model if model is not None else self.solver.model())))
            elif r == z3.unknown:
                self.notes.add('unknown: ' + msg)
        finally:
            self.solver.pop()
        for x in learnt:
            self.add(x)
        if r != z3.unsat:
            self.add(cond)
            self.model_ok = False
            # continue under the property so that later checks are still explored
            self._model()

    def path_inputs(self):
        m = self._model()
        return self.model_inputs(m) if m is not None else {}


def from_z3(v):
    if z3.is_bool(v):
        return z3.is_true(v)
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return [v.numerator_as_long(), v.denominator_as_long()]
    raise RuntimeError('no python value for %s' % v)
