"""sx: a forking symbolic-execution engine for Python source code.

Every symbolic value carries a z3 expression and its concrete value under the
current model ("shadow").  A run follows the shadows; every data-dependent
decision is recorded as a z3 constraint.  After the run, for each decision past
the inherited prefix, z3 is asked for a model of (prefix and not decision):
`unsat` closes that side for *all* values within the bounds, `sat` yields the
input of a new run.  When no job is left, every path within the bounds has been
decided.  Assertions are decisions too: `sat` on the negated assertion is a
counterexample.
"""

import sys
import time

import z3


class PathAbort(BaseException):
    """The path is infeasible under an assumption; not an error."""


class PathLimit(BaseException):
    """The path exceeded a resource bound (decisions or time)."""


class EngineError(BaseException):
    pass


class Dec:
    """One decision on a path."""
    __slots__ = ('expr', 'kind', 'info')

    def __init__(self, expr, kind, info=None):
        self.expr = expr        # the constraint as taken (true on this path)
        self.kind = kind        # 'br', 'pin', 'assert', 'assume'
        self.info = info


class InputVar:
    __slots__ = ('name', 'var', 'width', 'lo', 'hi', 'signed')

    def __init__(self, name, var, width):
        self.name = name
        self.var = var
        self.width = width


class Engine:

    def __init__(self):
        self.active = False
        self.hash_ok = 0
        self.sites = {}         # concretisation log: site -> count
        self.pin_counts = {}
        self.pin_limit = 40
        self.max_decisions = 20000
        self.stats = dict(paths=0, decisions=0, queries=0, sat=0, unsat=0,
                          unknown=0, solver_s=0.0, aborted=0, limited=0,
                          asserts=0, assert_queries=0, asserts_const=0)
        self.path_deadline = None
        self.unary = {}
        self.reset({}, 0)

    # -- per path -----------------------------------------------------------

    def reset(self, assign, bound):
        self.assign = dict(assign)
        self.bound = bound
        self.path = []
        self.decided = {}
        self.keep = []
        self.inputs = {}
        self.pre = []           # domain constraints (never flipped)
        self.domains = {}       # var name -> bitmask of still allowed values
        self.observations = []
        self.covers = set()
        self.violations = []
        self.pinned_sites = []

    # -- decisions ----------------------------------------------------------

    def decide(self, sb, kind='br', info=None):
        """Record the truth of SymBool `sb` (as shadowed) and return it."""
        if sb is True or sb is False:
            return sb
        conc = sb.conc
        um = sb.um
        if um is not None:
            var, mask = um
            dom = self.domains.get(var)
            if dom is not None:
                inter = dom & mask
                if inter == dom:
                    return True
                if inter == 0:
                    return False
                self.domains[var] = inter if conc else (dom & ~mask)
        expr = sb.expr
        if expr is True or expr is False:
            return conc
        i = expr.get_id()
        got = self.decided.get(i)
        if got is not None:
            return conc
        self.decided[i] = expr
        taken = expr if conc else z3.Not(expr)
        self.path.append(Dec(taken, kind, info))
        if len(self.path) > self.max_decisions or (
                self.path_deadline and not (len(self.path) & 63) and
                time.time() > self.path_deadline):
            raise PathLimit()
        return conc

    def site(self):
        f = sys._getframe(2)
        while f is not None:
            fn = f.f_code.co_filename
            if '/sx/' not in fn:
                return '%s:%d' % (fn.split('/verif/')[-1], f.f_lineno)
            f = f.f_back
        return '?'

    def pin(self, eqbool, why):
        """Constrain a value to its shadow, noting the concretisation."""
        um = getattr(eqbool, 'um', None)
        if eqbool is True or (um is not None and not
                              self.domains.get(um[0], -1) & ~um[1]):
            return
        s = '%s [%s]' % (self.site(), why)
        self.sites[s] = self.sites.get(s, 0) + 1
        self.decide(eqbool, 'pin', s)


E = Engine()
