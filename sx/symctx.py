"""The symbolic form of the harness API."""

import z3

from sx import values as V
from sx.core import E, PathAbort
from sx.ctx import BaseCtx, Violation, canon, mask_of
from sx.seq import mk
from sx.values import SymInt, SymBool, FULL


class SymCtx(BaseCtx):

    symbolic = True

    def is_symbolic(self, x):
        return V.is_sym(x)

    def __init__(self, params):
        self.params = params
        self.scratch = {}

    def _byte(self, name, mask):
        if name in E.inputs:
            raise AssertionError('duplicate input ' + name)
        v = E.assign.get(name)
        if v is None or not mask >> v & 1:
            v = (mask & -mask).bit_length() - 1
        E.inputs[name] = ('b', v)
        if mask & (mask - 1) == 0:
            return v
        E.domains[name] = mask
        if mask != FULL:
            E.path.append(_pre(V.mask_expr(name, mask)))
        return SymInt(None, v, lowest(mask), mask.bit_length() - 1,
                      var=name)

    def bytes(self, name, n, alphabet=None):
        m = mask_of(alphabet)
        return mk([self._byte('%s.%d' % (name, i), m) for i in range(n)],
                  bytes)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        if 0 <= lo and hi < 256:
            return self._byte(name, ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1))
        v = E.assign.get(name)
        if v is None or not lo <= v <= hi:
            v = lo
        E.inputs[name] = ('i', v)
        w = V.width_for(lo, hi)
        var = z3.BitVec('I!' + name, w)
        E.ivars[name] = var
        E.path.append(_pre(z3.And(var >= lo, var <= hi)))
        if 0 <= lo and hi < V.WIDE:
            key = 'I!' + name
            E.domains[key] = E.iranges[key] = (1 << (hi + 1)) - (1 << lo)
            return SymInt(var, v, lo, hi, wide=key)
        return SymInt(var, v, lo, hi)

    def choice(self, name, options):
        options = list(options)
        n = len(options)
        if n == 1:
            return options[0]
        i = self._byte(name, (1 << n) - 1)
        for j in range(n - 1):
            if i == j:
                return options[j]
        return options[n - 1]

    def assume(self, cond):
        if not bool(cond):
            raise PathAbort()

    def check(self, cond, label, *detail):
        st = E.stats
        st['asserts'] += 1
        if type(cond) is SymBool:
            if cond.conc:
                E.decide(cond, 'assert', (label, detail))
                return
            E.decide(cond)
        elif cond:
            st['asserts_const'] += 1
            return
        E.violations.append((label, [canon(d) for d in detail]))
        raise Violation(label)

    def observe(self, *xs):
        E.observations.append([canon(x) for x in xs])

    def cover(self, label):
        E.covers.add(label)


def _pre(expr):
    from sx.core import Dec
    return Dec(expr, 'pre')


def lowest(mask):
    return (mask & -mask).bit_length() - 1
