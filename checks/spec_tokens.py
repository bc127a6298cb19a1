"""Shared specification of prefix-token sequences (ghost functions over a batch of rows).

PS(r,i)  = sum_{m<i} (arity(tok[r,m]) - 1)           (open argument slots after i tokens = 1 + PS)
D(r,e,i) = PS(r,e) - PS(r,i)
P(r,e)   = largest j < e with D(r,e,j) >= 0: the token owning the next open slot after e tokens (exists when PS(r,e) >= 0)
"""
from pyvc.core import *
from pyvc.arrays import SArr


class Rows:
    def __init__(self, N=None, arity_max=2, tok_name='tok'):
        c = cur()
        self.N = Int('N') if N is None else N
        self.L, self.T = Int('L'), Int('T')
        c.assume(z3.And(lift(self.N) >= 1, self.L.t >= 1, self.T.t >= 1))
        self.tok = SArr.symbolic(tok_name, (self.N, self.L), 'int', lambda i, j, t: z3.And(t >= 0, t < self.T.t))
        self.ar = SArr.symbolic('ar', (self.T,), 'int', lambda i, t: z3.And(t >= 0, t <= arity_max))
        self.pa = SArr.symbolic('pa', (self.T,), 'int', lambda i, t: z3.And(t >= -1, t < self.T.t))
        self.R = Int('R')
        c.assume(z3.And(self.R.t >= 0, self.R.t < lift(self.N)))
        self.extra = []          # functions (r,i) -> axioms, instantiated with every mention of PS
        I = z3.IntSort()
        self.Pf = z3.Function('Pf', I, I, I)
        self.PS = SpecFn('PS', ['int', 'int', 'int'], self._ax)
        self.ends = []           # prefixes e for which P is used

    def AR(self, r, i):
        return self.ar.term(self.tok.term(r, i))

    def _ax(self, r, i):
        out = [self.PS.f(r, 0) == 0]
        for d in (i, z3.simplify(i + 1)):
            out.append(z3.Implies(d >= 1, self.PS.f(r, d) == self.PS.f(r, d - 1) + self.AR(r, z3.simplify(d - 1)) - 1))
        for e in self.ends:
            p = self.Pf(r, e)
            for x in (i, z3.simplify(i - 1), z3.simplify(e - 1)):
                out.append(z3.Implies(z3.And(x >= 0, x < e, x > p), self.PS.f(r, e) - self.PS.f(r, x) < 0))
            out += [z3.Implies(e >= 1, self.PS.f(r, e) == self.PS.f(r, e - 1) + self.AR(r, z3.simplify(e - 1)) - 1),
                    z3.Implies(z3.And(e >= 1, self.PS.f(r, e) >= 0),
                               z3.And(p >= 0, p < e, self.PS.f(r, e) - self.PS.f(r, p) >= 0,
                                      z3.Implies(p + 1 < e, self.PS.f(r, e) - self.PS.f(r, p + 1) < 0),
                                      self.PS.f(r, p + 1) == self.PS.f(r, p) + self.AR(r, p) - 1))]
        for f in self.extra:
            out += f(r, i)
        return out

    def D(self, r, e, i):
        return self.PS(r, e) - self.PS(r, i)

    def P(self, r, e):
        self.PS(r, e)
        return self.Pf(lift(r), lift(e))


class TokSet:
    """Symbolic token set given as an array of symbolic length; first(v) = first index of v (or the length)."""

    def __init__(self, S, name, pred=None, op=False):
        c = cur()
        self.S, self.n = S, Int('n_' + name)
        c.assume(self.n.t >= 0)
        I = z3.IntSort()
        self.first = z3.Function('first_' + name, I, I)

        def inv(k, t):
            out = [t >= 0, t < S.T.t, z3.Implies(z3.And(k >= 0, k < self.n.t), z3.And(self.first(t) >= 0, self.first(t) <= k))]
            if op:
                out.append(S.ar.store.get(t) >= 1)
            if pred is not None:
                out.append(z3.Implies(z3.And(k >= 0, k < self.n.t), pred(t)))
            return z3.And(out)
        self.arr = SArr.symbolic('set_' + name, (self.n,), 'int', inv)
        self.pred = pred
        self.arr.member_pred = self.isin
        self.arr.tokset = self

    def isin(self, v):
        v = lift(v)
        f = self.first(v)
        c = cur()
        c.assume_axiom(z3.And(f >= 0, f <= self.n.t, z3.Implies(f < self.n.t, self.arr.store.get(f) == v)))
        if self.pred is not None:
            c.assume_axiom(z3.Implies(z3.And(v >= 0, v < self.S.T.t), (f < self.n.t) == self.pred(v)))
        return f < self.n.t
