"""Shared specification of one complete prefix expression and of the stacks used to walk it.

For a prefix sequence of n tokens that is exactly one complete expression (C01):
  AR(p)     arity of the token at p (0..2)
  END(p)    index just after the subtree rooted at p;   CH(p,0)=p+1, CH(p,1)=END(p+1), CH(p,2)=END(END(p+1)), END(p)=CH(p,AR(p))
  VAL(p)    value of the subtree rooted at p, defined bottom-up (structural recursion, so the definition is total and unique)
A frame (p, f) of an evaluation stack stands for token p with its first f arguments evaluated; the position evaluated next is CH(p,f).
"""
from pyvc.core import *
from pyvc.interp import SSeq, LoopContract

I = z3.IntSort()
ValS = z3.DeclareSort('Val')


class V:
    """opaque value"""

    def __init__(self, t):
        self.t = t


class Tree:
    def __init__(self, tag=''):
        c = cur()
        self.n = z3.Int('len_tr' + tag)
        self.AR = z3.Function('AR' + tag, I, I)
        self.ENDf = z3.Function('END' + tag, I, I)
        self.VALf = z3.Function('VAL' + tag, I, ValS)
        self.KIND = z3.Function('KIND' + tag, I, I)      # 0 input 1 state 2 parameter 3 plain operator 4 derivative 5 laplacian
        self.IN, self.ST, self.PA = (z3.Function(x + tag, I, I) for x in ('IN', 'ST', 'PA'))
        c.assume(self.n >= 1)
        self.seen = set()
        self.pos(z3.IntVal(0))
        c.assume_axiom(self.ENDf(0) == self.n)
        self.extra = None

    def pos(self, p):
        """facts about position p (well-formedness of a complete prefix expression)"""
        p = z3.simplify(p)
        c = cur()
        A, E = self.AR, self.ENDf
        q = p + 1
        r = E(q)
        ok = z3.And(p >= 0, p < self.n)
        c.assume_axiom(z3.Implies(ok, z3.And(
            A(p) >= 0, A(p) <= 2, E(p) > p, E(p) <= self.n,
            z3.Implies(A(p) == 0, E(p) == q),
            z3.Implies(A(p) >= 1, z3.And(q < self.n, r > q, r <= self.n)),
            z3.Implies(A(p) == 1, E(p) == r),
            z3.Implies(A(p) == 2, z3.And(r < self.n, E(r) > r, E(r) <= self.n, E(p) == E(r))),
            self.KIND(p) >= 0, self.KIND(p) <= 5, (self.KIND(p) <= 2) == (A(p) == 0),
            # documented use of derivatives: the second argument is a coordinate
            z3.Implies(self.KIND(p) == 4, z3.And(A(p) == 2, self.KIND(r) == 0, A(r) == 0, E(r) == r + 1)),
            z3.Implies(self.KIND(p) == 5, A(p) == 1),
            self.IN(p) >= 0, self.ST(p) >= 0)))
        return p

    def CH(self, p, j):
        p = self.pos(p)
        if j == 0:
            return z3.simplify(p + 1)
        a = self.ENDf(z3.simplify(p + 1))
        return a if j == 1 else self.ENDf(a)

    def END(self, p):
        return self.ENDf(self.pos(p))

    def VAL(self, p):
        return self.VALf(z3.simplify(p))


class SymStack:
    """Evaluation stack: an arbitrary chain of frames below, `top` concrete frames above.
    link = position at which the lowest concrete frame (or, without one, the next token) starts."""

    def __init__(self, base, link, mk_frame, pending):
        self.base, self.link, self.mk, self.pending = base, link, mk_frame, pending
        self.frames = []

    def materialise(self):
        """reveal the topmost abstract frame (needs base >= 1)"""
        c = cur()
        fr, p = self.mk(self.link)
        self.base = z3.simplify(self.base - 1)
        c.assume(z3.Implies(self.base == 0, p == 0), check=False)
        c.assume(z3.Implies(self.base > 0, p > 0), check=False)
        self.link = p
        self.frames.insert(0, fr)

    def append(self, fr):
        self.frames.append(fr)

    def pop(self, i=-1):
        if lift(i) is not None and str(i) != '-1':
            raise Unsupported('stack pop index')
        if not self.frames:
            if not cur().decide(self.base >= 1):
                raise PyRaise(IndexError('pop from empty list'))
            self.materialise()
        return self.frames.pop()

    def __getitem__(self, i):
        if isinstance(i, int) and i < 0:
            while len(self.frames) < -i:
                if not cur().decide(self.base >= 1):
                    raise PyRaise(IndexError('list index out of range'))
                self.materialise()
            return self.frames[i]
        raise Unsupported('stack index')

    def __symlen__(self):
        return wrap(z3.simplify(self.base + len(self.frames)))
