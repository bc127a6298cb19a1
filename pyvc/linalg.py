"""Index sets and opaque matrix expressions (used by the contracts of sparse regression and of column selection)."""
import z3
from .core import *
from . import core
from .arrays import SArr, Store, WRITE_LOG, coerce


class IndexSet:
    """The increasing list of the indices i in [0, n) with pred(i): np.where(cond)[0], [i for i in range(n) if cond]."""
    __indexset__ = True

    def __init__(self, n, pred):
        self.n, self.pred = lift(n), pred

    def has(self, i):
        i = lift(i)
        return z3.And(i >= 0, i < self.n, self.pred(i))

    def __symcontains__(self, x):
        return wrap(self.has(x))

    def __symlen__(self):
        c = cur_or_fail()
        q = z3.Int('setq')
        key = z3.simplify(self.pred(q)).sexpr() + '|' + z3.simplify(self.n).sexpr()
        tab = c.__dict__.setdefault('set_sizes', {})
        if key not in tab:
            k = z3.Int(fresh_name('card'))
            rng = z3.And(q >= 0, q < self.n)
            c.assume_axiom(z3.And(k >= 0, k <= z3.If(self.n > 0, self.n, 0)))
            c.assume_axiom((k == 0) == z3.ForAll([q], z3.Implies(rng, z3.Not(self.pred(q)))))
            c.assume_axiom((k == self.n) == z3.ForAll([q], z3.Implies(rng, self.pred(q))))
            for p2, n2, k2 in tab.values():
                c.assume_axiom(z3.Implies(z3.ForAll([q], z3.Implies(rng, self.pred(q) == p2(q))), k == k2))
            tab[key] = (self.pred, self.n, k)
        return wrap(tab[key][2])

    @property
    def size(self):
        return self.__symlen__()

    @property
    def shape(self):
        return (self.__symlen__(),)

    def __ne__(self, o):
        if isinstance(o, list) and not o:
            # numpy comparison of an index array with []: broadcasting of a length-m array against a length-0 array
            n = self.__symlen__()
            c = cur_or_fail()
            if c.decide(lift(n) <= 1):
                raise PyRaise(ValueError('The truth value of an empty array is ambiguous.'))
            raise PyRaise(ValueError('operands could not be broadcast together'))
        return NotImplemented

    __hash__ = object.__hash__

    def tolist(self):
        return self

    def same(self, o):
        i = z3.Int(fresh_name('i'))
        return cur_or_fail().entails(z3.ForAll([i], self.has(i) == o.has(i)))


class Mx:
    """opaque matrix expression: op over arguments"""

    def __init__(self, op, *args):
        self.op, self.args = op, args

    @property
    def T(self):
        return self.args[0] if self.op == 'T' else Mx('T', self)

    def dot(self, o): return Mx('dot', self, o)
    __matmul__ = dot
    def __rmatmul__(self, o): return Mx('dot', o, self)
    def __add__(self, o): return Mx('+', self, o)
    def __radd__(self, o): return Mx('+', o, self)
    def __sub__(self, o): return Mx('-', self, o)
    def __rsub__(self, o): return Mx('-', o, self)
    def __mul__(self, o): return Mx('*', self, o)
    def __rmul__(self, o): return Mx('*', o, self)
    def __truediv__(self, o): return Mx('/', self, o)
    def __pow__(self, o): return Mx('**', self, o)

    def __repr__(self):
        return f'{self.op}({", ".join(map(repr, self.args))})'


class SubArr(Mx):
    """columns (axis 1) of a 2-D array restricted to an index set"""

    def __init__(self, base, iset):
        super().__init__('cols', base, iset)
        self.base, self.iset = base, iset

    @property
    def shape(self):
        return (self.base.shape[0], self.iset.__symlen__())


class SubVec:
    """one value per member of an index set, in the set's order"""

    def __init__(self, iset, val):
        self.iset, self.val = iset, val


def frozen(a):
    return SArr.make(a._shape, a.sort, a.snapshot())


def getitem(a, idx):
    """SArr indexed with an IndexSet"""
    idx = idx if isinstance(idx, tuple) else (idx,)
    if a.ndim == 2 and len(idx) == 2 and idx[0] == slice(None) and isinstance(idx[1], IndexSet):
        return SubArr(frozen(a), idx[1])
    if isinstance(idx[0], IndexSet) and len(idx) == 1 and (a.ndim == 1 or a.ndim == 2):
        b = frozen(a)
        return SubVec(idx[0], lambda i: b.term(*([i] if a.ndim == 1 else [i, z3.IntVal(0)])))
    raise Unsupported('selection with an index set')


def setitem(a, idx, val):
    idx = idx if isinstance(idx, tuple) else (idx,)
    S = idx[0]
    if not isinstance(S, IndexSet) or any(not (isinstance(x, slice) and x == slice(None)) for x in idx[1:]):
        raise Unsupported('assignment to a selection')
    old = a.store.get
    inv = a._inverse()
    if isinstance(val, SubVec):
        if val.iset.same(S):
            f = val.val
        else:
            # another set: numpy pairs members by rank (or refuses), i.e. arbitrary values as far as these columns are concerned
            g = z3.Function(fresh_name('misaligned'), z3.IntSort(), z3.RealSort())
            f = lambda i: g(i)
    elif isinstance(val, (SArr, Mx)):
        raise Unsupported('array assigned to a selection')
    else:
        v = lift(val)
        f = lambda i: v

    def get(*s):
        ok, w = inv(s)
        return z3.If(z3.And(ok, S.has(w[0])), coerce(f(w[0]), a.sort), old(*s))
    WRITE_LOG.append((a.store, old))
    a.store.get = get
