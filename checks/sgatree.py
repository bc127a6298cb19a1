"""Ghost vocabulary for the genetic-search trees: operator/variable tables, levels as prefix sums of child counts, names."""
import types
import numpy as np
from pyvc.core import *
from pyvc.interp import SSeq

I = z3.IntSort()
CODES = {}


def code_of(s):
    return CODES.setdefault(s, len(CODES) - 1000)


class SName:
    """name of a variable: an arbitrary code; never equal to an operator name"""

    def __init__(self, t, tables):
        self.t, self.tables = t, tables

    def __eq__(self, o):
        if isinstance(o, SName):
            return wrap(z3.simplify(self.t == o.t))
        if isinstance(o, str):
            return False if o in self.tables.opnames else wrap(z3.simplify(self.t == code_of(o)))
        return False

    def __ne__(self, o):
        r = self == o
        return snot(r) if isinstance(r, Sym) else not r

    def __hash__(self):
        raise Unsupported('variable name as a dictionary key')


class OpName:
    """name of an operator of a known arity: one of the operators of the table, symbolic"""

    def __init__(self, tables, arity, among):
        names = [r for r in among if tables.ops[r] == arity]
        if not names:
            raise PathEnd()
        self.tables, self.arity = tables, arity
        self.t = z3.Int(fresh_name('op'))
        cur().assume(z3.Or([self.t == code_of(n) for n in names]), check=False)

    def is_in(self, names):
        return z3.Or([self.t == code_of(n) for n in names])

    def __eq__(self, o):
        if isinstance(o, OpName):
            return True if self is o else wrap(z3.simplify(self.t == o.t))
        if isinstance(o, str):
            return wrap(z3.simplify(self.t == code_of(o)))
        return False

    def __ne__(self, o):
        r = self == o
        return snot(r) if isinstance(r, Sym) else not r

    def __hash__(self):
        raise Unsupported('operator name as a dictionary key')

    def is_d(self):
        return cur().decide(self.is_in(('d', 'd^2')))


class Row:
    """row of a table: [name, arity, value]"""
    __slots__ = ('table', 'i', '_c')

    def __init__(self, table, i):
        self.table, self.i, self._c = table, i, {}

    def __getitem__(self, j):
        if j not in self._c:
            self._c[j] = self.table.cell(self, j)
        return self._c[j]

    def __symlen__(self):
        return 3


class Column:
    def __init__(self, table):
        self.table = table

    def __symcontains__(self, x):
        if isinstance(x, SName):
            return wrap(self.table.tables.DEN(x.t)) if self.table.name == 'den' else self._other()
        if isinstance(x, (OpName, str)):
            return False if isinstance(x, OpName) or x in self.table.tables.opnames else wrap(self.table.tables.DEN(z3.IntVal(code_of(x))))
        return False

    def _other(self):
        raise Unsupported('membership in another column')


class Table(SSeq):
    """symbolic table of variables (arity 0), or the operator table named by the real context"""

    def __init__(self, tables, name, rows=None):
        self.tables, self.name, self.rows = tables, name, rows
        self.n = z3.Int('n_' + name)
        cur().assume(self.n >= 1, check=False)
        self.NM = z3.Function('NAME_' + name, I, I)
        SSeq.__init__(self, self.n, lambda k: self.row(k))

    def __symlen__(self):
        return wrap(self.n)

    def row(self, i):
        return Row(self, lift(i))

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and i[1] == 0:
            return Column(self)
        t = lift(i)
        cur().prove(f'{self.tables.fn}: row index inside the table', z3.And(t >= 0, t < self.n))
        return Row(self, t)

    def cell(self, row, j):
        c, T = cur(), self.tables
        if self.rows is None:
            if j == 0:
                nm = SName(self.NM(row.i), T)
                if self.name == 'den':
                    c.assume_axiom(T.DEN(nm.t))
                return nm
            return 0 if j == 1 else Val(row)
        if j == 1:
            ars = sorted({T.ops[r] for r in self.rows})
            return ars[c.choose(len(ars))]
        if j == 0:
            return OpName(T, row[1], self.rows)
        return Val(row)


class Val:
    def __init__(self, row):
        self.row = row


class Tables:
    def __init__(self, fn, ctxobj):
        self.fn = fn
        self.DEN = z3.Function('DEN', I, z3.BoolSort())
        names = {}
        self.ops = {}
        for nm in ('OPS', 'ROOT', 'OP1', 'OP2'):
            names[nm] = [str(r[0]) for r in getattr(ctxobj, nm)]
            for r in getattr(ctxobj, nm):
                self.ops[str(r[0])] = int(r[1])
        self.opnames = set(self.ops)
        self.context = types.SimpleNamespace(simple_mode=Bool('simple'), **{nm: Table(self, nm, names[nm]) for nm in names}, VARS=Table(self, 'VARS'), den=Table(self, 'den'))
        self.all_names = sorted(self.ops)


class Level(SSeq):
    """one level of a well-formed tree: node i has CN(i) children, which are the nodes S(i) .. S(i)+CN(i)-1 of the next level"""

    def __init__(self, T, tag, oparities=(1, 2)):
        self.T, self.tag = T, tag
        self.n = z3.Int(fresh_name('n' + tag))
        self.S = z3.Function(fresh_name('S' + tag), I, I)
        self.CN = z3.Function(fresh_name('CN' + tag), I, I)
        self.NM = z3.Function(fresh_name('NM' + tag), I, I)
        c = cur()
        c.assume(self.n >= 0, check=False)
        c.assume_axiom(self.S(z3.IntVal(0)) == 0)
        self.memo = {}
        SSeq.__init__(self, self.n, self.node)

    def __symlen__(self):
        return wrap(self.n)

    def step(self, i):
        """S is the running sum of the child counts (non-negative, hence monotone)"""
        cur().assume_axiom(z3.And(self.S(i + 1) == self.S(i) + self.CN(i), self.CN(i) >= 0, self.CN(i) <= 2, self.S(i) >= 0, z3.Implies(i + 1 <= self.n, self.S(i + 1) <= self.S(self.n))))

    def node(self, i):
        i = z3.simplify(lift(i))
        key = i.sexpr()
        if key not in self.memo:
            self.memo[key] = self.make(i)
        return self.memo[key]

    def make(self, i):
        c = cur()
        self.step(i)
        m = c.choose(3)
        c.assume(self.CN(i) == m)
        nd = types.SimpleNamespace(child_num=m, status=m, cache=object(), var=object(), full=object(), depth=None, idx=wrap(i), parent_idx=None)
        nd.name = SName(self.NM(i), self.T) if m == 0 else OpName(self.T, m, self.T.all_names)
        nd.child_st = None if m == 0 else wrap(self.S(i))
        self.adjust(i, nd)
        return nd

    def adjust(self, i, nd):
        pass

    def at(self, i):
        t = lift(i)
        cur().prove(f'{self.T.fn}: node index inside the level', z3.And(t >= 0, t < self.n))
        return self.node(t)

    __getitem__ = at
