"""C25: every vocabulary word of the generative model is computed as the term it names; columns in the order of the sentence."""
import builtins, itertools, json, os, re, types
import numpy as np
import sympy as sp
import torch
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.arrays import SArr
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C25'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded closed-form fields and networks, every word in turn and random sentences; non-trivial when (word, order, seed) is new'
CT = 'kd.model.eqgpt.calculate_terms'
ALL = 'kd.model.eqgpt.continue_train_GPT_all'
PO = 'kd.model.eqgpt.PINN_optimization'
PP = 'kd.model.eqgpt.posterial_solution_PINN'
S4 = {a: sp.Symbol(a, positive=True) for a in 'xtyz'}
EXTRA = ['(u^2)xx', '(u^3)x', 'uyyyy', 'uxxyy', 'uzzzz', 'uyyzz', 'uxxzz']


def prepare():
    torch.set_default_dtype(torch.float32)


# ------------------------------------------------------------------ what a word denotes (independent reader of the words)
FUN = ('BiLaplace', 'Laplace', 'Div', 'sqrt', 'sinh', 'sin', 'exp')


class Word:
    """reader of the words: letters after u or after a bracket are derivatives, ^ a power, neighbours are multiplied"""

    def __init__(self, text, u, variables):
        self.s, self.p, self.u, self.v = text, 0, u, variables

    def peek(self, t):
        return self.s.startswith(t, self.p)

    def take(self, t):
        if self.peek(t):
            self.p += len(t)
            return True
        return False

    def read(self):
        e = self.sum()
        if self.p != len(self.s):
            raise ValueError(self.s)
        return e

    def sum(self):
        neg = self.take('-')
        e = self.product()
        e = -e if neg else e
        while True:
            if self.take('+'):
                e = e + self.product()
            elif self.take('-'):
                e = e - self.product()
            else:
                return e

    def product(self):
        e = self.factor()
        while self.p < len(self.s) and self.s[self.p] not in '+-)':
            if self.take('/'):
                e = e / self.factor()
            else:
                self.take('*')
                e = e * self.factor()
        return e

    def subscripts(self, e):
        while self.p < len(self.s) and self.s[self.p] in S4:
            e = sp.diff(e, S4[self.s[self.p]])
            self.p += 1
        return e

    def factor(self):
        for f in FUN:
            if self.take(f):
                if self.take('('):
                    a = self.sum()
                    if not self.take(')'):
                        raise ValueError(self.s)
                else:
                    a = S4[self.s[self.p]]
                    self.p += 1
                return self.power(self.apply(f, a))
        if self.take('('):
            e = self.sum()
            if not self.take(')'):
                raise ValueError(self.s)
            return self.power(self.subscripts(e))
        if self.take('u'):
            return self.power(self.subscripts(self.u))
        m = re.compile(r'\d+').match(self.s, self.p)
        if m:
            self.p = m.end()
            return self.power(sp.Integer(m.group()))
        if self.p < len(self.s) and self.s[self.p] in S4:
            self.p += 1
            return self.power(S4[self.s[self.p - 1]])
        raise ValueError(self.s)

    def power(self, e):
        if self.take('^'):
            m = re.compile(r'-?\d+').match(self.s, self.p)
            self.p = m.end()
            return e ** int(m.group())
        return e

    def apply(self, f, a):
        space = [S4[k] for k in 'xyz' if k in self.v]
        if f == 'Div':
            return sum(sp.diff(a, k) for k in space)
        if f in ('Laplace', 'BiLaplace'):
            r = sum(sp.diff(a, k, 2) for k in space)
            return r if f == 'Laplace' else self.apply('Laplace', r)
        return getattr(sp, f)(a)


def meaning(word, u, variables):
    return Word(word, u, variables).read()


def letters(word):
    """coordinates that have to be present for the word to make sense"""
    t = word
    for f in FUN:
        t = t.replace(f, '')
    out = {k for k in 'xtyz' if k in t} | {'x'}
    if 'Laplace' in word or 'Div' in word:
        out.add('y')
    return out


def orders(word):
    req = letters(word)
    rest = [k for k in 'xtyz' if k not in req]
    for r in range(len(rest) + 1):
        for add in itertools.combinations(rest, r):
            for p in itertools.permutations([k for k in 'xtyz' if k in req or k in add]):
                yield list(p)


def vocabulary():
    M = need(CT)
    d = json.load(open(os.path.join(os.path.dirname(M.__file__), 'dict_datas_0725.json')))
    return d['word2id'], d['id2word']


def words():
    w2i, i2w = vocabulary()
    return [w for w, k in w2i.items() if k >= 6]


# ------------------------------------------------------------------ tensors over arbitrary points, one expression per point
class Te:
    """tensor with one row per point; e[j] the j-th column at an arbitrary point; kind 'rows' (n, d), 'col' (n, 1) or 'flat' (n,)"""

    def __init__(self, e, kind, grad=True):
        self.e, self.kind = list(e), kind

    def _bin(self, o, f):
        if isinstance(o, Te):
            if o.kind != self.kind or len(o.e) != len(self.e):
                if {o.kind, self.kind} == {'col', 'flat'}:
                    return Te([sp.Symbol('value_of_another_point')], 'pairs')
                raise Unsupported('tensors of different shapes')
            return Te([f(a, b) for a, b in zip(self.e, o.e)], self.kind)
        if isinstance(o, (int, float, sp.Basic)):
            return Te([f(a, sp.nsimplify(o)) for a in self.e], self.kind)
        raise Unsupported('tensor operation with another type')

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return Te([-a for a in self.e], self.kind)

    def map(self, f): return Te([f(a) for a in self.e], self.kind)
    def pow(self, k): return self ** k
    def square(self): return self ** 2
    def cpu(self): return self
    def detach(self): return self
    def numpy(self): return self
    def clone(self): return self
    def to(self, *a, **k): return self
    def sin(self): return self.map(sp.sin)
    def sinh(self): return self.map(sp.sinh)
    def exp(self): return self.map(sp.exp)
    def sqrt(self): return self.map(sp.sqrt)
    def abs(self): return self.map(sp.Abs)

    @property
    def data(self): return self

    def sum(self, *a, **k):
        if a or k or self.kind == 'rows':
            raise Unsupported('sum along an axis')
        return Total(self)

    def _shape(self, a):
        a = tuple(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)
        if self.kind == 'rows' and len(self.e) != 1:
            raise Unsupported('reshape of several columns')
        if self.kind == 'pairs':
            return self
        if a == (-1, 1):
            return Te(self.e, 'col')
        if a in ((-1,),):
            return Te(self.e, 'flat')
        raise Unsupported(f'reshape {a}')

    def reshape(self, *a): return self._shape(a)
    def view(self, *a): return self._shape(a)
    def flatten(self): return self._shape((-1,))
    def ravel(self): return self._shape((-1,))

    def unsqueeze(self, d):
        if self.kind == 'flat' and d in (1, -1):
            return Te(self.e, 'col')
        raise Unsupported('unsqueeze')

    def __getitem__(self, ix):
        if self.kind in ('rows', 'col') and isinstance(ix, tuple) and len(ix) == 2 and ix[0] in (slice(None), Ellipsis):
            if isinstance(ix[1], int):
                if not -len(self.e) <= ix[1] < len(self.e):
                    raise PyRaise(IndexError('index out of range'))
                return Te([self.e[ix[1]]], 'flat')
            if isinstance(ix[1], slice):
                e = self.e[ix[1]]
                return Te(e, 'col' if len(e) == 1 else 'rows')
        raise Unsupported(f'index {ix!r}')

    @property
    def shape(self):
        raise Unsupported('shape of a tensor over arbitrarily many points')

    def __len__(self):
        raise Unsupported('number of points')

    def __bool__(self):
        raise Unsupported('truth of a tensor')

    def __iter__(self):
        raise Unsupported('iteration over points')


class Total:
    """sum over all points of one value per point"""

    def __init__(self, t):
        self.t = t


def tensor_contracts(ip, db, syms):
    def grad(ip_, outputs=None, inputs=None, grad_outputs=None, create_graph=False, retain_graph=None, **k):
        o = outputs[0] if isinstance(outputs, (list, tuple)) and len(outputs) == 1 else outputs
        i = inputs[0] if isinstance(inputs, (list, tuple)) and len(inputs) == 1 else inputs
        if i is not db or any(v for v in k.values()):
            raise Unsupported('gradient with respect to something else')
        if isinstance(o, Te) and isinstance(grad_outputs, Te) and all(x == 1 for x in grad_outputs.e) and grad_outputs.kind == o.kind:
            o = Total(o)
        elif grad_outputs is not None:
            raise Unsupported('weighted gradient')
        if not isinstance(o, Total):
            raise Unsupported('gradient of something else')
        if o.t.kind == 'pairs':
            raise Unsupported('gradient of values mixed between points')
        # rows are independent: the derivative of the sum with respect to row k is that of the k-th summand
        return (Te([sum(sp.diff(a, s) for a in o.t.e) for s in syms], 'rows'),)
    ip.contracts[torch.autograd.grad] = grad
    for n, f in (('sin', sp.sin), ('sinh', sp.sinh), ('exp', sp.exp), ('sqrt', sp.sqrt), ('abs', sp.Abs)):
        ip.contracts[getattr(torch, n)] = lambda ip_, a, f=f: a.map(f) if isinstance(a, Te) else unsupported()
    ip.contracts[torch.square] = lambda ip_, a: a ** 2
    ip.contracts[torch.pow] = lambda ip_, a, k: a ** k
    ip.contracts[torch.reciprocal] = lambda ip_, a: 1 / a
    ip.contracts[torch.ones_like] = lambda ip_, a, **k: Te([sp.Integer(1) for _ in a.e], a.kind)
    ip.contracts[torch.neg] = lambda ip_, a: -a
    ip.contracts[torch.mul] = lambda ip_, a, b: a * b
    ip.contracts[torch.add] = lambda ip_, a, b: a + b


def unsupported():
    raise Unsupported('function of another object')


def same(got, want):
    """True / False (with a field where they differ) / None"""
    d = sp.expand(got - want)
    if d == 0:
        return True, ''
    d = sp.expand(sp.simplify(d.doit()))
    if d == 0:
        return True, ''
    x, t, y, z = (S4[k] for k in 'xtyz')
    for f in (sp.exp(x / 3 + t / 5 + y / 7 + z / 9) + x ** 2 * t + y * x, 2 + sp.sin(x + 2 * t) * sp.cos(y - z / 2) / 3 + x * t * y * z):
        U = [g for g in d.atoms(sp.Function) if getattr(g.func, '__name__', '') == 'u']
        e = d
        for g in U:
            sub = f.subs({S4[k]: 1 for k in 'xtyz' if S4[k] not in g.args})
            e = e.subs(g, sub)
        e = e.doit()
        for pt in ({x: .7, t: .3, y: .9, z: .4}, {x: 1.3, t: 1.1, y: .2, z: .8}):
            try:
                v = complex(e.subs(pt).evalf())
            except TypeError:
                continue
            if abs(v) > 1e-6:
                return False, f'differs by {v.real:.6g} for u = {f} at {pt}'
    return None, str(d)


def word_run(ctx, word, which):
    name = ['calculate_terms', 'calculate_terms_PINN'][which]
    F = need(CT, name)
    for var in orders(word):
        def run(var=var):
            c = cur()
            syms = [S4[k] for k in var]
            db = Te(syms, 'rows')
            u = sp.Function('u', real=True, positive=True)(*syms) if word == 'sqrt(u)' else sp.Function('u', real=True)(*syms)
            ip = Interp(ctx.session)
            tensor_contracts(ip, db, syms)
            net = lambda d: Te([u], 'col') if d is db else unsupported()
            extra = () if which else (Int('nx'), Int('nt'))
            if which == 0:
                c.assume(z3.And(extra[0].t >= 1, extra[1].t >= 1))
            r = ip.call(F, word, net, db, list(var), *extra)
            if r is None:
                ctx.session.algebraic(f'word {word}: a value is returned', False, f'{name}({word!r}, variables={var}) returned None')
                return
            if not isinstance(r, Te):
                raise Unsupported('another kind of value')
            if r.kind not in ('col', 'flat') or len(r.e) != 1:
                ctx.session.algebraic(f'word {word}: one value per point', False, f'{name}({word!r}, variables={var}) mixes points')
                return
            ok, detail = same(r.e[0], meaning(word, u, var))
            ctx.session.algebraic(f'word {word}: the column is the term the word denotes', ok, f'{name}({word!r}, variables={var}): {detail}')
        ctx.run(run)


def make_group(ws):
    def g(ctx):
        for w in ws:
            for which in (0, 1):
                word_run(ctx, w, which)
        ctx.assume_note('the surrogate network maps every row of the database to one value, independently of the other rows, and is four times differentiable (torch.autograd.grad of a sum is the gradient of each row)',
                        'torch element-wise functions as their mathematical counterparts; sqrt(u) is read on u >= 0 (the code takes |u|); real arithmetic')
    return g


# ------------------------------------------------------------------ columns of a sentence
class Ops:
    """arbitrary well-formed sentence: n words, operators + * / between them, end at the end"""

    def __init__(self, c):
        self.n = z3.Int('n_words')
        c.assume(self.n >= 1)
        self.word = z3.Function('word', z3.IntSort(), z3.IntSort())
        self.op = z3.Function('op', z3.IntSort(), z3.IntSort())
        k = z3.Int('kk')
        c.assume_axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.op(k) >= 1, self.op(k) <= 4, (self.op(k) == 1) == (k == self.n - 1))), patterns=[self.op(k)]))
        self.V = z3.Function('value', z3.IntSort(), z3.IntSort(), z3.RealSort())        # value of a word at a point
        self.Q = z3.Function('product', z3.IntSort(), z3.IntSort(), z3.RealSort())      # product of the words k' <= k of k's term
        self.G = z3.Function('terms_before', z3.IntSort(), z3.IntSort())
        c.assume_axiom(self.G(0) == 0)
        c.assume_axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), self.G(k + 1) == self.G(k) + z3.If(z3.Or(self.op(k) == 1, self.op(k) == 2), 1, 0)), patterns=[self.op(k)]))

    def start(self, k):
        return z3.Or(k == 0, self.op(k - 1) == 2)

    def step(self, k, j):
        """definition of the product at k"""
        v = self.V(self.word(k), j)
        return self.Q(k, j) == z3.If(self.start(k), v, z3.If(self.op(k - 1) == 4, self.Q(k - 1, j) / v, self.Q(k - 1, j) * v))


class Sentence:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, ix):
        if isinstance(ix, slice) and ix.step == 2 and ix.stop is None and ix.start in (None, 0):
            return SSeq(self.s.n, lambda k: wrap(self.s.word(lift(k))))
        if isinstance(ix, slice) and ix.step == 2 and ix.stop is None and ix.start == 1:
            return SSeq(self.s.n, lambda k: wrap(self.s.op(lift(k))))
        raise Unsupported('sentence taken apart in another way')


class Name:
    """word of a vocabulary number"""

    def __init__(self, t):
        self.t = t


class Cols:
    """ghost list of columns: number of columns; the last one appended is kept for the proof"""

    def __init__(self, s, n):
        self.s, self.n, self.last = s, n, None

    def append(self, v):
        c = cur()
        if self.last is not None:
            raise Unsupported('several columns in one step')
        self.last = v
        self.n = self.n + 1

    def __len__(self):
        raise Unsupported('number of columns')


class Store:
    def __setitem__(self, k, v):
        pass


class SIp(Interp):
    table = None

    def e_ListComp(self, e, fr):
        if len(e.generators) == 1 and isinstance(self.eval(e.generators[0].iter, fr), Sentence):
            return Vis()                 # text of the sentence; not used for the columns
        return Interp.e_ListComp(self, e, fr)

    def getitem(self, o, i):
        if o is self.table:
            if isinstance(i, Sym):
                return Name(i.t)
            raise Unsupported('word of another number')
        if isinstance(o, Sentence):
            return o[i]
        return Interp.getitem(self, o, i)


class ColumnLoop(LoopContract):
    """invariant at word k: the list holds the columns of the terms finished before word k, in order;
    the running column is 1 at the first word of a term and the product of the earlier words of the term otherwise;
    the flag says whether the operator before word k is a division"""
    modifies = ()

    def __init__(self, s, N):
        self.s, self.N = s, N

    def applies(self, node):
        import ast
        return not any(isinstance(x, (ast.For, ast.While)) for b in node.body for x in ast.walk(b))

    def roles(self, info):
        import ast
        assigned = {x.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Name)}
        e = {k: v for k, v in info.entry.items() if k in assigned}
        cols = [k for k, v in e.items() if isinstance(v, list) and not v]
        one = [k for k, v in e.items() if isinstance(v, (int, float)) and not isinstance(v, bool) and v == 1]
        flag = [k for k, v in e.items() if isinstance(v, (bool, int)) and v == 0]
        if not (len(cols) == len(one) == len(flag) == 1):
            raise Unsupported('column loop of another form')
        return cols[0], one[0], flag[0]

    def havoc(self, info, k):
        c, s = cur(), self.s
        cols, one, flag = self.roles(info)
        c.assume(s.G(k) >= 0, check=False)
        self.k0 = k
        env = info.env
        self.ghost = env[cols] = Cols(s, s.G(k))
        self.entry_n = s.G(k)
        j = z3.Int('jq')
        if c.decide(z3.And(k < s.n, s.start(k))):
            env[one] = 1
            env[flag] = 0
        elif c.decide(k < s.n):
            c.assume(k >= 1, check=False)
            env[one] = SArr.make([self.N], 'real', lambda i: s.Q(k - 1, i))
            # the running column belongs to no finished term (consecution: a new term starts from one)
            self.stores = [env[one].store]
            env[flag] = wrap(z3.If(s.op(k - 1) == 4, z3.IntVal(1), z3.IntVal(0)))
        else:
            c.assume(k == s.n, check=False)

    def check(self, info, k, when):
        c, s = cur(), self.s
        cols, one, flag = self.roles(info)
        env = info.env
        if when == 'initiation':
            return
        kk = self.k0
        A = env[cols]
        c.prove('columns: the list of columns is kept', z3.BoolVal(A is self.ghost))
        if A is not self.ghost:
            return
        j = z3.Int(fresh_name('j'))
        c.assume(z3.And(j >= 0, j < self.N), check=False)
        c.assume(s.step(kk, j), check=False)
        ends = z3.Or(s.op(kk) == 1, s.op(kk) == 2)
        c.prove('columns: a column is added exactly where a term ends', lift(A.n) == self.entry_n + z3.If(ends, 1, 0))
        if A.last is not None:
            v = A.last
            if not isinstance(v, SArr):
                raise Unsupported('column of another type')
            t = v.term(j) if v.ndim == 1 else v.term(j, z3.IntVal(0))
            c.prove('columns: the column added is the product or quotient of the words of the term', t == s.Q(kk, j))
        if c.decide(s.op(kk) == 1):
            return                       # last word: nothing follows
        if c.decide(s.op(kk) == 2):
            if isinstance(env[one], SArr):
                c.prove('columns: the next term starts from one', env[one].term(j) == 1)
                raise Unsupported('the running column starts as an array')
            c.prove('columns: the next term starts from one', lift(env[one]) == 1)
            c.prove('columns: the next term starts with a multiplication', lift(env[flag]) == 0)
        else:
            ok = isinstance(env[one], SArr)
            c.prove('columns: the term goes on', z3.BoolVal(ok))
            if ok:
                c.prove('columns: the running column is the product or quotient of the words so far', env[one].term(j) == s.Q(kk, j))
            c.prove('columns: a division divides by the next word only', lift(env[flag]) == z3.If(s.op(kk) == 4, 1, 0))


class Outer(LoopContract):
    def havoc(self, info, k):
        cur().assume(k < lift(info.n), check=False)

    def check(self, info, k, when):
        pass


def columns_run(ctx, mod, fname, which):
    M = need(mod)
    F = need(mod, fname)

    def run():
        try:
            body()
        except Stacked:
            return

    def body():
        c = cur()
        N = z3.Int('points')
        c.assume(N >= 1)
        s = Ops(c)
        ip = SIp(ctx.session)
        ip.table = M.id2word
        val = lambda: None
        base = need(CT, ['calculate_terms', 'calculate_terms_PINN'][which])
        ask = []

        def term(ip_, word, net, db, var, *a):
            if not isinstance(word, Name):
                raise Unsupported('value of another word')
            c.prove('columns: every word is evaluated with the network, points and variables of the call', z3.BoolVal(getattr(net, 'tag', None) == 'net' and getattr(db, 'tag', None) == 'db' and net.k is db.k and var == ['t', 'x']))
            w = word.t
            return SArr.make([N], 'real', lambda i: s.V(w, i))
        for f in {base, getattr(M, base.__name__)}:
            ip.contracts[f] = term

        def stack(ip_, A, *a, **k):
            c.prove('columns: the matrix is made of the columns of all terms, in order', z3.BoolVal(isinstance(A, Cols)))
            if isinstance(A, Cols):
                c.prove('columns: the matrix has one column per term', lift(A.n) == s.G(s.n))
            raise Stacked()
        for f in (np.vstack, np.column_stack, np.stack, np.hstack, np.concatenate, torch.cat, torch.concatenate, torch.hstack, torch.column_stack):
            ip.contracts[f] = stack
        ip.contracts[np.isnan] = lambda ip_, a: Flags()
        inner = ColumnLoop(s, N)
        sent = Sentence(s)
        if hasattr(M, 'delete_duplicate') and fname == 'calculate_reward':
            ip.contracts[M.delete_duplicate] = lambda ip_, x: sent
            # arbitrary well-formed sentence: operators never exceed the division sign
            ip.contracts[builtins.max] = lambda ip_, x, *a: 4 if isinstance(x, SSeq) else max(x, *a)

        orig = ip.loop_template

        def pick(fr, node):
            if fr.qual.split('.')[-1] != fname:
                return orig(fr, node)
            return inner if inner.applies(node) else Outer()
        ip.loop_template = pick
        if fname == 'calculate_reward':
            m = z3.Int('nets')
            c.assume(m >= 1)
            mk = lambda tag: SSeq(m, lambda k: types.SimpleNamespace(tag=tag, k=KEY.setdefault(str(k), object())))
            r = ip.call(F, Vis(), mk('net'), mk('db'), Store(), Store(), ['t', 'x'], SSeq(m, lambda k: wrap(z3.Int('nx'))), SSeq(m, lambda k: wrap(z3.Int('nt'))))
        else:
            key = object()
            net, db = types.SimpleNamespace(tag='net', k=key), types.SimpleNamespace(tag='db', k=key)
            args = [sent, net, db, ['t', 'x']] + ([0] if fname == 'get_coefficients' else [])
            ip.call(F, *args)
    ctx.run(run)
    ctx.assume_note('sentences handed to the column loop are well formed: words separated by + * /, ended by E (other sentences get no columns, C26)',
                    'one value per point and word (the word groups)')


KEY = {}


class Vis:
    pass


class Stacked(BaseException):
    """the columns are complete"""


class Flags:
    def __contains__(self, x):
        return False


def g_columns(mod, fname, which):
    return lambda ctx: columns_run(ctx, mod, fname, which)


def groups():
    ws = words() + [w for w in EXTRA]
    out = []
    k = 5
    heavy = sorted(ws, key=lambda w: -(('Bi' in w) * 9 + ('Laplace' in w) * 4 + w.count('x') + w.count('(')))
    parts = [heavy[i::12] for i in range(12)]
    for i, p in enumerate(parts):
        out.append((f'words{i}', make_group(p)))
    out.append(('columns: coefficients', g_columns(PO, 'get_coefficients', 0)))
    out.append(('columns: PINN terms', g_columns(PO, 'get_PDE_terms', 1)))
    out.append(('columns: posterior PINN terms', g_columns(PP, 'get_PDE_terms', 1)))
    out.append(('columns: reward', g_columns(ALL, 'calculate_reward', 0)))
    return out


# ------------------------------------------------------------------ run-time contracts
FIELDS = ['2+sin(x+2*t)*cos(y-z/2)/3+x*t*y*z/5', 'exp(x/3+t/5+y/7-z/9)+x**2*t/4+y*x/3+z**2/5+1', '3+sin(x*t)+cos(y)*z/2+x**3/9']


class Field(torch.nn.Module):
    def __init__(self, text, var):
        super().__init__()
        self.text, self.var = text, var

    def forward(self, d):
        env = {k: torch.full_like(d[:, :1], 1.) for k in 'xtyz'}
        for j, k in enumerate(self.var):
            env[k] = d[:, j:j + 1]
        return eval(self.text, {'sin': torch.sin, 'cos': torch.cos, 'exp': torch.exp}, env)


def spec_value(word, text, var, pts):
    f = sp.sympify(text, locals=S4).subs({S4[k]: 1 for k in 'xtyz' if k not in var})
    e = sp.lambdify([S4[k] for k in var], meaning(word, f, var), 'numpy')
    return np.broadcast_to(np.asarray(e(*pts.T), float), (len(pts),))


def points(r, n, d):
    return np.array([[r.uniform(.3, 1.4) for _ in range(d)] for _ in range(n)])


def rt_word(word, order, seed):
    import random
    r = random.Random(seed)
    M = need(CT)
    var = list(order)
    text = FIELDS[seed % len(FIELDS)]
    pts = points(r, r.randint(1, 9), len(var))
    want = spec_value(word, text, var, pts)
    for fn in ('calculate_terms', 'calculate_terms_PINN'):
        db = torch.tensor(pts, dtype=torch.float64, requires_grad=True)
        F = getattr(M, fn)
        got = F(word, Field(text, var), db, var, 1, len(pts)) if fn == 'calculate_terms' else F(word, Field(text, var), db, var)
        check(got is not None, f'{fn}({word!r}) has no value', 'none')
        got = got.detach().numpy() if torch.is_tensor(got) else np.asarray(got)
        check(got.size == len(pts), f'{fn}({word!r}): {got.shape} values for {len(pts)} points', 'size')
        got = got.reshape(-1)
        check(np.allclose(got, want, rtol=1e-6, atol=1e-8), f'{fn}({word!r}, variables={var}) on u={text}: {got[:3]} instead of {want[:3]}', f'value {word}')
        check(np.allclose(db.detach().numpy(), pts), 'the points were changed', 'points')


def sentence(r, ws, w2i, n):
    out = []
    for i in range(n):
        out.append(w2i[r.choice(ws)])
        out.append(1 if i == n - 1 else r.choice([2, 3, 4] if i else [2, 3, 4]))
    return out


def spec_columns(sent, i2w, text, var, pts):
    cols, curc, div = [], np.ones(len(pts)), False
    for k in range(0, len(sent), 2):
        v = spec_value(i2w[sent[k]], text, var, pts)
        curc = curc / v if div else curc * v
        div = sent[k + 1] == 4
        if sent[k + 1] in (1, 2):
            cols.append(curc)
            curc, div = np.ones(len(pts)), False
    return np.stack(cols, 1)


def rt_columns(seed):
    import random
    r = random.Random(seed)
    w2i, i2w = vocabulary()
    var = r.choice([['t', 'x'], ['x', 't'], ['x', 't', 'y'], ['y', 'x', 't']])
    ws = [w for w in words() if letters(w) <= set(var) and w not in ('sqrt(u)', 'uxxxxx')]
    text = FIELDS[seed % len(FIELDS)]
    pts = points(r, r.randint(12, 30), len(var))
    sent = sentence(r, ws, w2i, r.randint(1, 6))
    want = spec_columns(sent, i2w, text, var, pts)
    net = Field(text, var)
    for mod in (PO, PP):
        db = torch.tensor(pts, dtype=torch.float64, requires_grad=True)
        A = need(mod, 'get_PDE_terms')(list(sent), net, db, var).detach().numpy()
        check(A.shape == want.shape, f'{[i2w[i] for i in sent]}: {A.shape[1]} columns', 'columns')
        check(np.allclose(A, want, rtol=1e-5, atol=1e-7), f'{[i2w[i] for i in sent]}: other columns', 'column values')
    sc = np.linalg.norm(want, axis=0)
    sv = np.linalg.svd(want, compute_uv=False)
    if want.shape[1] > 1 and sv[-1] > 1e-6 * sv[0] and sv[-2] > 1.5 * sv[-1]:
        v = np.linalg.svd(want, full_matrices=False)[2][-1]
        if abs(v[0]) > 1e-2:
            db = torch.tensor(pts, dtype=torch.float64, requires_grad=True)
            x = need(PO, 'get_coefficients')(list(sent), net, db, var, 0)
            check(np.allclose(x, -v[1:] / v[0], rtol=1e-4, atol=1e-5), f'{[i2w[i] for i in sent]}: coefficients {x} instead of {-v[1:] / v[0]}', 'coefficients')
    # reward: the explained share of the first column, of the sentence without repeated terms
    seen, red = [], []
    k = 0
    terms = []
    cur_ = []
    for i in range(0, len(sent), 2):
        cur_.append(sent[i])
        if sent[i + 1] in (1, 2):
            terms.append(cur_)
            cur_ = []
        else:
            cur_.append(sent[i + 1])
    if len({tuple(sorted(t[::2])) for t in terms}) != len(terms) or len(terms) < 2:
        return
    R = need(ALL, 'calculate_reward')
    db = torch.tensor(pts, dtype=torch.float64, requires_grad=True)
    texts = ''.join(i2w[i] for i in sent)
    rew, w2v, mask = R(list(sent), [net], [db], {}, torch.ones(len(i2w)), var, [1], [len(pts)])
    for i in range(0, len(sent), 2):
        w = i2w[sent[i]]
        check(np.allclose(w2v[w], spec_value(w, text, var, pts), rtol=1e-6, atol=1e-8), f'value recorded for {w}', 'recorded')
    if not np.isfinite(want).all():
        return
    s = np.linalg.svd(want[:, 1:] / np.maximum(sc[1:], 1e-12), compute_uv=False)
    if rew == 0 or s[-1] < 1e-5 or want.max() > 1e5 or len({tuple(np.round(c, 6)) for c in want.T}) < want.shape[1]:
        return
    b = want[:, 0]
    x = np.linalg.lstsq(want[:, 1:], -b, rcond=None)[0]
    r2 = 1 - ((want[:, 1:] @ x + b) ** 2).sum() / ((b - b.mean()) ** 2).sum()
    exp = (1 - .02 * np.log10(want.shape[1])) * r2
    if ((b - b.mean()) ** 2).sum() > 1e-6:
        check(abs(rew - exp) < 1e-4 * max(1, abs(exp)), f'{texts}: reward {rew} instead of {exp}', 'reward')


def cases(tier, rng):
    ws = words() + EXTRA
    k = 0
    while True:
        w = ws[k % len(ws)]
        o = rng.choice(list(orders(w)))
        s = rng.randrange(10 ** 6)
        yield C(rt_word), dict(word=w, order=''.join(o), seed=s), (w, ''.join(o), s)
        if k % 3 == 0:
            s = rng.randrange(10 ** 9)
            yield C(rt_columns), dict(seed=s), ('cols', s)
        k += 1
