"""C18: the deep-learning genetic search evaluates exactly the terms its genes name."""
import ast, builtins, copy, heapq, types, random
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C18'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded searches with random operator lists, column values, population sizes (even and odd) and probabilities, observed after every step; non-trivial when the seed is new'
DL, KDL = 'kd.model.dlga', 'kd.model.kd_dlga'
I, R = z3.IntSort(), z3.RealSort()


def classes():
    return need(DL, 'DLGA'), need(KDL, 'KD_DLGA')


# ---- ghost lists whose elements satisfy an invariant ---------------------------------------------------------------------------

class Gene:
    """an integer that names a column"""

    def __init__(self, lib):
        self.lib = lib

    def fresh(self):
        g = z3.Int(fresh_name('gene'))
        cur().assume(z3.And(g >= 0, g < self.lib), check=False)
        return wrap(g)

    def holds(self, v, what):
        cur().prove(f'{what}: every gene names an existing column', z3.And(lift(v) >= 0, lift(v) < self.lib))


class Many:
    """a list of at least `least` elements of one kind, sorted when required"""

    def __init__(self, elem, least, order=False):
        self.elem, self.least, self.order = elem, least, order

    def fresh(self):
        n = z3.Int(fresh_name('n'))
        cur().assume(n >= self.least, check=False)
        return GL(self, n)

    def holds(self, v, what):
        c = cur()
        if not isinstance(v, GL) or v.kind.elem is not self.elem:
            c.prove(f'{what}: a list of the right kind is stored', z3.BoolVal(False))
            return
        c.prove(f'{what}: no empty term or candidate', v.n >= self.least)
        for ch in v.memo.values():
            if isinstance(self.elem, Many):
                self.elem.holds(ch, what)


class GL(SSeq):
    __slots__ = ('kind', 'n', 'memo', 'what', 'sorted', 'writes')

    def __init__(self, kind, n, what='genes'):
        self.kind, self.n, self.what = kind, lift(n), what
        self.memo, self.sorted, self.writes = Memo(), False, 0

    def length(self):
        return self.n

    def __symlen__(self):
        return wrap(z3.simplify(self.n))

    def __bool__(self):
        return cur().decide(self.n > 0)

    def __symcontains__(self, x):
        return bool(cur().choose(2))

    def elem(self, k):
        key = z3.simplify(lift(k)).sexpr()
        if not isinstance(self.kind.elem, Many):
            return self.kind.elem.fresh()
        if key not in self.memo:
            self.memo[key] = self.kind.elem.fresh()
        return self.memo[key]

    def get(self, i):
        cur().prove(f'{self.what}: index in range', z3.And(lift(i) >= 0, lift(i) < self.n))
        return self.elem(i)

    def set(self, i, v):
        cur().prove(f'{self.what}: index in range', z3.And(lift(i) >= 0, lift(i) < self.n))
        self.kind.elem.holds(v, self.what)
        self.fold()
        self.writes += 1
        if isinstance(v, GL):
            self.memo[z3.simplify(lift(i)).sexpr()] = v

    def append(self, v):
        self.kind.elem.holds(v, self.what)
        self.n = z3.simplify(self.n + 1)
        self.sorted = False

    def pop(self, i=-1):
        i = lift(i)
        cur().prove(f'{self.what}: index in range', z3.And(self.n >= 1, i < self.n, i >= -self.n))
        self.fold()
        self.n = z3.simplify(self.n - 1)
        return None

    def copy(self):
        return GL(self.kind, self.n)

    def fold(self):
        for ch in self.memo.values():
            if isinstance(self.kind.elem, Many):
                self.kind.elem.holds(ch, self.what)
        self.memo = Memo()

    def cut(self, s):
        if (s.start, s.stop, s.step) == (None, None, 2):
            return GL(self.kind, (self.n + 1) / 2)
        if (s.start, s.stop, s.step) == (1, None, 2):
            return GL(self.kind, self.n / 2)
        raise Unsupported('list slice')


class Memo:
    __slots__ = ('d',)

    def __init__(self):
        self.d = ()

    def __contains__(self, k):
        return any(a == k for a, _ in self.d)

    def __getitem__(self, k):
        return next(v for a, v in self.d if a == k)

    def __setitem__(self, k, v):
        self.d = tuple((a, b) for a, b in self.d if a != k) + ((k, v),)

    def values(self):
        return [v for _, v in self.d]


class Ip(Interp):
    fill = None             # kind of a list made by an empty literal
    pick = staticmethod(lambda fr, node: None)

    def loop_template(self, fr, node):
        return self.pick(fr, node)

    def e_List(self, e, fr):
        if not e.elts and self.fill is not None:
            return self.fill()
        return Interp.e_List(self, e, fr)

    def contains(self, o, x):
        if isinstance(o, GL):
            return o.__symcontains__(x)
        return Interp.contains(self, o, x)

    def getitem(self, o, i):
        if isinstance(o, (GL, AL)):
            return o.cut(i) if isinstance(i, slice) else o.get(i)
        return Interp.getitem(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, GL) and isinstance(i, slice):
            if not isinstance(v, GL) or v.kind is not o.kind:
                raise Unsupported('slice assignment')
            v.fold()
            part = (o.n + 1) / 2 if i.start is None else o.n / 2
            cur().prove(f'{o.what}: a part is put back where it came from', z3.And(z3.BoolVal(i.step == 2 and i.stop is None), v.n == part))
            return
        if isinstance(o, (GL, AL)):
            return o.set(i, v)
        return Interp.setitem(self, o, i, v)


def randoms(ip, W=None):
    c = cur()

    def randint(lo_incl):
        def f(ip_, a, b=None, **k):
            lo, hi = (z3.IntVal(0), lift(a)) if b is None else (lift(a), lift(b))
            if lo_incl:
                hi = hi + 1
            c.prove('random choice from a non-empty range', hi > lo)
            x = z3.Int(fresh_name('rnd'))
            c.assume(z3.And(x >= lo, x < hi), check=False)
            return wrap(x)
        return f

    def uni(ip_, *a):
        x = z3.Real(fresh_name('u'))
        c.assume(z3.And(x >= 0, x <= 1), check=False)
        return wrap(x)
    ip.contracts.update({random.randint: randint(True), np.random.randint: randint(False), random.randrange: randint(False), random.uniform: uni, np.random.uniform: uni, random.random: uni,
                         builtins.sorted: lambda ip_, x, **k: srt(x) if isinstance(x, GL) else sorted(x, **k), builtins.print: lambda ip_, *a, **k: None, builtins.len: lambda ip_, x: x.__symlen__() if hasattr(x, '__symlen__') else len(x)})


def srt(x):
    r = GL(x.kind, x.n)
    r.sorted = True
    return r


def probs(s):
    for a in ('partial_prob', 'genes_prob', 'mutate_rate', 'delete_rate', 'add_rate'):
        setattr(s, a, Real(a))


def setting(c, which):
    """an estimator of either class with any number of columns"""
    D, K = classes()
    cls = [D, K][which]
    s = cls.__new__(cls)
    probs(s)
    lib = z3.Int('columns')
    c.assume(lib >= 1)
    if which == 0:
        c.assume(lib == 6)      # generate_meta_data of DLGA makes six columns (group library)
    else:
        s.library_size, s.user_operators = wrap(lib), SSeq(lib, lambda k: ('name', k))
    ml = z3.Int('max_length')
    c.assume(ml >= 1)
    s.max_length = wrap(ml)
    gene = Gene(lib)
    mod = Many(gene, 1)
    gen = Many(mod, 1)
    return cls, s, lib, ml, mod, gen


def g_generate(ctx):
    """random modules and genomes"""
    D, K = classes()

    def run():
        c = cur()
        which, what = c.choose(2), c.choose(2)
        cls, s, lib, ml, mod, gen = setting(c, which)
        kind = [mod, gen][what]
        ip = Ip(ctx.session)
        randoms(ip)
        made = []

        def new():
            g = GL(kind, z3.IntVal(0))
            made.append(g)
            return g
        ip.fill = new

        class L(LoopContract):
            modifies = ('genes_module', 'genes')

            def havoc(self, info, k):
                for g in made:
                    g.n = z3.Int(fresh_name('len'))
                    # every earlier iteration added exactly one element
                    c.assume(g.n == k, check=False)
                    g.memo = Memo()

            def check(self, info, k, when):
                for g in made:
                    c.prove('generation: every iteration adds one term or gene', g.n == k)
                    if kind is gen:
                        g.fold()
        ip.pick = lambda fr, node: L()
        order = []

        def module(ip_, me):
            r = mod.fresh()
            c.assume(r.n <= ml, check=False)
            return r
        if what:
            ip.contracts[D.random_module] = module
            ip.contracts[K.random_module] = module
            keep = gen.elem.holds
        r = ip.call(cls.random_genome if what else cls.random_module, s)
        ok = isinstance(r, GL) and r.kind is kind
        c.prove('generation: a list of genes is returned', z3.BoolVal(ok))
        if ok:
            kind.holds(r, 'generation')
            c.prove('generation: no longer than the limit', r.n <= ml)
    ctx.run(run)
    ctx.assume_note('at least one operator and max_length >= 1 (KD_DLGA without operators searches nothing)')


def g_vary(ctx):
    """mutation and crossover on an arbitrary population of valid candidates leave an arbitrary population of valid candidates"""
    D, K = classes()

    def run():
        c = cur()
        which, what = c.choose(2), c.choose(2)
        cls, s, lib, ml, mod, gen = setting(c, which)
        pop = Many(gen, 0)
        N = z3.Int('population')
        c.assume(N >= 2)
        s.pop_size = wrap(N)
        s.n_generations = Int('generations')
        s.Chrom = ch = GL(pop, N, 'population')
        ip = Ip(ctx.session)
        randoms(ip)
        ip.contracts[D.random_module] = ip.contracts[K.random_module] = lambda ip_, me: mod.fresh()
        halves = []

        class L(LoopContract):
            def havoc(self, info, k):
                pass

            def check(self, info, k, when):
                if when == 'initiation':
                    return
                for v in info.env.values():
                    if isinstance(v, GL) and v.kind is pop:
                        v.fold()
                c.prove('variation: the population keeps its size', ch.n == N)
        ip.pick = lambda fr, node: L()
        r = ip.call(cls.cross_over if what else cls.mutation, s)
        nm = 'crossover' if what else 'mutation'
        c.prove(f'{nm}: the population is kept', z3.BoolVal(s.Chrom is ch and r is ch))
        s.Chrom.fold()
        c.prove(f'{nm}: the population keeps its size', s.Chrom.n == N)
    ctx.run(run)


# ---- lists with known contents --------------------------------------------------------------------------------------------------

class AL(SSeq):
    """list given by its length and its contents; values are encoded as terms"""
    __slots__ = ('n', 'at', 'enc', 'dec')

    def __init__(self, n, at, enc=lift, dec=wrap):
        self.n, self.at, self.enc, self.dec = lift(n), at, enc, dec

    def length(self):
        return self.n

    def __symlen__(self):
        return wrap(z3.simplify(self.n))

    def __bool__(self):
        return cur().decide(self.n > 0)

    def elem(self, k):
        return self.dec(self.at(lift(k)))

    def get(self, i):
        cur().prove('list: index in range', z3.And(lift(i) >= 0, lift(i) < self.n))
        return self.elem(i)

    def __getitem__(self, i):
        return self.get(i)

    def append(self, v):
        old, n, val = self.at, self.n, self.enc(v)
        self.at = lambda q: z3.If(q == n, val, old(q))
        self.n = z3.simplify(n + 1)

    def set(self, i, v):
        cur().prove('list: index in range', z3.And(lift(i) >= 0, lift(i) < self.n))
        old, t, val = self.at, lift(i), self.enc(v)
        self.at = lambda q: z3.If(q == t, val, old(q))


class Col:
    """a column (n x 1 array); t is a term of the column algebra"""

    def __init__(self, W, t, where='torch', shape=None):
        self.W, self.t, self.where, self.shape_ = W, t, where, shape

    def detach(self):
        return self

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], tuple):
            s = s[0]
        if s != (-1, 1):
            raise Unsupported('reshape')
        return Col(self.W, self.t, self.where, 2)

    def cpu(self):
        return self

    def numpy(self):
        return Col(self.W, self.t, 'numpy', self.shape_)

    def mul(self, o):
        if not isinstance(o, Col) or o.shape_ != 2 or self.shape_ != 2:
            raise Unsupported('product of columns')
        return Col(self.W, self.W.MUL(self.t, o.t), 'numpy', 2)

    __mul__ = mul
    __rmul__ = lambda self, o: o.mul(self)

    def __imul__(self, o):
        self.t = self.mul(o).t
        return self


class Theta:
    def __init__(self, W):
        self.W, self.shape = W, (wrap(W.total), wrap(W.lib))

    def __getitem__(self, i):
        if not (isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None, None, None)):
            raise Unsupported('column selection')
        j = lift(i[1])
        cur().prove('library: the gene names an existing column', z3.And(j >= 0, j < self.W.lib))
        return Col(self.W, self.W.COL(j))


class Mat:
    """n x m array of columns"""

    def __init__(self, W, m, at):
        self.W, self.m, self.at = W, lift(m), at


class TW:
    __slots__ = ('lib', 'total', 'COL', 'MUL', 'ONE', 'PROD', 'LEN', 'SUM', 'G', 'K')


def g_translate(ctx):
    """library columns of a candidate"""
    D, K = classes()

    def run():
        c = cur()
        W = TW()
        cs = z3.DeclareSort('Column')
        W.lib, W.total = z3.Int('columns'), z3.Int('rows')
        W.COL, W.MUL, W.ONE = z3.Function('col', I, cs), z3.Function('mul', cs, cs, cs), z3.Const('one', cs)
        W.PROD, W.LEN, W.SUM, W.G = z3.Function('product', I, I, cs), z3.Function('genes', I, I), z3.Function('genes_before', I, I), z3.Function('gene', I, I, I)
        W.K = z3.Int('terms')
        c.assume(z3.And(W.lib >= 1, W.total >= 1, W.K >= 1))
        a, b = z3.Int('a'), z3.Int('b')
        c.assume_axiom(z3.ForAll([a], W.PROD(a, 0) == W.ONE, patterns=[W.PROD(a, 0)]))
        c.assume_axiom(W.SUM(0) == 0)

        def step_prod(k, j):
            c.assume_axiom(z3.And(W.PROD(k, 0) == W.ONE, W.PROD(k, j + 1) == W.MUL(W.PROD(k, j), W.COL(W.G(k, j)))))

        def module(k):
            c.assume_axiom(W.LEN(k) >= 0)

            def gene(j):
                c.assume_axiom(z3.Implies(z3.And(j >= 0, j < W.LEN(k)), z3.And(W.G(k, j) >= 0, W.G(k, j) < W.lib)))
                return W.G(k, j)
            r = AL(W.LEN(k), gene)
            return r
        gene = AL(W.K, None)
        idx = {}

        class Genome(AL):
            __slots__ = ()

            def elem(self, k):
                return module(z3.simplify(lift(k)))
        gene = Genome(W.K, None)
        cls = [D, K][c.choose(2)]
        s = cls.__new__(cls)
        s.Theta = Theta(W)
        ip = Ip(ctx.session)

        def ones(ip_, shape, *r, **k):
            if len(shape) != 2 or not c.entails(z3.And(lift(shape[0]) == W.total, lift(shape[1]) == 1)):
                raise Unsupported('ones')
            return Col(W, W.ONE, 'numpy', 2)

        def mat(x):
            if isinstance(x, Mat):
                return x
            if isinstance(x, Col) and x.shape_ == 2 and x.where == 'numpy':
                t = x.t
                return Mat(W, 1, lambda q: t)
            raise Unsupported('hstack')

        def hstack(ip_, xs, **k):
            out = mat(xs[0])
            for x in xs[1:]:
                x = mat(x)
                out = Mat(W, z3.simplify(out.m + x.m), (lambda o, x: lambda q: z3.If(q < o.m, o.at(q), x.at(q - o.m)))(out, x))
            return out

        def delete(ip_, m, which, axis=None):
            if axis != 1 or which not in ([0], 0, (0,)):
                raise Unsupported('delete')
            c.prove('library: the column to drop exists', m.m >= 1)
            return Mat(W, z3.simplify(m.m - 1), lambda q: m.at(q + 1))
        ip.contracts.update({np.ones: ones, np.hstack: hstack, np.delete: delete, builtins.len: lambda ip_, x: x.__symlen__() if hasattr(x, '__symlen__') else len(x)})
        MATS = {}
        st = types.SimpleNamespace(kout=None)

        class Outer(LoopContract):
            def havoc(self, info, k):
                M = z3.Function(fresh_name('M'), I, cs)
                q = z3.Int('q')
                first = z3.Const(fresh_name('first'), cs)
                for nm, v in info.entry.items():
                    if isinstance(v, (Mat, Col)) and nm in WRITTEN:
                        info.env[nm] = Mat(W, k + 1, lambda p: z3.If(p == 0, first, W.PROD(p - 1, W.LEN(p - 1))))
                    elif nm in WRITTEN and isinstance(v, (int, Sym)) and not isinstance(v, bool):
                        info.env[nm] = wrap(W.SUM(k))
                st.kout = k
                c.assume_axiom(W.SUM(k + 1) == W.SUM(k) + W.LEN(k))

            def check(self, info, k, when):
                v = info.env.get('gene_translate')
                vs = [info.env[n] for n in WRITTEN if n in info.env and isinstance(info.env[n], (Mat, Col))] if when == 'initiation' else [info.env[n] for n in mats if n in info.env]
                if when == 'initiation':
                    mats.extend(n for n in WRITTEN if n in info.entry and isinstance(info.entry[n], (Mat, Col)))
                for v in vs:
                    m = mat(v)
                    c.prove('library: one column per term so far', m.m == k + 1)
                    if when != 'initiation':
                        q = z3.Int(fresh_name('q'))
                        c.assume(z3.And(q >= 0, q < k), check=False)
                        c.prove('library: the column of a term is the product of its columns', m.at(q + 1) == W.PROD(q, W.LEN(q)))
                for n in WRITTEN:
                    x = info.env.get(n)
                    if n in info.entry and isinstance(info.entry[n], (int, Sym)):
                        c.prove('library: the length penalty counts every gene', lift(x) == W.SUM(k))
        mats = []

        class Inner(LoopContract):
            def havoc(self, info, k):
                for nm, v in info.entry.items():
                    if isinstance(v, Col) and nm in ('module_out',) or isinstance(v, Col) and nm in INNER:
                        info.env[nm] = Col(W, W.PROD(st.kout, k), 'numpy', 2)
                step_prod(st.kout, k)

            def check(self, info, k, when):
                for nm in INNER:
                    v = info.env.get(nm)
                    if nm in info.entry and isinstance(v, Col):
                        if when == 'initiation':
                            step_prod(st.kout, k)
                        c.prove('library: the running product covers the genes so far', v.t == W.PROD(st.kout, k))

        def names(node):
            out = []
            for x in ast.walk(ast.Module(body=node.body, type_ignores=[])):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    nm = x.id if isinstance(x, ast.Name) else x.target.id
                    if nm not in out:
                        out.append(nm)
            return out
        WRITTEN, INNER = [], []

        def pick(fr, node):
            if any(isinstance(x, ast.For) for x in ast.walk(ast.Module(body=node.body, type_ignores=[]))):
                WRITTEN[:] = names(node)
                return Outer()
            INNER[:] = names(node)
            return Inner()
        ip.pick = pick
        r = ip.call(D.translate_DNA if cls is D else cls.translate_DNA, s, gene)
        m, pen = r
        c.prove('library: one column per term', mat(m).m == W.K)
        q = z3.Int(fresh_name('q'))
        c.assume(z3.And(q >= 0, q < W.K))
        c.prove('library: column q is the product of the columns named by term q', mat(m).at(q) == W.PROD(q, W.LEN(q)))
        c.prove('library: the length penalty counts every gene of every term', lift(pen) == W.SUM(W.K))
    ctx.run(run)
    ctx.assume_note('columns are terms of an algebra with an uninterpreted product: the product is taken in the order of the genes, starting from ones')


class Vec:
    """vector with a symbolic length"""

    def __init__(self, n, at, col=False):
        self.n, self.at, self.col = lift(n), at, col

    @property
    def shape(self):
        return (wrap(self.n), 1) if self.col else (wrap(self.n),)

    @property
    def size(self):
        return wrap(self.n)

    def __len__(self):
        raise Unsupported('len')

    def __neg__(self):
        return Vec(self.n, lambda q: -self.at(q), self.col)

    def __truediv__(self, o):
        d = lift(o)
        return Vec(self.n, lambda q: self.at(q) / d, self.col)

    def __mul__(self, o):
        d = lift(o)
        return Vec(self.n, lambda q: self.at(q) * d, self.col)

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is not None or i.step is not None:
                raise Unsupported('slice')
            a = lift(i.start or 0)
            return Vec(z3.simplify(self.n - a), lambda q: self.at(q + a))
        if isinstance(i, int) and i >= 0:
            cur().prove('coefficients: index in range', i < self.n)
            return wrap(self.at(z3.IntVal(i)))
        raise Unsupported('index')

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if len(s) != 2 or not (s[1] == 1 if isinstance(s[1], int) else cur().entails(lift(s[1]) == 1)):
            raise Unsupported('reshape')
        if not (isinstance(s[0], int) and s[0] == -1):
            cur().prove('coefficients: reshaped to their number', lift(s[0]) == self.n)
        return Vec(self.n, self.at, True)


class Tv:
    def __init__(self, vec):
        self.vec = vec

    @property
    def T(self):
        return self

    def __getitem__(self, i):
        if i == (slice(None, None, None), -1):
            return self.vec
        raise Unsupported('singular vector')


class Lhs:
    def __init__(self, nm):
        self.nm = nm

    def __sub__(self, o):
        if not isinstance(o, Dot):
            raise Unsupported('residual')
        return Res(self, o)


class Dot:
    def __init__(self, m, v):
        self.m, self.v = m, v


class Res:
    def __init__(self, lhs, dot):
        self.lhs, self.dot = lhs, dot

    def __pow__(self, p):
        if p != 2:
            raise Unsupported('power')
        return Sq(self)

    def __mul__(self, o):
        if o is not self:
            raise Unsupported('product')
        return Sq(self)


class Sq:
    def __init__(self, r):
        self.r = r


def g_fitness(ctx):
    """coefficients, penalised error and chosen left-hand side"""
    D, K = classes()

    def run():
        c = cur()
        m, total = z3.Int('terms'), z3.Int('rows')
        c.assume(z3.And(m >= 1, total >= 1))
        cls = [D, K][c.choose(2)]
        s = cls.__new__(cls)
        s.u_t, s.u_tt = Lhs('u_t'), Lhs('u_tt')
        s.epi = Real('penalty')
        s.Theta = types.SimpleNamespace(shape=(wrap(total), Int('columns')))
        G = object()
        pen = Int('genes')
        V = {n: z3.Function('V_' + n, I, R) for n in ('u_t', 'u_tt')}
        SS = {n: z3.Real('squares_' + n) for n in V}
        seen = {}
        ip = Ip(ctx.session)

        def hstack(ip_, xs, **k):
            if len(xs) == 2 and isinstance(xs[0], Lhs) and xs[1] is G:
                return ('aug', xs[0].nm)
            raise Unsupported('hstack')

        def svd(ip_, a, full_matrices=True, **k):
            if not (isinstance(a, tuple) and a[0] == 'aug'):
                raise Unsupported('svd')
            return object(), object(), Tv(Vec(m + 1, lambda q: V[a[1]](q)))

        def dot(ip_, a, b):
            if a is not G or not isinstance(b, Vec) or not b.col:
                raise Unsupported('dot')
            return Dot(a, b)

        def total_of(ip_, x, **k):
            if not isinstance(x, Sq) or k:
                raise Unsupported('sum')
            seen[x.r.lhs.nm] = x.r.dot.v
            return wrap(SS[x.r.lhs.nm])
        ident = lambda ip_, x, **k: x
        ip.contracts.update({np.hstack: hstack, np.linalg.svd: svd, np.dot: dot, np.matmul: dot, np.sum: total_of, np.array: ident, np.asarray: ident, np.square: lambda ip_, x: x ** 2})
        r = ip.call(cls.get_fitness, s, G, pen)
        coef, mse, raw, name = r
        c.prove('fitness: the left-hand side is u_t or u_tt', z3.BoolVal(name in V))
        if name not in V:
            return
        other = 'u_tt' if name == 'u_t' else 'u_t'
        c.prove('fitness: the error reported is that of the coefficients reported', z3.BoolVal(coef is seen.get(name) or isinstance(coef, Vec) and seen.get(name) is not None and coef.at is seen[name].at))
        c.prove('fitness: one coefficient per term', z3.And(coef.n == m, z3.BoolVal(coef.col)))
        q = z3.Int(fresh_name('q'))
        c.assume(z3.And(q >= 0, q < m))
        v = V[name]
        c.assume(v(0) + z3.RealVal('1e-8') != 0)
        c.prove('fitness: coefficient q belongs to term q', coef.at(q) == -(v(q + 1) / (v(z3.IntVal(0)) + z3.RealVal('1e-8'))))
        c.prove('fitness: mean squared error of the chosen side', lift(raw) * total == SS[name])
        c.prove('fitness: error plus sparsity penalty', lift(mse) == lift(raw) + s.epi.t * z3.ToReal(pen.t))
        c.prove('fitness: the side with the smaller error is chosen', SS[name] <= SS[other])
    ctx.run(run)
    ctx.assume_note('np.linalg.svd: the last right-singular vector has one entry for the left-hand side and one per term, in column order (library has at least as many rows as columns)', 'real arithmetic')


def g_duplicates(ctx):
    """no candidate keeps a repeated term"""
    D, K = classes()

    def run():
        c = cur()
        cls = [D, K][c.choose(2)]
        N = z3.Int('population')
        c.assume(N >= 1)
        L, M, S, INF = z3.Function('terms', I, I), z3.Function('term', I, I, I), z3.Function('canonical', I, I), z3.Function('seen', I, I, I, z3.BoolSort())
        x = z3.Int('x')

        class Term:
            def __init__(self, i, canon):
                self.i, self.canon = i, canon

        def known(i, k, v):
            c.assume_axiom(z3.And(z3.Not(INF(i, 0, v)), INF(i, k + 1, v) == z3.Or(INF(i, k, v), v == S(M(i, k)))))

        class New:
            """the rebuilt candidate"""
            __slots__ = ('has', 'i', 'k', 'n')

            def __init__(self):
                self.has, self.n, self.i, self.k = (lambda v: z3.BoolVal(False)), z3.IntVal(0), None, None

            def __symcontains__(self, t):
                if not (isinstance(t, Term) and t.canon):
                    raise Unsupported('membership of an unsorted term')
                return wrap(self.has(t.i))

            def append(self, t):
                if not (isinstance(t, Term) and t.canon):
                    c.prove('duplicates: terms are stored in canonical order', z3.BoolVal(False))
                    return
                has, v = self.has, t.i
                c.prove('duplicates: a term is stored once', z3.Not(has(v)))
                c.prove('duplicates: terms are stored in the order of their first occurrence', v == S(M(cur_i[0], cur_k[0])))
                self.has, self.n = (lambda q: z3.Or(has(q), q == v)), self.n + 1
        cur_i, cur_k = [None], [None]

        class Genome(SSeq):
            def __init__(self, i):
                self.i = i
                SSeq.__init__(self, wrap(L(i)), lambda k: Term(M(i, lift(k)), False))
        stored = []

        class Pop(AL):
            __slots__ = ()

            def elem(self, k):
                i = z3.simplify(lift(k))
                c.assume_axiom(L(i) >= 1)
                return Genome(i)

            def set(self, i, v):
                stored.append((lift(i), v))
        s = cls.__new__(cls)
        s.pop_size = wrap(N)
        s.Chrom = ch = Pop(N, None)
        ip = Ip(ctx.session)
        ip.fill = New
        ip.contracts[builtins.sorted] = lambda ip_, t: Term(S(t.i), True) if isinstance(t, Term) and not t.canon else t
        ip.contracts[len] = lambda ip_, v: v.length() if isinstance(v, SSeq) and not isinstance(v, AL) else v.__symlen__() if hasattr(v, '__symlen__') else len(v)

        class Outer(LoopContract):
            def havoc(self, info, k):
                stored.clear()
                cur_i[0] = k

            def check(self, info, k, when):
                if when == 'initiation':
                    c.prove('duplicates: every candidate is visited', info.n == N)
                    return
                i = z3.simplify(k - 1)
                ok = len(stored) == 1 and isinstance(stored[0][1], New)
                c.prove('duplicates: each candidate is rebuilt in its own place', stored[0][0] == i if ok else z3.BoolVal(False))
                if ok:
                    w = z3.Int(fresh_name('any'))
                    c.prove('duplicates: the rebuilt candidate has exactly the terms of the old one', stored[0][1].has(w) == INF(i, L(i), w))

        class Inner(LoopContract):
            modifies = ('new_genome',)

            def news(self, info):
                return [v for v in info.env.values() if isinstance(v, New)]

            def havoc(self, info, k):
                cur_k[0] = k
                i = cur_i[0]
                for v in self.news(info):
                    v.has = lambda q: INF(i, k, q)

            def check(self, info, k, when):
                i = cur_i[0]
                if when == 'initiation':
                    c.prove('duplicates: every term is visited', info.n == L(i))
                w = z3.Int(fresh_name('any'))
                known(i, z3.simplify(k - 1), w) if when != 'initiation' else known(i, k, w)
                for v in self.news(info):
                    c.prove(f'duplicates: exactly the terms seen so far are stored [{when}]', v.has(w) == INF(i, k, w))
        ip.pick = lambda fr, node: Outer() if any(isinstance(y, ast.For) for b in node.body for y in ast.walk(b)) else Inner()
        r = ip.call(cls.delete_duplicates, s)
        c.prove('duplicates: the population itself is kept', z3.BoolVal(s.Chrom is ch and r is ch))
    ctx.run(run)


def g_select(ctx):
    """selection keeps the fittest candidates with their own fitness, coefficients and side"""
    D, K = classes()

    def run():
        c = cur()
        which = c.choose(2)
        cls = [D, K][which]
        N = z3.Int('population')
        c.assume(N >= 2)
        CH, FIT, EMPTY = z3.Function('candidate', I, I), z3.Function('fitness', I, R), z3.Function('empty', I, z3.BoolSort())
        INFTY = z3.Real('infinity')

        class Ch:
            def __init__(self, t):
                self.t = t

            def __bool__(self):
                if which == 0:
                    raise Unsupported('truth of a candidate')
                return not cur().decide(EMPTY(self.t))
        enc, dec = (lambda v: v.t if isinstance(v, Ch) else lift(v)), Ch
        s = cls.__new__(cls)
        s.pop_size = wrap(N)
        s.Chrom = AL(N, lambda q: CH(q), enc, dec)
        s.n_generations = Int('generations')

        class Tag:
            """coefficients / side of a candidate"""

            def __init__(self, kind, t):
                self.kind, self.t = kind, t
        NONE = z3.IntVal(-1)

        def tag_enc(kind):
            return lambda v: v.t if isinstance(v, Tag) and v.kind == kind else NONE if isinstance(v, (list, str)) and len(v) == 0 or isinstance(v, AL) else bad()

        def bad():
            cur().prove('selection: coefficients and sides are stored in their own lists', z3.BoolVal(False))
            return NONE
        U = z3.Function('fit_of', I, R)      # fitness of a candidate (content)

        def tr(ip_, me, ch):
            return ('columns', ch.t), ('penalty', ch.t)

        def fit(ip_, me, cols, pen):
            c.prove('selection: the penalty belongs to the columns', z3.BoolVal(cols[0] == 'columns' and pen[0] == 'penalty' and cols[1] is pen[1]))
            return Tag('coef', cols[1]), wrap(U(cols[1])), Real(fresh_name('raw')), Tag('name', cols[1])
        made = []

        def new(ip_, me):
            t = Ch(z3.Int(fresh_name('new')))
            return t
        ip = Ip(ctx.session)
        for k in (D, K):
            ip.contracts[k.translate_DNA], ip.contracts[k.get_fitness], ip.contracts[k.random_genome] = tr, fit, new
        ip.contracts[builtins.float] = lambda ip_, x: wrap(INFTY) if x == 'inf' else float(x)
        ip.contracts[builtins.len] = lambda ip_, x: x.__symlen__() if hasattr(x, '__symlen__') else len(x)
        score = lambda t: z3.If(EMPTY(t), INFTY, U(t)) if which else U(t)
        W = types.SimpleNamespace(P=None)

        def rank(ip_, n, seq, key=None):
            """indices (or values) of the n smallest, in order"""
            c2 = cur()
            if isinstance(seq, AL) and key is None:
                raise Unsupported('values without positions')
            size = lift(seq.length()) if hasattr(seq, 'length') else z3.IntVal(len(seq))
            k = z3.If(lift(n) < size, z3.If(lift(n) < 0, z3.IntVal(0), lift(n)), size)
            P, INV = z3.Function(fresh_name('P'), I, I), z3.Function(fresh_name('INV'), I, I)
            kept = z3.Function(fresh_name('kept'), I, z3.BoolSort())
            val = lambda q: lift(key(wrap(q))) if callable(key) else None
            W.P, W.k, W.kept, W.INV, W.size = P, k, kept, INV, size
            W.val = lambda q: fitlist[0](q)
            if key is None or getattr(key, '__self__', None) is None or not isinstance(key.__self__, AL):
                raise Unsupported('ranking key')
            fitlist[0] = key.__self__.at
            c2.prove('selection: all candidates are ranked by fitness', z3.And(size == N, key.__self__.n == N))

            def fact(q):
                c2.assume_axiom(z3.Implies(z3.And(q >= 0, q < k), z3.And(P(q) >= 0, P(q) < size, kept(P(q)), INV(P(q)) == q)))
                c2.assume_axiom(z3.Implies(z3.And(q >= 0, q + 1 < k, k >= 1), fitlist[0](P(q)) <= fitlist[0](P(q + 1))))
            W.fact = fact
            r = AL(k, lambda q: (fact(q), P(q))[1])
            return r
        fitlist = [None]
        ip.contracts[heapq.nsmallest] = rank
        ip.contracts[builtins.sorted] = lambda ip_, seq, key=None: rank(ip_, seq.length() if hasattr(seq, 'length') else len(seq), seq, key)
        kinds = {'new_Chrom': (enc, dec), 'fitness_list': (lift, wrap), 'coef_list': (tag_enc('coef'), lambda t: Tag('coef', t)), 'name_list': (tag_enc('name'), lambda t: Tag('name', t)),
                 'new_fitness': (lift, wrap), 'new_coef': (tag_enc('coef'), lambda t: Tag('coef', t)), 'new_name': (tag_enc('name'), lambda t: Tag('name', t))}
        lists = []

        class Lz(AL):
            """list whose kind of element is fixed by its first element"""
            __slots__ = ('kind',)

            def __init__(self):
                AL.__init__(self, 0, None)
                self.kind = None

            def setk(self, kind):
                self.kind = kind
                self.enc = {'cand': enc, 'fit': lift, 'coef': tag_enc('coef'), 'name': tag_enc('name')}[kind]
                self.dec = {'cand': Ch, 'fit': wrap, 'coef': lambda t: Tag('coef', t), 'name': lambda t: Tag('name', t)}[kind]

            def append(self, v):
                if self.kind is None:
                    k = 'cand' if isinstance(v, Ch) else v.kind if isinstance(v, Tag) else 'fit' if isinstance(v, (Sym, float)) else 'name' if isinstance(v, str) else 'coef' if isinstance(v, Lz) and v.kind is None else None
                    if k is None:
                        raise Unsupported('list of other values')
                    self.setk(k)
                    if self.at is None:
                        self.at = lambda q: z3.RealVal(0) if k == 'fit' else z3.IntVal(0)
                return AL.append(self, v)

        def spec_first(kind):
            def at(q):
                t = CH(q)
                return t if kind == 'cand' else score(t) if kind == 'fit' else z3.If(EMPTY(t), NONE, t) if which else t
            return at

        class Evaluate(LoopContract):
            """after k candidates the lists have k entries, entry q about candidate q"""

            def havoc(self, info, k):
                for nm, v in info.env.items():
                    if isinstance(v, Lz) and nm in self.names:
                        v.setk(self.names[nm])
                        v.n, v.at = k, self.at(self.names[nm], nm)

            def at(self, kind, nm):
                return spec_first(kind)

            names = {'fitness_list': 'fit', 'coef_list': 'coef', 'name_list': 'name'}
            label = 'selection: every candidate is evaluated'

            def start(self, info):
                return z3.IntVal(0)

            def check(self, info, k, when):
                for nm, kind in self.names.items():
                    v = info.env.get(nm)
                    if not isinstance(v, Lz):
                        raise Unsupported(f'list {nm} not found')
                    c.prove(f'{self.label} [{nm}: one entry each]', v.n == k + self.start(info))
                    if when != 'initiation':
                        q = z3.Int(fresh_name('q'))
                        c.assume(z3.And(q >= 0, q < v.n))
                        if W.P is not None:
                            W.fact(q)
                        c.prove(f'{self.label} [{nm}: about its own candidate]', v.at(q) == self.at(kind, nm)(q))

        class Keep(Evaluate):
            names = {'new_Chrom': 'cand', 'new_fitness': 'fit', 'new_coef': 'coef', 'new_name': 'name'}
            label = 'selection: every kept entry is about the kept candidate'

            def at(self, kind, nm):
                f = spec_first(kind)
                return lambda q: (W.fact(q), f(W.P(q)))[1]

        class Fill(Evaluate):
            names = {'new_Chrom': 'cand'}
            label = 'selection: random candidates are only added behind'

            def havoc(self, info, k):
                v = info.env['new_Chrom']
                self.base = (v.n, v.at)
                F = z3.Function(fresh_name('fill'), I, I)
                n0, at0 = self.base
                v.n, v.at = n0 + k, lambda q: z3.If(q < n0, at0(q), F(q))
                self.pre = v.at

            def check(self, info, k, when):
                v = info.env['new_Chrom']
                if when == 'initiation':
                    self.base = (v.n, v.at)
                    return
                q = z3.Int(fresh_name('q'))
                c.assume(z3.And(q >= 0, q < v.n))
                c.prove(f'{self.label} [one each]', v.n == self.base[0] + k)
                c.prove(f'{self.label} [kept ones untouched]', z3.Implies(q < self.base[0], v.at(q) == self.base[1](q)))
        ip.fill = lambda: Lz()

        def pick(fr, node):
            calls = {ast.unparse(x.func).split('.')[-1] for b in node.body for x in ast.walk(b) if isinstance(x, ast.Call)}
            return Evaluate() if 'get_fitness' in calls else Fill() if 'random_genome' in calls else Keep()
        ip.pick = pick
        r = ip.call(cls.select, s)
        ok = all(isinstance(x, Lz) for x in (s.Chrom, s.Fitness, s.coef, s.name)) and W.P is not None
        c.prove('selection: candidates, fitness, coefficients and sides are stored', z3.BoolVal(ok))
        if not ok:
            return
        c.prove('selection: the stored lists are returned', z3.BoolVal(len(r) == 4 and r[0] is s.Chrom and r[1] is s.Fitness and r[2] is s.coef and r[3] is s.name))
        k = W.k
        c.prove('selection: half of the population is kept, with fitness, coefficients and side', z3.And(k == N / 2, s.Fitness.n == k, s.coef.n == k, s.name.n == k))
        c.prove('selection: the population keeps its size', s.Chrom.n == N)
        q, p, w = z3.Int(fresh_name('q')), z3.Int(fresh_name('p')), z3.Int(fresh_name('w'))
        c.assume(z3.And(q >= 0, q < k))
        t = s.Chrom.at(q)
        W.fact(q)
        W.fact(q + 1)
        c.prove('selection: a kept entry is one of the candidates', z3.And(W.P(q) >= 0, W.P(q) < N, t == CH(W.P(q))))
        c.prove('selection: fitness, coefficients and side belong to the kept candidate', z3.And(s.Fitness.at(q) == score(t), z3.Implies(z3.BoolVal(which == 0) if which == 0 else z3.Not(EMPTY(t)), z3.And(s.coef.at(q) == t, s.name.at(q) == t))))
        c.prove('selection: fittest first', z3.Implies(q + 1 < k, s.Fitness.at(q) <= s.Fitness.at(q + 1)))
        c.assume(z3.And(p >= 0, p < k, p != q))
        W.fact(p)
        c.prove('selection: no candidate is kept twice', W.P(p) != W.P(q))
        c.prove('selection: ranked by the fitness of the candidates', z3.Implies(z3.And(w >= 0, w < N), fitlist[0](w) == score(CH(w))))
    ctx.run(run)
    ctx.assume_note('heapq.nsmallest(n, positions, key) returns the n distinct positions with the smallest keys in ascending order', 'fitness values are totally ordered (no nan)', 'the recording of histories is not part of the property')


class G:
    """values on the graph of automatic differentiation"""

    def __init__(self, what):
        self.what = what
        self.shape = ('rows', 1)

    def sum(self):
        return G(('sum', self.what))

    def reshape(self, *s):
        return self

    def cpu(self):
        return self

    def detach(self):
        return self

    def numpy(self):
        return G(('numpy', self.what))


class Grad:
    def __init__(self, what, width):
        self.what, self.shape = what, ('rows', width)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None, None, None) and isinstance(i[1], int):
            return G(('d', self.what, i[1]))
        raise Unsupported('gradient entry')


def der(*dims):
    t = 'u'
    for d in dims:
        t = ('d', t, d)
    return t


NAMES = {'u': der(), 'u_x': der(0), 'u_t': der(1), 'u_xx': der(0, 0), 'u_xxx': der(0, 0, 0), 'u_tt': der(1, 1)}


def g_library(ctx):
    """column j of the library is the derivative the j-th operator names"""
    D, K = classes()
    kdm, dm = need(KDL), need(DL)
    torch = need('torch')

    def run():
        c = cur()
        which = c.choose(2)
        cls = [D, K][which]
        s = cls.__new__(cls)
        ip = Ip(ctx.session)

        class X:
            shape = ('rows', 2)
            on = False

            def astype(self, t):
                return self

            def to(self, d):
                return self

            def requires_grad_(self, f=True):
                return self
        x = X()

        class Net:
            def load_state_dict(self, d):
                pass

            def eval(self):
                pass

            def __call__(self, v):
                if v is not x:
                    raise Unsupported('network input')
                return G('u')
        s.Net, s.device, s.best_epoch = Net(), 'cpu', 500
        ip.contracts[torch.from_numpy] = lambda ip_, v: v
        ip.contracts[torch.load] = lambda ip_, *a, **k: {}

        def grad(ip_, outputs=None, inputs=None, **k):
            if inputs is not x or not (isinstance(outputs.what, tuple) and outputs.what[0] == 'sum'):
                raise Unsupported('gradient')
            return (Grad(outputs.what[1], 2),)
        ip.contracts[torch.autograd.grad] = grad
        ip.contracts[torch.zeros_like] = lambda ip_, v: G('zeros')

        def cat(ip_, cols, axis=None, dim=None):
            if (axis if axis is not None else dim) != 1:
                raise Unsupported('concatenate')
            return ('theta', cols)
        ip.contracts[torch.concatenate] = ip.contracts[torch.cat] = ip.contracts[torch.hstack] = cat
        if which == 0:
            ip.call(cls.generate_meta_data, s, x)
            want = [NAMES[n] for n in ('u', 'u_x', 'u_xx', 'u_xxx', 'u_t', 'u_tt')]
            got = [g.what for g in s.Theta[1]]
            c.prove('library: the columns are u, u_x, u_xx, u_xxx, u_t, u_tt in this order', z3.BoolVal(got == want))
        else:
            n = z3.Int('operators')
            c.assume(n >= 1)
            known = z3.Function('known', I, z3.BoolSort())
            pick = list(NAMES) + ['x_u']
            name = [None, None]

            class Ops(SSeq):
                def __init__(self):
                    SSeq.__init__(self, wrap(n), self.one)

                def one(self, k):
                    if name[0] is None:
                        j = c.choose(len(pick))
                        name[:] = [k, pick[j]]
                        c.assume(known(k) == z3.BoolVal(pick[j] in NAMES))
                    elif not name[0].eq(k):
                        raise Unsupported('two operators at once')
                    return name[1]
            s.user_operators = Ops()

            class Cols:
                __slots__ = ('n', 'last')

                def append(self, v):
                    self.n, self.last = self.n + 1, v

                def __bool__(self):
                    return c.decide(self.n > 0)
            made = []

            def new():
                v = Cols()
                v.n, v.last = z3.IntVal(0), None
                made.append(v)
                return v
            ip.fill = new
            st = types.SimpleNamespace(k=None)

            class L(LoopContract):
                modifies = ('theta_columns',)

                def havoc(self, info, k):
                    for v in made:
                        v.n, v.last = k, None
                    st.k = k

                def check(self, info, k, when):
                    for v in made:
                        c.prove('library: one column per operator so far', v.n == k)
                        if when != 'initiation':
                            c.prove('library: the column of an operator is the derivative of that name', z3.BoolVal(isinstance(v.last, G) and v.last.what == NAMES.get(name[1])))
            ip.pick = lambda fr, node: L()
            base_comp = ip.comp

            def comp(e, fr, ctor):
                it = ip.eval(e.generators[0].iter, fr)
                if isinstance(it, Ops):
                    if len(e.generators) == 1 and e.generators[0].ifs and ast.unparse(e.elt) == ast.unparse(e.generators[0].target):
                        # names that are not available: the filter is evaluated for an arbitrary operator
                        k = z3.Int(fresh_name('any'))
                        c.assume(z3.And(k >= 0, k < n))
                        if c.choose(2):
                            f2 = ip.subframe(fr)
                            ip.assign(e.generators[0].target, it.one(k), f2)
                            if not all(ip.truth(ip.eval(g, f2)) for g in e.generators[0].ifs):
                                raise PathEnd()
                            return [name[1]]
                        f2 = ip.subframe(fr)
                        bad = []
                        for nm in pick:
                            ip.assign(e.generators[0].target, nm, f2)
                            if all(ip.truth(ip.eval(g, f2)) for g in e.generators[0].ifs):
                                bad.append(nm)
                        # nothing passed the filter
                        for nm in bad:
                            pick.remove(nm)
                        return []
                    raise Unsupported('comprehension over the operators')
                return base_comp(e, fr, ctor)
            ip.comp = comp
            try:
                ip.call(cls.generate_meta_data, s, x)
            except PyRaise as e:
                if not isinstance(e.exc, ValueError):
                    raise
                c.prove('library: only an unknown operator is rejected', z3.BoolVal(name[1] is not None and name[1] not in NAMES))
                return
            ok = isinstance(s.Theta, tuple) and s.Theta[0] == 'theta' and isinstance(s.Theta[1], Cols)
            c.prove('library: one column per operator', s.Theta[1].n == n if ok else z3.BoolVal(False))
            c.prove('library: the record of all terms gives every name its own derivative', z3.BoolVal({k: v.what for k, v in s.metadata.items()} == {k: ('numpy', v) for k, v in NAMES.items()}))
        c.prove('library: the two left-hand sides are u_t and u_tt', z3.BoolVal(s.u_t.what == ('numpy', NAMES['u_t']) and s.u_tt.what == ('numpy', NAMES['u_tt'])))
    ctx.run(run)
    ctx.assume_note('torch.autograd.grad of a summed column is its gradient, column d the derivative in input d (x, t)')


def groups():
    return [('generation', g_generate), ('variation', g_vary), ('translation', g_translate), ('fitness', g_fitness), ('duplicates', g_duplicates), ('selection', g_select), ('library', g_library)]


# ---- run-time contract -------------------------------------------------------------------------------------------------------

def build(rng, which, pop, repeats=True):
    import torch
    D, K = classes()
    ops = [rng.choice(list(NAMES)) for _ in range(rng.randrange(1, 7))] if repeats and rng.random() < .3 else rng.sample(list(NAMES), rng.randrange(1, 7))
    m = K(operators=ops, epi=rng.choice([0., .01, .1]), input_dim=2, max_iter=2, verbose=False) if which else D(epi=rng.choice([0., .01, .1]), input_dim=2, max_iter=2)
    m.pop_size, m.n_generations = pop, rng.choice([1, 2, 3, 12])
    m.max_length = rng.choice([1, 2, 5])
    for a in ('partial_prob', 'genes_prob', 'mutate_rate', 'delete_rate', 'add_rate'):
        setattr(m, a, rng.choice([0., .3, .7, 1.]))
    g = np.random.RandomState(rng.randrange(2 ** 31))
    n = 40
    X = g.rand(n, 2)
    cols = {k: g.randn(n, 1) for k in NAMES}
    names = ops if which else ['u', 'u_x', 'u_xx', 'u_xxx', 'u_t', 'u_tt']
    m.Theta = torch.from_numpy(np.hstack([cols[k] for k in names]).astype(np.float32))
    m.u_t, m.u_tt = cols['u_t'], cols['u_tt']
    return m, names, {k: (v.astype(np.float32) if k in names else v) for k, v in cols.items()}


def genome_ok(m, names, g, strict=False):
    check(isinstance(g, list) and len(g) >= 1, f'candidate without terms: {g}')
    for t in g:
        check(isinstance(t, list) and len(t) >= 1, f'empty term in {g}')
        check(all(isinstance(x, (int, np.integer)) and 0 <= x < len(names) for x in t), f'gene without a column: {t} of {len(names)}')
    if strict:
        ks = [tuple(sorted(t)) for t in g]
        check(len(set(ks)) == len(ks), f'repeated term in {g}')


def columns(cols, names, g):
    out = []
    for t in g:
        v = np.ones((40, 1))
        for i in t:
            v = v * cols[names[i]]
        out.append(v)
    return np.hstack(out)


def solve(m, T, lhs):
    A = np.hstack([lhs, T])
    v = np.linalg.svd(A, full_matrices=False)[2][-1]
    co = -(v / (v[0] + 1e-8))[1:]
    return co, float(((lhs[:, 0] - T @ co) ** 2).mean())


def evaluate(m, names, cols, g):
    T = columns(cols, names, g)
    a, b = solve(m, T, m.u_t), solve(m, T, m.u_tt)
    pen = m.epi * sum(len(t) for t in g)
    return (a[0], a[1] + pen, 'u_t') if a[1] < b[1] else (b[0], b[1] + pen, 'u_tt')


def case_search(seed, which, pop):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        _search(seed, which, pop)


def _search(seed, which, pop):
    rng = random.Random(seed)
    random.seed(seed)
    np.random.seed(seed % 2 ** 31)
    m, names, cols = build(rng, which, pop)
    m.Chrom = [m.random_genome() for _ in range(pop)]
    for g in m.Chrom:
        genome_ok(m, names, g)
        check(len(g) <= m.max_length and all(len(t) <= m.max_length for t in g), 'longer than the limit')
        check(all(t == sorted(t) for t in g), 'unsorted term')
    for step in range(4):
        before = copy.deepcopy(m.Chrom)
        m.delete_duplicates()
        for o, g in zip(before, m.Chrom):
            want = []
            for t in o:
                if sorted(t) not in want:
                    want.append(sorted(t))
            check(g == want, f'{o} became {g}')
        g = rng.choice(m.Chrom)
        T, pen = m.translate_DNA(g)
        check(T.shape == (40, len(g)) and pen == sum(len(t) for t in g), 'shape of the library or length penalty')
        check(np.allclose(T, columns(cols, names, g), rtol=1e-5, atol=1e-6), f'columns of {g} differ from the products of {names}')
        co, mse, raw, nm = m.get_fitness(T, pen)
        check(np.shape(co) == (len(g), 1), 'one coefficient per term')
        e = solve(m, T, m.u_t if nm == 'u_t' else m.u_tt)
        o = solve(m, T, m.u_tt if nm == 'u_t' else m.u_t)
        check(np.allclose(co[:, 0], e[0], rtol=1e-5, atol=1e-7) and np.isclose(raw, e[1], rtol=1e-6) and np.isclose(mse, e[1] + m.epi * pen, rtol=1e-6), 'coefficients or error')
        check(e[1] <= o[1] * (1 + 1e-9), 'the worse side was chosen')
        before = copy.deepcopy(m.Chrom)
        m.select()
        fits = []
        for b in before:
            T, p = m.translate_DNA(b)
            fits.append((m.get_fitness(T, p), b))
        k = pop // 2
        check(len(m.Chrom) == pop and len(m.Fitness) == len(m.coef) == len(m.name) == k, f'{len(m.Chrom)} candidates after selection for a population of {pop}')
        order = sorted(range(pop), key=lambda i: fits[i][0][1])
        check([m.Fitness[i] for i in range(k)] == [fits[i][0][1] for i in order[:k]], 'the kept candidates are not the fittest')
        for i in range(k):
            ms = [f for f, b in fits if b == m.Chrom[i] and f[1] == m.Fitness[i]]
            check(bool(ms), 'a kept candidate was changed')
            check(np.array_equal(ms[0][0], m.coef[i]) and ms[0][3] == m.name[i], 'coefficients or side of another candidate')
        kept = sorted(map(repr, m.Chrom[:k]))
        cut = fits[order[k - 1]][0][1] if k else None
        for b in before:
            f = [x for x, y in fits if y == b][0][1]
            if k and f < cut:
                check(kept.count(repr(b)) == sum(1 for y in before if y == b), 'a fitter candidate was dropped')
        check(len({id(g) for g in m.Chrom}) == pop and len({id(t) for g in m.Chrom for t in g}) == sum(map(len, m.Chrom)), 'two candidates share a list')
        n_terms = sorted(tuple(t) for g in m.Chrom for t in g)
        m.cross_over()
        check(sorted(tuple(t) for g in m.Chrom for t in g) == n_terms and len(m.Chrom) == pop, 'crossover lost or invented terms')
        for g in m.Chrom:
            genome_ok(m, names, g)
        m.mutation()
        check(len(m.Chrom) == pop, 'mutation changed the population size')
        for g in m.Chrom:
            genome_ok(m, names, g)


def case_evolution(seed, which, pop):
    import contextlib, io, os, tempfile
    rng = random.Random(seed)
    random.seed(seed)
    np.random.seed(seed % 2 ** 31)
    m, names, cols = build(rng, which, pop)
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        os.chdir(d)
        try:
            ch, co, fit, nm = m.evolution()
        finally:
            os.chdir(old)
    genome_ok(m, names, ch, strict=True)
    e = evaluate(m, names, cols, ch)
    check(nm == e[2] or np.isclose(fit, e[1], rtol=1e-4), 'side of the result')
    check(np.isclose(fit, e[1], rtol=1e-4, atol=1e-9) and np.shape(co) == (len(ch), 1), f'fitness {fit} of the result, recomputed {e[1]}')
    check(fit == min(m.Fitness) and all(b <= a + 1e-12 for a, b in zip(m.fitness_history, m.fitness_history[1:])), 'the best fitness got worse or is not reported')


def case_library(seed):
    import os, tempfile, torch
    rng = random.Random(seed)
    torch.manual_seed(seed)
    ops = rng.sample(list(NAMES), rng.randrange(1, 7))
    D, K = classes()
    bad = rng.random() < .3
    if bad:
        ops.insert(rng.randrange(len(ops) + 1), rng.choice(['v', 'u_xt', 'sin']))
    m = K(operators=list(ops), epi=.01, input_dim=2, max_iter=1, verbose=False)
    m.Net = torch.nn.Sequential(torch.nn.Linear(2, 12), torch.nn.Tanh(), torch.nn.Linear(12, 1))
    m.device, m.best_epoch = torch.device('cpu'), 500
    X = np.random.RandomState(seed % 2 ** 31).rand(9, 2)
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            os.makedirs('model_save')
            torch.save(m.Net.state_dict(), 'model_save/Net_500.pkl')
            try:
                m.generate_meta_data(X)
            except ValueError:
                check(bad, 'valid operators were rejected')
                return
        finally:
            os.chdir(old)
    check(m.Theta.shape == (9, m.library_size), f'{m.Theta.shape[1]} columns for {m.library_size} operators')
    check(not bad, 'an unknown operator was accepted')
    T = m.Theta.detach().numpy()
    w = [p.detach().numpy().astype(float) for p in m.Net.parameters()]
    z = X.astype(np.float32).astype(float) @ w[0].T + w[1]
    t = np.tanh(z)
    d = [t, 1 - t ** 2, -2 * t * (1 - t ** 2), (1 - t ** 2) * (6 * t ** 2 - 2)]

    def val(nm):
        k = nm.partition('_')[2]
        r = d[len(k)]
        for ch in k:
            r = r * w[0][:, 'xt'.index(ch)]
        return (r @ w[2].T)[:, 0] + (w[3][0] if not k else 0)
    for j, nm in enumerate(ops):
        check(np.allclose(T[:, j], val(nm), rtol=1e-3, atol=1e-5), f'column {j} is not {nm}')
    for nm in NAMES:
        check(np.allclose(m.metadata[nm][:, 0], val(nm), rtol=1e-3, atol=1e-5), f'record of {nm}')
    check(np.allclose(m.u_t[:, 0], val('u_t'), rtol=1e-3, atol=1e-5) and np.allclose(m.u_tt[:, 0], val('u_tt'), rtol=1e-3, atol=1e-5), 'left-hand sides')


def cases(tier, rng):
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        if i % 3 == 0:
            yield C(case_library), dict(seed=s), ('l', s)
        elif i % 3 == 1:
            yield C(case_search), dict(seed=s, which=rng.randrange(2), pop=rng.choice([2, 3, 4, 5, 8, 13])), ('s', s)
        else:
            yield C(case_evolution), dict(seed=s, which=rng.randrange(2), pop=rng.choice([2, 3, 6, 9])), ('e', s)
        i += 1
