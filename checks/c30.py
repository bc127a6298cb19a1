"""C30: plot payloads are validated and dispatched to the right adapter."""
import ast, builtins, contextlib, dataclasses, inspect, io, os, random, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq, seq_of
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C30'
LEVEL = 'proof'
BUDGET = {'quick': 25, 'thorough': 300}
RULE = 'random payloads (right and wrong shapes), slices, class hierarchies with registries (eager and lazy, any order) and requests through the real functions; non-trivial when the seed is new'
KC = 'kd.viz._contracts'
KO = 'kd.viz.core'
RG = 'kd.viz.registry'
API = 'kd.viz.api'
ASSUMPTIONS = ['numpy: asarray keeps shape and values, reshape(-1) flattens, subtraction follows the broadcasting rule, take removes one axis at one index, min/max/any follow their documentation',
               'flattening the difference of two arrays of the same number of elements gives their elementwise difference when the broadcast result has that number of elements too',
               'a lazy adapter registered under a class name resolves to a class of that name',
               'slice times and time coordinates are not NaN']
I_, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
SH = z3.DeclareSort('Shape')
SIZE, RANK, DIM0 = z3.Function('size', SH, I_), z3.Function('rank', SH, I_), z3.Function('dim0', SH, I_)


def mk(dims):
    """the shape with these dimensions"""
    f = z3.Function(f'shape{len(dims)}', *[I_] * len(dims), SH)
    s = f(*[lift(d) for d in dims])
    c = cur()
    c.assume_axiom(RANK(s) == len(dims))
    c.assume_axiom(DIM0(s) == lift(dims[0]))
    if len(dims) == 1:
        c.assume_axiom(SIZE(s) == lift(dims[0]))
    return s


class Sh:
    """shape of an array: any number of dimensions"""

    def __init__(self, t): self.t = t

    def other(self, o):
        if isinstance(o, Sh):
            return o.t
        if isinstance(o, tuple) and o:
            return mk(o)
        raise Unsupported('comparison of a shape')

    def __eq__(self, o): return wrap(self.t == self.other(o))

    def __ne__(self, o): return wrap(self.t != self.other(o))
    __hash__ = None

    def __getitem__(self, i):
        c = cur()
        if i != 0:
            raise Unsupported('dimension')
        if not c.decide(RANK(self.t) >= 1):
            raise PyRaise(IndexError('tuple index out of range'))
        return wrap(DIM0(self.t))

    def __symlen__(self): return wrap(RANK(self.t))


class GA:
    """an array: val says where its values come from"""
    def __init__(self, val, sh):
        self.val, self.sh = val, sh
        c = cur()
        c.assume_axiom(z3.And(SIZE(sh) >= 0, RANK(sh) >= 0))

    shape = property(lambda self: Sh(self.sh))
    size = property(lambda self: wrap(SIZE(self.sh)))
    ndim = property(lambda self: wrap(RANK(self.sh)))

    def reshape(self, *n):
        if n not in ((-1,), ((-1,),)):
            raise Unsupported('reshape')
        return GA(('flat', self.val), mk([SIZE(self.sh)]))

    def ravel(self): return self.reshape(-1)
    flatten = ravel

    def __sub__(self, o):
        if not isinstance(o, GA):
            raise Unsupported('subtraction')
        c = cur()
        if c.decide(self.sh == o.sh):
            return GA(('sub', self.val, o.val), self.sh)
        if c.choose(2):
            raise PyRaise(ValueError('operands could not be broadcast together'))
        return GA(('sub', self.val, o.val), z3.Const(fresh_name('broadcast'), SH))

    def __symlen__(self): return Sh(self.sh)[0]

    def __bool__(self): raise Unsupported('truth of an array')

    def rv(self): return z3.Function('value_of_' + str(self.val), I_, R_)

    def ext(self, sign):
        c = cur()
        if not c.decide(SIZE(self.sh) >= 1):
            raise PyRaise(ValueError('zero-size array'))
        return wrap(z3.Real(('min ' if sign < 0 else 'max ') + str(self.val)))

    def min(self): return self.ext(-1)

    def max(self): return self.ext(1)

    def __lt__(self, o): return Cmp(self, o, '<')

    def __gt__(self, o): return Cmp(self, o, '>')

    def __le__(self, o): return Cmp(self, o, '<=')

    def __ge__(self, o): return Cmp(self, o, '>=')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'array.{n}')


class Cmp:
    def __init__(self, a, b, op):
        self.a, self.b, self.op = a, lift(b), op

    def at(self, i):
        x = self.a.rv()(i)
        return {'<': x < self.b, '>': x > self.b, '<=': x <= self.b, '>=': x >= self.b}[self.op]

    def any(self):
        c = cur()
        i = z3.Int(fresh_name('i'))
        n = SIZE(self.a.sh)
        if c.choose(2):
            c.assume(z3.And(i >= 0, i < n, self.at(i)))
            return True
        w = z3.Int('w')
        c.assume(z3.Implies(z3.And(w >= 0, w < n), z3.Not(self.at(w))))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(self.at(i)))))
        return False


class Raw:
    """what the user gave: converts to an array"""

    def __init__(self, name):
        self.a = GA(name, z3.Const('sh ' + name, SH))


class Seq(SSeq):
    def __symlen__(self): return wrap(lift(self.length()))

    def __bool__(self): return cur().decide(lift(self.length()) > 0)


class Ip(Interp):
    def getitem(self, o, i, *a):
        if isinstance(o, Seq) and isinstance(i, slice) and i.step is None:
            n = lift(o.length())

            def end(v, d):
                v = d if v is None else lift(v)
                return z3.If(v < 0, z3.If(v + n < 0, 0, v + n), z3.If(v > n, n, v))
            lo, hi = z3.simplify(end(i.start, z3.IntVal(0))), z3.simplify(end(i.stop, n))
            return Seq(z3.simplify(z3.If(hi > lo, hi - lo, 0)), lambda k: o.elem(z3.simplify(lift(k) + lo)))
        if isinstance(o, Seq) and not isinstance(i, (slice, tuple)):
            return o.elem(lift(i))
        return super().getitem(o, i, *a)

    def __init__(self, session):
        Interp.__init__(self, session)
        K, I = self.contracts, self.intrinsics

        def inst(x, t, _o=I.get(builtins.isinstance)):
            if type(x) is GA:
                return any(q in (np.ndarray, object) for q in (t if isinstance(t, tuple) else (t,)))
            r = _o(x, t) if _o else NotImplemented
            return isinstance(x, t) if r is NotImplemented else r
        I[builtins.isinstance] = inst

        def asarray(ip, a, *x, **k):
            if x or k:
                raise Unsupported('conversion')
            if type(a) is Raw:
                return a.a
            if type(a) is GA:
                return a
            if type(a) in (list, tuple) and a and all(isinstance(v, float) for v in a):
                return GA(('numbers', tuple(a)), mk([len(a)]))
            if a is None:
                return GA('none', z3.Const('sh none', SH))
            raise Unsupported('conversion')
        K[np.asarray] = K[np.array] = asarray
        K[np.any] = lambda ip, a: a.any() if isinstance(a, Cmp) else (_ for _ in ()).throw(Unsupported('any'))

        def take(ip, a, i, axis=None):
            c = cur()
            if type(a) is not GA or not isinstance(axis, int):
                raise Unsupported('take')
            dims = self.dims
            c.prove('slice: the index lies inside the axis', z3.And(lift(i) >= 0, lift(i) < dims[axis]))
            c.prove('slice: the axis exists', z3.BoolVal(0 <= axis < len(dims)))
            return GA(('take', a.val, axis, z3.simplify(lift(i))), mk([d for k, d in enumerate(dims) if k != axis]))
        K[np.take] = take
        for n in ('ResidualPlotData', 'OptimizationHistoryData', 'FieldComparisonData', 'TimeSliceComparisonData', 'TermContribution', 'TermRelationshipData', 'ParityPlotData', 'RewardEvolutionData'):
            cls = need(KC, n)
            K[cls] = lambda ip, *a, _c=cls, **k: build(ip, _c, *a, **k)


def build(ip, cls, *a, **k):
    """the dataclass constructor: fields from arguments and defaults, then __post_init__"""
    o = cls.__new__(cls)
    if '__init__' in cls.__dict__ and cls.__dict__['__init__'].__code__.co_filename.endswith('.py'):
        ip.run_function(cls.__init__, [o, *a], k)
        return o
    fs = [f for f in dataclasses.fields(cls) if f.init]
    given = dict(zip([f.name for f in fs], a))
    given.update(k)
    for f in fs:
        if f.name in given:
            v = given.pop(f.name)
        elif f.default is not dataclasses.MISSING:
            v = f.default
        elif f.default_factory is not dataclasses.MISSING:
            v = f.default_factory()
        else:
            raise PyRaise(TypeError(f.name))
        setattr(o, f.name, v)
    if given:
        raise PyRaise(TypeError(str(given)))
    if hasattr(cls, '__post_init__'):
        ip.run_function(cls.__post_init__, [o], {})
    return o


def some(name, how):
    """a value the user may give"""
    r = Raw(name)
    return r if how else r.a, r.a


def same(x, a, flat=False):
    return z3.BoolVal(type(x) is GA and x.val == (('flat', a.val) if flat else a.val))


def outcome(ip, thunk, good, what):
    """built exactly when the shapes fit; wrong arrays raise"""
    c = cur()
    get = good if callable(good) else lambda: good
    try:
        r = thunk()
    except PyRaise as e:
        good = get()
        c.prove(f'{what}: wrong arrays raise ValueError (IndexError for arrays without dimension)', z3.BoolVal(type(e.exc) in (ValueError, IndexError)))
        c.prove(f'{what}: only arrays that do not fit are rejected', z3.Not(good))
        return None
    c.prove(f'{what}: arrays that do not fit are rejected', get())
    return r


def g_residual(ctx):
    cls = need(KC, 'ResidualPlotData')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        how = c.choose(2)
        meta = {'m': 1}
        a, A = some('actual', how)
        p, P = some('predicted', how)
        k, K = some('coordinates', how) if c.choose(2) else (None, None)
        fit = z3.BoolVal(True) if k is None else z3.And(RANK(K.sh) >= 1, RANK(A.sh) >= 1, DIM0(K.sh) == DIM0(A.sh))
        if c.choose(2):
            r, R = some('residuals', how)
            o = outcome(ip, lambda: ip.call(cls, a, p, r, k, meta), z3.And(A.sh == P.sh, A.sh == R.sh, fit), 'residual')
            v = R.val
        else:
            o = outcome(ip, lambda: ip.call(cls.from_actual_predicted, a, p, input_coordinates=k, metadata=meta), z3.And(A.sh == P.sh, fit), 'residual')
            v = ('sub', A.val, P.val)
        if o is None:
            return
        c.prove('residual: the arrays are the ones given, the residual is actual - predicted', z3.And(same(o.actual, A), same(o.predicted, P), z3.BoolVal(type(o.residuals) is GA and o.residuals.val == v)))
        c.prove('residual: coordinates and notes are kept', z3.And(z3.BoolVal(o.metadata is meta), z3.BoolVal(o.input_coordinates is None) if k is None else same(o.input_coordinates, K)))
    ctx.run(run)


def series(ctx, name, first, second, opt, what):
    cls = need(KC, name)

    def run():
        c = cur()
        ip = Ip(ctx.session)
        how = c.choose(2)
        arg, arr = {}, {}
        for f in (first, second):
            arg[f], arr[f] = some(f, how)
        good = arr[first].sh == arr[second].sh
        for f in opt:
            if c.choose(2):
                arg[f], arr[f] = some(f, how)
                good = z3.And(good, arr[f].sh == arr[first].sh)
        o = outcome(ip, lambda: ip.call(cls, **arg), good, what)
        if o is None:
            return
        for f in (first, second) + opt:
            v = getattr(o, f)
            c.prove(f'{what}: the series are the ones given', same(v, arr[f]) if f in arr else z3.BoolVal(v is None))
    ctx.run(run)


def g_history(ctx):
    series(ctx, 'OptimizationHistoryData', 'steps', 'objective', ('complexity', 'population_size', 'unique_modules'), 'history')


def g_reward(ctx):
    series(ctx, 'RewardEvolutionData', 'steps', 'best_reward', ('max_reward', 'mean_reward'), 'rewards')


def g_parity(ctx):
    cls = need(KC, 'ParityPlotData')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        how = c.choose(2)
        a, A = some('actual', how)
        p, P = some('predicted', how)
        if c.choose(2):
            r, R = some('residuals', how)
            o = outcome(ip, lambda: ip.call(cls, a, p, r), z3.And(SIZE(A.sh) == SIZE(P.sh), SIZE(A.sh) == SIZE(R.sh)), 'parity')
            v = ('flat', R.val)
        else:
            made = []
            old = GA.__sub__

            def sub(x, y):
                made.append(None)
                made[-1] = old(x, y)
                return made[-1]

            def good():
                if len(made) != 1:
                    raise Unsupported('other residual')
                return z3.BoolVal(False) if made[0] is None else z3.And(SIZE(A.sh) == SIZE(P.sh), SIZE(made[0].sh) == SIZE(A.sh))
            GA.__sub__ = sub
            try:
                o = outcome(ip, lambda: ip.call(cls.from_actual_predicted, a, p), good, 'parity')
            finally:
                GA.__sub__ = old
            v = ('flat', ('sub', A.val, P.val))
        if o is None:
            return
        c.prove('parity: the values are the ones given, flattened; the residual is actual - predicted', z3.And(same(o.actual_values, A, True), same(o.predicted_values, P, True), z3.BoolVal(type(o.residuals) is GA and o.residuals.val == v)))
    ctx.run(run)


def g_terms(ctx):
    cls, T = need(KC, 'TermRelationshipData'), need(KC, 'TermContribution')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        how = c.choose(2)
        l, L = some('lhs', how)
        n, w = z3.Int('terms'), z3.Int('w')
        c.assume(n >= 0)
        SZ = z3.Function('length of term', I_, I_)

        def term(k):
            return types.SimpleNamespace(values=GA(('term', str(k)), mk([SZ(lift(k))])))

        class Lc(LoopContract):
            modifies = ()

            def check(self, info, k, when):
                if when == 'consecution':
                    c.prove('terms: every term passed has the length of the left-hand side', SZ(self.k) == SIZE(L.sh))

            def havoc(self, info, k):
                self.k = k
                c.assume(z3.Implies(z3.And(w >= 0, w < k), SZ(w) == SIZE(L.sh)))
        ip.loop_template = lambda fr, node: Lc()
        def good():
            return z3.And(n >= 1, z3.Implies(z3.And(w >= 0, w < n), SZ(w) == SIZE(L.sh)))
        try:
            o = ip.call(cls, l, 'u_t', Seq(n, term))
        except PyRaise as e:
            c.prove('terms: wrong terms raise ValueError', z3.BoolVal(type(e.exc) is ValueError))
            bad = z3.Exists([w], z3.And(w >= 0, w < n, SZ(w) != SIZE(L.sh)))
            c.prove('terms: only wrong terms are rejected', z3.Or(n == 0, bad))
            return
        c.prove('terms: terms of another length are rejected', good())
        c.prove('terms: the left-hand side is the one given, flattened', same(o.lhs_values, L, True))
    ctx.run(run)

    def one():
        c = cur()
        ip = Ip(ctx.session)
        v, V = some('values', c.choose(2))
        o = ip.call(T, 'label', v, 2.5)
        c.prove('terms: the values are the ones given, flattened', z3.And(same(o.values, V, True), z3.BoolVal(o.label == 'label' and o.coefficient == 2.5)))
    ctx.run(one)


def coords(ip, m):
    """m coordinate arrays in one of the accepted forms: (argument, arrays)"""
    c = cur()
    how = c.choose(4 if m == 1 else 2)
    if how == 0:
        A = [Raw(f'x{k}').a for k in range(m)]
        return list(A), A
    if how == 1:
        A = [Raw(f'x{k}').a for k in range(m)]
        return tuple(A), A
    if how == 2:
        a = Raw('x0').a
        return a, [a]
    v = [0.0, .5, 2.0]
    return v, [GA(('numbers', tuple(v)), mk([3]))]


def field(ctx, name, extra):
    cls = need(KC, name)
    what = 'field' if extra == 'residual_field' else 'time slices'

    def run():
        c = cur()
        ip = Ip(ctx.session)
        m = 1 + c.choose(8)
        xs, X = coords(ip, m)
        how = c.choose(2)
        t, T = some('t', how)
        f, F = some('true', how)
        p, P = some('predicted', how)
        sizes = [SIZE(x.sh) for x in X]
        want = mk(sizes + [SIZE(T.sh)])
        good = z3.And(F.sh == P.sh, F.sh == want)
        arg = {'t_coords': t, 'true_field': f, 'predicted_field': p, 'metadata': {'m': 1}}
        key = 'spatial_coords' if c.choose(2) else 'x_coords'
        arg[key] = xs
        e = E = None
        if extra == 'slice_times' or c.choose(2):
            e, E = some('extra', how)
            arg[extra] = e
            if extra == 'residual_field':
                good = z3.And(good, E.sh == want)
            else:
                w = z3.Int('w')
                lo, hi = z3.Real('min t'), z3.Real('max t')
                inside = lambda i: z3.And(E.rv()(i) >= lo, E.rv()(i) <= hi)
        if extra == 'slice_times':
            try:
                o = ip.call(cls, **arg)
            except PyRaise as x:
                c.prove(f'{what}: wrong arrays raise ValueError', z3.BoolVal(type(x.exc) is ValueError))
                i = z3.Int('i')
                c.prove(f'{what}: only arrays that do not fit are rejected', z3.Or(z3.Not(good), SIZE(T.sh) == 0, z3.Exists([i], z3.And(i >= 0, i < SIZE(E.sh), z3.Not(inside(i))))))
                return
            c.prove(f'{what}: arrays that do not fit are rejected', good)
            c.prove(f'{what}: slice times outside the time range are rejected', z3.Implies(z3.And(w >= 0, w < SIZE(E.sh)), inside(w)))
            c.prove(f'{what}: the slice times are the ones given', same(o.slice_times, E))
        else:
            o = outcome(ip, lambda: ip.call(cls, **arg), good, what)
            if o is None:
                return
            c.prove(f'{what}: the residual is the one given, otherwise true - predicted', same(o.residual_field, E) if E is not None else z3.BoolVal(type(o.residual_field) is GA and o.residual_field.val == ('sub', F.val, P.val)))
        sc = o.spatial_coords
        c.prove(f'{what}: the coordinates are the ones given, in order', z3.And(z3.BoolVal(isinstance(sc, list) and len(sc) == m and all(type(a) is GA and a.val == b.val for a, b in zip(sc, X))), same(o.t_coords, T)))
        c.prove(f'{what}: the fields are the ones given', z3.And(same(o.true_field, F), same(o.predicted_field, P), z3.BoolVal(o.metadata == {'m': 1})))
        c.prove(f'{what}: number of space dimensions and first axis', z3.And(z3.BoolVal(ip.getattr(o, 'n_spatial_dims') == m), same(ip.getattr(o, 'x_coords'), X[0])))
    ctx.run(run)

    def missing():
        c = cur()
        ip = Ip(ctx.session)
        try:
            ip.call(cls, t_coords=Raw('t'), true_field=Raw('true'), predicted_field=Raw('predicted'))
        except PyRaise as e:
            c.prove(f'{what}: coordinates are required', z3.BoolVal(type(e.exc) is TypeError))
            return
        c.prove(f'{what}: coordinates are required', z3.BoolVal(False))
    ctx.run(missing)


def g_field(ctx): field(ctx, 'FieldComparisonData', 'residual_field')


def g_slices(ctx): field(ctx, 'TimeSliceComparisonData', 'slice_times')


def g_slice(ctx):
    """a field of more than two space dimensions is cut along whole axes at one index"""
    cls, fn = need(KC, 'FieldComparisonData'), need(KC, 'slice_3d_to_2d')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        m = 1 + c.choose(6)
        X = [GA(f'x{k}', mk([Int(f'n{k}').t])) for k in range(m)]
        n = [z3.Int(f'n{k}') for k in range(m)] + [z3.Int('nt')]
        T = GA('t', mk([n[-1]]))
        for d in n:
            c.assume(d >= 1)
        o = cls.__new__(cls)
        F = {k: GA(k, mk(n)) for k in ('true_field', 'predicted_field', 'residual_field')}
        o.spatial_coords, o.t_coords, o.metadata = list(X), T, {}
        for k, v in F.items():
            setattr(o, k, v)
        axis = c.choose(2 * m + 4) - m - 2
        given = c.choose(2)
        idx = Int('index') if given else None
        # ghost: what the slices must be
        dims, live, cuts = list(n), list(range(m)), []
        ip.dims = list(n)
        made = []
        oldh = ip.contracts[cls]

        def new(ip_, *a, **k):
            r = oldh(ip_, *a, **k)
            ip.dims = [SIZE(x.sh) for x in r.spatial_coords] + [SIZE(r.t_coords.sh)]
            return r
        ip.contracts[cls] = new
        r = ip.run_function(fn, [o], dict(slice_axis=axis, slice_index=idx))
        vals = {k: v.val for k, v in F.items()}
        first = True
        while len(live) > 2:
            q = len(live)
            a = (axis if axis >= 0 else q + axis) if first else q - 1
            a = max(0, min(a, q - 1))
            size = dims[a]
            i = size / 2
            if first and given:
                i = z3.If(idx.t < 0, 0, z3.If(idx.t > size - 1, size - 1, idx.t))
            vals = {k: ('take', v, a, i) for k, v in vals.items()}
            del live[a], dims[a]
            first = False
        c.prove('slice: the remaining coordinates belong to the remaining axes, in order', z3.BoolVal(len(r.spatial_coords) == len(live) and all(x is X[k] for x, k in zip(r.spatial_coords, live)) and r.t_coords is T))
        for k, v in vals.items():
            c.prove('slice: every field is cut along the same axis at the same index', eqv(getattr(r, k).val, v))
        if m <= 2:
            c.prove('slice: a field of at most two space dimensions is kept', z3.BoolVal(r is o))
    ctx.run(run)


def eqv(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return z3.BoolVal(a is b or (isinstance(a, str) and isinstance(b, str) and a == b))
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 4 and a[0] == b[0] == 'take' and a[2] == b[2]):
        return z3.BoolVal(False)
    return z3.And(eqv(a[1], b[1]), lift(a[3]) == b[3])


# ------------------------------------------------------------------ requests
class Adapter:
    def __init__(self, caps=True):
        if caps:
            self.capabilities = Caps()


class Caps:
    """any set of intents"""


class RIp(Interp):
    def __init__(self, session, kinds):
        Interp.__init__(self, session)
        self.kinds = kinds
        old = self.intrinsics.get(builtins.sorted)
        self.intrinsics[builtins.sorted] = lambda x, **k: ['sorted', x] if isinstance(x, Caps) else sorted(x, **k)
        for f in (builtins.tuple, builtins.list):
            o = self.intrinsics.get(f)
            self.intrinsics[f] = lambda *a, _o=o, _f=f: ('all', a[0]) if a and isinstance(a[0], Caps) else (_o(*a) if _o else _f(*a))
        self.contracts[builtins.print] = lambda ip_, *a, **k: None

    def contains(self, o, x):
        if isinstance(o, Caps):
            if x is not self.kinds:
                raise Unsupported('other intent')
            return wrap(z3.Bool('supported'))
        return super().contains(o, x)


class CM:
    def __init__(self, log): self.log = log

    def __enter__(self): self.log.append('enter')

    def __exit__(self, *a): self.log.append('exit')


def g_request(ctx):
    render, Req, Res = need(KO, 'render'), need(KO, 'VizRequest'), need(KO, 'VizResult')
    core = need(KO)

    def run():
        c = cur()
        kind = 'the intent'
        ip = RIp(ctx.session, kind)
        target, opts = object(), {'style': {'font.size': 3}} if c.choose(2) else {}
        req = Req(kind, target, opts)
        ad = [None, Adapter(), Adapter(False)][c.choose(3)]
        log, out = [], object()

        def get(ip_, t):
            c.prove('request: the adapter is looked up for the model asked for', z3.BoolVal(t is target))
            return ad
        ip.contracts[need(RG, 'get_adapter')] = get
        conf = need('kd.viz._style', '_CONFIG')
        cfg = type(conf)(save_dir='dir', backend=[None, 'agg'][c.choose(2)])
        ip.contracts[need('kd.viz._style', 'get_config')] = lambda ip_: cfg
        asked = [None, 'matplotlib', 'svg', 'agg'][c.choose(4)]

        def conf_(ip_, **k):
            if set(k) != {'backend'}:
                raise Unsupported('other settings')
            cfg.backend = k['backend']
            return cfg
        ip.contracts[need('kd.viz._style', 'configure')] = conf_
        ip.contracts[need('kd.viz._style', 'style_context')] = lambda ip_, s=None: CM(log) if s is opts.get('style') else CM(log)

        def call(r, x):
            log.append(('render', r, x))
            return out
        if ad is not None:
            ad.render = call
        was = cfg.backend
        res = ip.run_function(render, [req], {} if asked is None else {'backend': asked})
        done = [x for x in log if isinstance(x, tuple)]
        sup = z3.And(z3.BoolVal(ad is not None and hasattr(ad, 'capabilities')), z3.Bool('supported'))
        if done:
            c.prove('request: a plot is only made when the adapter supports the intent', sup)
            x = done[0][2]
            c.prove('request: the adapter gets this request with its own options and the current configuration, once', z3.BoolVal(len(done) == 1 and done[0][1] is req and x.options == opts and x.config is cfg and res is out))
            c.prove('request: the backend asked for is used', z3.BoolVal(x.backend == (asked if asked not in (None, 'matplotlib') else (was or 'matplotlib'))))
            c.prove('request: plots are made with the style of the request', z3.BoolVal(log[0] == 'enter' and log[-1] == 'exit'))
        else:
            c.prove('request: a supported intent is plotted', z3.Not(sup))
            c.prove('request: an unsupported intent gives a warning without a plot', z3.BoolVal(isinstance(res, Res) and res.intent == kind and len(res.warnings) >= 1 and res.figure is None and res.paths == []))
    ctx.run(run)

    def caps():
        c = cur()
        ip = RIp(ctx.session, 'k')
        ad = [None, Adapter()][c.choose(2)]
        target = object()
        ip.contracts[need(RG, 'get_adapter')] = lambda ip_, t: ad if t is target else None
        r = ip.run_function(need(KO, 'list_capabilities'), [target], {})
        c.prove('request: the intents listed are those of the adapter of the model', z3.BoolVal(list(r) == [] if ad is None else r == ('all', ad.capabilities) or r is ad.capabilities or r == ['sorted', ad.capabilities]))
    ctx.run(caps)


CALLS = {
    'plot_training_curve': ('training_curve', {}, {}),
    'plot_validation_curve': ('validation_curve', {}, {}),
    'plot_search_evolution': ('search_evolution', {}, {}),
    'plot_optimization': ('optimization', {}, {}),
    'render_equation': ('equation', {}, {}),
    'plot_time_slices': ('time_slices', {'t_coords': 't_coords', 'true_field': 'true_field', 'predicted_field': 'predicted_field'}, {'x_coords': 'x_coords', 'spatial_coords': 'spatial_coords', 'slice_times': 'slice_times'}),
    'plot_residuals': ('residual', {'actual': 'actual', 'predicted': 'predicted'}, {'coordinates': 'coordinates'}),
    'plot_field_comparison': ('field_comparison', {'t_coords': 't_coords', 'true_field': 'true_field', 'predicted_field': 'predicted_field'}, {'x_coords': 'x_coords', 'spatial_coords': 'spatial_coords', 'residual_field': 'residual_field'}),
    'plot_derivative_relationships': ('derivative_relationships', {}, {'top_n_terms': 'top_n_terms'}),
    'plot_parity': ('parity', {}, {'title': 'title'}),
}


def g_api(ctx):
    render, Res = need(KO, 'render'), need(KO, 'VizResult')

    def run():
        c = cur()
        name = list(CALLS)[c.choose(len(CALLS))]
        kind, req, opt = CALLS[name]
        ip = RIp(ctx.session, kind)
        model, arg, want = object(), {}, {}
        for k in req:
            arg[k] = want[k] = object()
        for k in opt:
            if c.choose(2):
                arg[k] = want[k] = object()
        if c.choose(2):
            arg['another option'] = want['another option'] = object()
        info = c.choose(3)
        if info < 2:
            arg['show_info'] = bool(info)
        res = Res(kind, **[{}, {'warnings': ['w']}, {'paths': ['p']}, {'figure': 1}][c.choose(4)])
        got = []

        def rend(ip_, r, *a, **k):
            got.append(r)
            return res
        ip.contracts[render] = rend
        out = ip.run_function(need(API, name), [model], arg)
        if name == 'plot_derivative_relationships' and 'top_n_terms' not in arg:
            want['top_n_terms'] = 4
        r = got[0] if got else None
        c.prove('plot functions: one request for the intent of the function and the model given', z3.BoolVal(len(got) == 1 and r.kind == kind and r.target is model))
        c.prove('plot functions: exactly the options given are passed on', z3.BoolVal(r is not None and set(r.options) == set(want) and all(r.options[k] is v or (isinstance(v, int) and r.options[k] == v) for k, v in want.items())))
        c.prove('plot functions: the result of the request is returned', z3.BoolVal(out is res))
    ctx.run(run)


def g_adapters(ctx):
    """each shipped adapter serves each intent it lists with the routine of that intent"""
    mods = {'DLGAVizAdapter': 'dlga', 'DiscoverVizAdapter': 'discover', 'SGAVizAdapter': 'sga', 'PySRVizAdapter': 'pysr'}

    def run():
        c = cur()
        n = list(mods)[c.choose(4)]
        cls = need('kd.viz._adapters.' + mods[n], n)
        ad = cls()
        kinds = sorted(ad.capabilities) + ['no such intent', 'render', '']
        kind = kinds[c.choose(len(kinds))]
        listed = kind in ad.capabilities
        ip = RIp(ctx.session, kind)
        req, cx, out = types.SimpleNamespace(kind=kind, target=object(), options={}), object(), object()
        got = []
        for k, f in vars(cls).items():
            if isinstance(f, types.FunctionType) and k not in ('render', '__init__'):
                ip.contracts[f] = lambda ip_, *a, _k=k, **kw: (got.append((_k, a, kw)), out)[1]
        if listed:
            if '_' + kind not in vars(cls):
                raise Unsupported('routine of the intent')
        r = ip.run_function(cls.render, [ad, req, cx], {})
        if listed:
            c.prove('adapters: each intent listed is served by its own routine with the model asked for', z3.BoolVal(len(got) == 1 and got[0] == ('_' + kind, (ad, req.target, cx), {}) and r is out))
        else:
            c.prove('adapters: other intents give a warning without a plot', z3.BoolVal(not got and r.intent == kind and len(r.warnings) >= 1 and not r.paths and r.figure is None))
    ctx.run(run)


# ------------------------------------------------------------------ the registry
class Cls:
    """class number j of the resolution order of the model (0: the model itself), or a class outside (j >= n)"""
    __class__ = property(lambda self: type)

    def __init__(self, w, j): self.w, self.j = w, z3.simplify(lift(j))

    @property
    def __name__(self): return Nm(self.w, self.w.NM(self.j))

    @property
    def __mro__(self):
        w = self.w
        cur().prove('registry: the resolution order of the model is walked', self.j == 0)
        return Seq(w.n, lambda k: Cls(w, k))
    __hash__ = object.__hash__


class Nm:
    def __init__(self, w, q): self.w, self.q = w, z3.simplify(lift(q))


class Ad:
    """adapter number a"""

    def __init__(self, a): self.a = a


class Reg:
    """the registry: class -> adapter (0: none)"""

    def __init__(self, w): self.w = w


class Lazy:
    """the lazy registry: names"""

    def __init__(self, w): self.w = w


class GIp(RIp):
    def getattr(self, o, name):
        w = getattr(o, 'w', None)
        c = cur()
        if isinstance(o, Reg):
            if name == 'get':
                return lambda k, d=None: self.look(o, k, d)
            if name == 'items':
                return lambda: Seq(w.m, lambda i: (Cls(w, w.AT(lift(i))), Ad(w.reg[w.AT(lift(i))])))
            if name == 'pop':
                raise Unsupported('removal')
        if isinstance(o, Lazy):
            if name == 'pop':
                def pop(k, *d):
                    if c.decide(w.lazy[k.q]):
                        w.lazy = z3.Store(w.lazy, k.q, z3.BoolVal(False))
                        return lambda: self.resolve(w, k.q)
                    if d:
                        return d[0]
                    raise PyRaise(KeyError('name'))
                return pop
            if name == 'get':
                return lambda k, d=None: (lambda: self.resolve(w, k.q)) if c.decide(w.lazy[k.q]) else d
        if isinstance(o, (Reg, Lazy)):
            raise Unsupported(name)
        if isinstance(o, Cls) and name in ('__name__', '__mro__'):
            return getattr(o, name)
        return super().getattr(o, name)

    def resolve(self, w, q):
        c = cur()
        j, a = w.RC(q), w.RA(q)
        if c.decide(z3.And(j >= 0, a > 0)):
            c.assume_axiom(w.NM(j) == q)
            return Cls(w, j), Ad(a)
        return None, None

    def look(self, o, k, d):
        w, c = o.w, cur()
        if not isinstance(k, Cls):
            raise Unsupported('other class')
        if c.decide(w.reg[k.j] > 0):
            return Ad(w.reg[k.j])
        return d

    def contains(self, o, x):
        if isinstance(o, Lazy):
            return wrap(o.w.lazy[x.q])
        if isinstance(o, Reg):
            return wrap(o.w.reg[x.j] > 0)
        return super().contains(o, x)

    def getitem(self, o, i, *a):
        if isinstance(o, Reg):
            cur().prove('registry: a class read is registered', o.w.reg[i.j] > 0)
            return Ad(o.w.reg[i.j])
        return super().getitem(o, i, *a)

    def setitem(self, o, i, v, *a):
        if isinstance(o, Reg):
            if not isinstance(v, Ad):
                raise Unsupported('other adapter')
            o.w.reg = z3.Store(o.w.reg, i.j, lift(v.a))
            return
        return super().setitem(o, i, v, *a)


def g_registry(ctx):
    rg = need(RG)
    get = need(RG, 'get_adapter')

    def run():
        c = cur()
        ip = GIp(ctx.session, 'k')
        w = types.SimpleNamespace(n=z3.Int('classes'), m=z3.Int('registered'))
        c.assume(z3.And(w.n >= 1, w.m >= 0))
        w.NM, w.RC, w.RA = z3.Function('name', I_, I_), z3.Function('resolved_class', I_, I_), z3.Function('resolved_adapter', I_, I_)
        w.AT = z3.Function('registered_class', I_, I_)
        SUB = z3.Function('subclass', I_, B_)
        reg0, lazy0 = z3.Array('registry', I_, I_), z3.Array('lazy', I_, B_)
        w.reg, w.lazy = reg0, lazy0
        v = z3.Int('v')
        # adapters that a class has: registered for it, or lazily registered under its name
        lz = lambda j: z3.And(j >= 0, lazy0[w.NM(j)], w.RC(w.NM(j)) == j, w.RA(w.NM(j)) > 0)
        avail = lambda j: z3.Or(reg0[j] > 0, lz(j))
        owns = lambda j, a: z3.And(a > 0, z3.Or(a == reg0[j], z3.And(lz(j), a == w.RA(w.NM(j)))))

        def state(j):
            """what holds of class j in the current registry"""
            q = w.NM(j)
            return z3.And(z3.Implies(w.reg[j] > 0, owns(j, w.reg[j])), z3.Implies(reg0[j] > 0, w.reg[j] > 0), z3.Implies(avail(j), z3.Or(w.reg[j] > 0, w.lazy[q])), z3.Implies(w.lazy[q], lazy0[q]))
        spec = types.SimpleNamespace(k=None)

        class L(LoopContract):
            modifies = ()

            def check(self, info, k, when):
                if when == 'initiation':
                    c.prove('registry: nothing is lost before the walk', state(v))
                    return
                c.prove('registry: a class passed has no adapter', z3.Not(avail(self.k)))
                c.prove('registry: no registration is lost on the way', state(v))

            def havoc(self, info, k):
                self.k = spec.k = k
                w.reg, w.lazy = z3.Const(fresh_name('registry'), reg0.sort()), z3.Const(fresh_name('lazy'), lazy0.sort())
                spec.reg, spec.lazy = w.reg, w.lazy
                j = z3.Int(fresh_name('j'))
                c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(avail(j)))))
                for x in (k, v, w.RC(w.NM(k))):
                    c.assume(state(x))

        class V(LoopContract):
            """virtual subclasses: any adapter of a class the model is a subclass of"""
            modifies = ()

            def check(self, info, k, when): pass

            def havoc(self, info, k): spec.virtual = True

        def tmpl(fr, node):
            sq = seq_of(ip.eval(node.iter, fr))
            if sq is None:
                return None
            e = sq.elem(z3.IntVal(0))
            return V() if isinstance(e, tuple) else L()
        ip.loop_template = tmpl
        issub = lambda a, b: wrap(SUB(b.j)) if isinstance(a, Cls) and isinstance(b, Cls) and z3.is_true(z3.simplify(a.j == 0)) else NotImplemented
        ip.intrinsics[builtins.issubclass] = issub
        model = Cls(w, 0)
        form = c.choose(3)
        inst = object()
        oldt = ip.intrinsics.get(builtins.type)
        ip.intrinsics[builtins.type] = lambda *a: model if len(a) == 1 and a[0] is inst else (oldt(*a) if oldt else type(*a))
        save = rg._ADAPTERS, rg._LAZY_ADAPTERS
        need(RG, '_ADAPTERS'), need(RG, '_LAZY_ADAPTERS')
        rg._ADAPTERS, rg._LAZY_ADAPTERS = Reg(w), Lazy(w)
        try:
            r = ip.run_function(get, [[inst, model, None][form]], {})
        finally:
            rg._ADAPTERS, rg._LAZY_ADAPTERS = save
        if form == 2:
            c.prove('registry: nothing is plotted for no model', z3.BoolVal(r is None))
            return
        j = z3.Int('j')
        if getattr(spec, 'virtual', False):
            c.prove('registry: other classes are only used when no class of the resolution order has an adapter', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.n), z3.Not(avail(j)))))
            if isinstance(r, Ad):
                c.prove('registry: such a class is one the model is a subclass of', z3.Exists([j], z3.And(SUB(j), w.reg[j] == r.a)))
            return
        if not isinstance(r, Ad):
            raise Unsupported('other result')
        # the nearest class of the resolution order which has an adapter serves the request
        k = spec.k if spec.k is not None else z3.IntVal(0)
        c.prove('registry: the adapter belongs to the nearest class of the resolution order that has one', z3.And(k >= 0, k < w.n, owns(k, lift(r.a)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(avail(j))))))
    ctx.run(run)


def g_register(ctx):
    """registration changes the entry of its own class (or name) only"""
    rg = need(RG)

    def run():
        c = cur()
        ip = GIp(ctx.session, 'k')
        w = types.SimpleNamespace(n=z3.Int('classes'))
        w.NM, w.RC, w.RA = z3.Function('name', I_, I_), z3.Function('resolved_class', I_, I_), z3.Function('resolved_adapter', I_, I_)
        reg0, lazy0 = z3.Array('registry', I_, I_), z3.Array('lazy', I_, B_)
        w.reg, w.lazy = reg0, lazy0
        a, j, v = Int('adapter'), z3.Int('j'), z3.Int('v')
        c.assume(a.t > 0)
        save = rg._ADAPTERS, rg._LAZY_ADAPTERS
        rg._ADAPTERS, rg._LAZY_ADAPTERS = Reg(w), Lazy(w)
        try:
            if c.choose(2):
                ip.run_function(need(RG, 'register_adapter'), [Cls(w, j), Ad(a.t)], {})
                c.prove('registration: the adapter is registered for its class, nothing else changes', z3.And(w.reg[j] == a.t, z3.Implies(v != j, w.reg[v] == reg0[v]), z3.BoolVal(w.lazy is lazy0)))
            else:
                q = z3.Int('q')
                ip.run_function(need(RG, '_resolve_lazy'), [Nm(w, q)], {})
                hit = z3.And(lazy0[q], w.RC(q) >= 0, w.RA(q) > 0)
                c.prove('registration: a lazy adapter becomes the one of its class, nothing else changes', z3.And(z3.If(z3.And(hit, v == w.RC(q)), w.reg[v] == w.RA(q), w.reg[v] == reg0[v]), z3.If(v == q, z3.Not(w.lazy[v]), w.lazy[v] == lazy0[v])))
        finally:
            rg._ADAPTERS, rg._LAZY_ADAPTERS = save
    ctx.run(run)


def groups():
    return [('residuals', g_residual), ('optimisation history', g_history), ('reward history', g_reward), ('parity', g_parity), ('terms', g_terms), ('field comparison', g_field), ('time slices', g_slices), ('slicing', g_slice),
            ('requests', g_request), ('plot functions', g_api), ('adapters', g_adapters), ('registry', g_registry), ('registration', g_register)]


# ------------------------------------------------------------------ bounded: real payloads, registries and requests
def give(r, a):
    return a.tolist() if r.random() < .3 else a


def rt_payload(seed):
    r, g = random.Random(seed), np.random.default_rng(seed)
    sh = tuple(r.randint(1, 4) for _ in range(r.randint(1, 3)))

    def arr(p=.25):
        if r.random() > p:
            return g.normal(size=sh)
        return g.normal(size=r.choice([sh[::-1], sh + (1,), (1,) + sh, sh[:-1] or (2,), tuple(d + 1 for d in sh), (int(np.prod(sh)),)]))
    k = r.choice(['residual', 'from', 'history', 'reward', 'parity', 'pfrom', 'terms', 'field', 'slices'])
    opt = {}
    try:
        if k in ('residual', 'from'):
            cls = need(KC, 'ResidualPlotData')
            a, p, q = arr(), arr(), arr()
            co = g.normal(size=(r.choice([a.shape[0], a.shape[0], a.shape[0] + 1]), 2)) if r.random() < .4 else None
            good = a.shape == p.shape and (co is None or co.shape[0] == a.shape[0])
            if k == 'residual':
                good = good and q.shape == a.shape
                o = cls(give(r, a), give(r, p), give(r, q), co)
            else:
                o = cls.from_actual_predicted(give(r, a), give(r, p), input_coordinates=co)
                q = a - p if good else q
            pairs = [(o.actual, a), (o.predicted, p), (o.residuals, q)]
        elif k in ('history', 'reward'):
            cls = need(KC, 'OptimizationHistoryData' if k == 'history' else 'RewardEvolutionData')
            names = ('steps', 'objective', 'complexity', 'population_size', 'unique_modules') if k == 'history' else ('steps', 'best_reward', 'max_reward', 'mean_reward')
            v = {n: arr(.1) for j, n in enumerate(names) if j < 2 or r.random() < .5}
            good = len({x.shape for x in v.values()}) == 1
            o = cls(**{n: give(r, x) for n, x in v.items()})
            pairs = [(getattr(o, n), x) for n, x in v.items()]
        elif k in ('parity', 'pfrom'):
            cls = need(KC, 'ParityPlotData')
            a, p, q = arr(), arr(), arr()
            if k == 'parity':
                good = a.size == p.size == q.size
                o = cls(give(r, a), give(r, p), give(r, q))
            else:
                try:
                    q = a - p
                    good = a.size == p.size == q.size
                except ValueError:
                    good = False
                o = cls.from_actual_predicted(give(r, a), give(r, p))
            pairs = [(o.actual_values, a.reshape(-1)), (o.predicted_values, p.reshape(-1)), (o.residuals, q.reshape(-1))]
        elif k == 'terms':
            cls, T = need(KC, 'TermRelationshipData'), need(KC, 'TermContribution')
            a = arr(0)
            ts = [arr(.15) for _ in range(r.choice([0, 1, 2, 3, 7]))]
            good = bool(ts) and all(t.size == a.size for t in ts)
            o = cls(give(r, a), 'u_t', [T(f't{j}', give(r, t), 1.0) for j, t in enumerate(ts)])
            pairs = [(o.lhs_values, a.reshape(-1))] + [(t.values, x.reshape(-1)) for t, x in zip(o.terms, ts)]
        else:
            m = r.randint(1, 4)
            xs = [g.normal(size=r.randint(1, 4)) for _ in range(m)]
            t = np.sort(g.normal(size=r.randint(1, 4)))
            full = tuple(len(x) for x in xs) + (len(t),)

            def fld():
                return g.normal(size=full if r.random() < .85 else r.choice([full[::-1], full[1:], full + (1,), tuple(d + 1 for d in full)]))
            a, p, q = fld(), fld(), fld()
            if r.random() < .3:
                p = np.zeros_like(a)
            good = a.shape == p.shape == full
            arg = {r.choice(['spatial_coords', 'x_coords']): xs[0] if m == 1 and r.random() < .5 else r.choice([list, tuple])(xs), 't_coords': give(r, t), 'true_field': a, 'predicted_field': p}
            if k == 'field':
                if r.random() < .5:
                    arg['residual_field'] = q
                    good = good and q.shape == full
                else:
                    q = a - p if good else q
                o = need(KC, 'FieldComparisonData')(**arg)
                pairs = [(o.residual_field, q)]
            else:
                st = np.array([r.uniform(t.min(), t.max()) if r.random() < .9 else t.max() + .1 * r.choice([1, -100]) for _ in range(r.randint(1, 3))])
                good = good and bool(((st >= t.min()) & (st <= t.max())).all())
                o = need(KC, 'TimeSliceComparisonData')(slice_times=give(r, st), **arg)
                pairs = [(o.slice_times, st)]
            pairs += [(o.true_field, a), (o.predicted_field, p), (o.t_coords, t)] + list(zip(o.spatial_coords, xs))
            check(len(o.spatial_coords) == m == o.n_spatial_dims, 'coordinates are lost', 'coords')
    except (ValueError, IndexError) as e:
        check(not good, f'{k}: good arrays are rejected: {e}', k + ' rejected')
        return
    check(good, f'{k}: arrays that do not fit are accepted', k + ' accepted')
    for x, y in pairs:
        check(np.shape(x) == np.shape(y) and np.array_equal(x, y), f'{k}: the payload holds other values', k + ' values')


def rt_slice(seed):
    r, g = random.Random(seed), np.random.default_rng(seed)
    m = r.randint(1, 5)
    n = [r.randint(1, 4) for _ in range(m + 1)]
    xs = [g.normal(size=k) for k in n[:-1]]
    F, P, Q = g.normal(size=n), g.normal(size=n), g.normal(size=n)
    o = need(KC, 'FieldComparisonData')(spatial_coords=xs, t_coords=np.arange(n[-1]), true_field=F, predicted_field=P, residual_field=Q)
    ax, ix = r.randint(-m - 2, m + 2), r.choice([None, r.randint(-3, 7)])
    out = need(KC, 'slice_3d_to_2d')(o, ax, ix)
    first = True
    while len(xs) > 2:
        a, i = (ax, ix) if first else (-1, None)
        a = a + len(xs) if a < 0 else a
        a = max(0, min(a, len(xs) - 1))
        i = len(xs[a]) // 2 if i is None else i
        i = max(0, min(i, len(xs[a]) - 1))
        F, P, Q = (np.take(v, i, axis=a) for v in (F, P, Q))
        xs = xs[:a] + xs[a + 1:]
        first = False
    check(len(out.spatial_coords) == len(xs) and all(np.array_equal(a, b) for a, b in zip(out.spatial_coords, xs)), 'other coordinates remain', 'coords')
    check(np.array_equal(out.true_field, F) and np.array_equal(out.predicted_field, P) and np.array_equal(out.residual_field, Q), f'slice at axis {ax} index {ix} gives another field', 'field')


class Ad1:
    def __init__(self, tag, caps, log):
        self.tag, self.capabilities, self.log = tag, caps, log

    def render(self, request, ctx):
        self.log.append((self.tag, request, ctx))
        return ('plotted by', self.tag)


def rt_dispatch(seed):
    r = random.Random(seed)
    rg, core = need(RG), need(KO)
    save = dict(rg._ADAPTERS), dict(rg._LAZY_ADAPTERS)
    log = []
    try:
        rg.clear_registry()
        classes = []
        for k in range(r.randint(1, 6)):
            bases = tuple(r.sample(classes, min(len(classes), r.choice([0, 1, 1, 2]))))
            name = r.choice(classes).__name__ if classes and r.random() < .1 else f'M{k}'
            try:
                classes.append(type(name, bases or (object,), {}))
            except TypeError:
                classes.append(type(name, bases[:1] or (object,), {}))
        have, order = {}, list(range(len(classes)))
        r.shuffle(order)
        kinds = ['a', 'b', 'c']
        for k in order:
            x = r.random()
            if x < .4:
                have[classes[k]] = Ad1(k, set(r.sample(kinds, r.randint(0, 3))), log)
                rg.register_adapter(classes[k], have[classes[k]])
            elif x < .6 and sum(c.__name__ == classes[k].__name__ for c in classes) == 1:
                a = Ad1(k, list(r.sample(kinds, r.randint(1, 3))), log)
                ok = r.random() < .8
                if ok:
                    have[classes[k]] = a
                rg.register_lazy_adapter(classes[k].__name__, lambda c=classes[k], a=a, ok=ok: (c, a) if ok else (None, None))
        for _ in range(6):
            M = r.choice(classes)
            want = next((have[c] for c in M.__mro__ if c in have), None)
            target, kind = M(), r.choice(kinds + ['d'])
            log.clear()
            if r.random() < .3:
                got = rg.get_adapter(r.choice([target, M]))
                check(got is want, f'{[c.__name__ for c in M.__mro__]} is served by {getattr(got, "tag", None)} expected {getattr(want, "tag", None)}', 'adapter')
                check(set(core.list_capabilities(target)) == set(want.capabilities if want else ()), 'other intents are listed', 'list')
                continue
            req = core.VizRequest(kind, target, {'q': 1})
            res = core.render(req)
            if want is not None and kind in want.capabilities:
                check(len(log) == 1 and log[0][0] == want.tag and log[0][1] is req and log[0][2].options == req.options and res == ('plotted by', want.tag), f'{[c.__name__ for c in M.__mro__]}, intent {kind}: {log} {res}', 'plot')
            else:
                check(not log and res.intent == kind and res.warnings and not res.has_content, f'intent {kind} without support: {log} {res}', 'warning')
    finally:
        rg.clear_registry()
        rg._ADAPTERS.update(save[0])
        rg._LAZY_ADAPTERS.update(save[1])


def rt_api(seed):
    r = random.Random(seed)
    rg, api = need(RG), need(API)
    log = []
    name = r.choice(sorted(CALLS))
    kind, req, opt = CALLS[name]
    M = type('M', (), {})
    m = M()
    rg.register_adapter(M, Ad1('spy', {v[0] for v in CALLS.values()}, log))
    arg = {k: object() for k in list(req) + [k for k in opt if r.random() < .5] + [k for k in ('own', 'dpi') if r.random() < .5]}
    try:
        res = getattr(api, name)(m, show_info=False, **arg)
    finally:
        rg.unregister_adapter(M)
    want = dict(arg)
    if name == 'plot_derivative_relationships':
        want.setdefault('top_n_terms', 4)
    check(len(log) == 1 and log[0][1].kind == kind and log[0][1].target is m and res == ('plotted by', 'spy'), f'{name}: {log}', 'request')
    check(dict(log[0][2].options) == want and dict(log[0][1].options) == want, f'{name} with {sorted(arg)} passes {sorted(log[0][2].options)}', 'options')


def rt_shipped(seed):
    """models without data: every intent gives its own warning, no exception"""
    import tempfile
    r = random.Random(seed)
    rg, core, api = need(RG), need(KO), need(API)
    n = r.choice(['DLGAVizAdapter', 'DiscoverVizAdapter', 'SGAVizAdapter', 'PySRVizAdapter'])
    import kd.viz._adapters as ads
    ad = getattr(ads, n)()
    M = type('M', (), {})
    rg.register_adapter(M, ad)
    try:
        with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
            name = r.choice(sorted(CALLS))
            kind, req, opt = CALLS[name]
            arg = {k: np.zeros((2, 3)) for k in req}
            arg['output_dir'] = d
            bare = {k: None for k in req}
            res = getattr(api, name)(M(), **{**arg, **bare})
            check(res.intent == kind and res.warnings and not res.paths, f'{n}: {name} without data gives {res}', 'bare')
            if kind not in ad.capabilities:
                check('support' in ' '.join(res.warnings), f'{n}: {name} gives {res}', 'support')
    finally:
        rg.unregister_adapter(M)


def cases(tier, rng):
    k = 0
    while True:
        k += 1
        for j, f in enumerate((rt_payload, rt_payload, rt_slice, rt_dispatch, rt_api, rt_shipped)):
            yield C(f), {'seed': rng.getrandbits(31)}, (j, k)
