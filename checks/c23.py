"""C23: gridded adapters keep values, axes and coordinates in correspondence."""
import builtins, types
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.report import need, check, Fail
from .c12 import C
from .c21 import Ip, coord, grid, same_array
from .c22 import prod, where

ID = 'C23'
LEVEL = 'proof'
BUDGET = {'quick': 25, 'thorough': 600}
RULE = 'random datasets of one to three spatial axes in every axis order, every evolution axis, with parameter fields and different target names, valid or broken in one way, in several units of length and time; non-trivial when the seed is new'
AD = 'kd.model.discover.adapter'
FD = 'kd.model.discover.task.pde.utils_fd'
ASSUMPTIONS = ['FiniteDiff(v, d) is the first derivative of the sequence v with spacing d (checked by C10)',
               'np.isfinite/np.allclose/np.isclose decide what their names say (their tolerances are covered by the bounded part)']
AXES = [['x', 't'], ['t', 'x', 'y'], ['x', 'y', 't'], ['x', 't', 'y'], ['y', 'x', 't'], ['t', 'z', 'x', 'y'], ['x', 'y', 'z', 't'], ['p', 'q', 'r', 's', 't']]


class Flags:
    """which arrays are finite / uniform: free predicates of the data"""

    def __init__(self, ip):
        self.names = {}
        ip.contracts[np.isfinite] = self.finite
        ip.contracts[np.allclose] = self.close
        ip.contracts[np.isclose] = self.isclose
        ip.contracts[np.any] = self.any
        for g in (np.max, np.amax, np.min, np.amin):
            ip.contracts[g] = lambda ip_, a, *r, _g=g, **k: Real(fresh_name('extreme')) if self.space(a) else ip_.intrinsic(_g)(a, *r, **k)

    def name(self, a):
        t = z3.simplify(a.term(*[z3.IntVal(0)] * a.ndim))
        return t.decl().name() if z3.is_app(t) else None

    def b(self, what):
        return self.names.setdefault(what, z3.Bool(what))

    def finite(self, ip, a):
        if not isinstance(a, SArr):
            raise Unsupported('finiteness of another value')
        return SArr.const(a._shape, self.b('finite ' + str(self.name(a))), 'bool')

    def space(self, a):
        """coordinate whose steps the array is computed from"""
        if not isinstance(a, SArr) or a.ndim != 1:
            return None
        todo, seen = [a.term(z3.Int('kq'))], set()
        while todo:
            t = todo.pop()
            n = t.decl().name() if z3.is_app(t) else ''
            if n.startswith('c_') and t.num_args():
                seen.add(n[2:])
            todo.extend(t.children())
        return seen.pop() if len(seen) == 1 else None

    def any(self, ip, a, *r, **k):
        n = self.space(a)
        if n is None or r or k:
            return ip.intrinsic(np.any)(a, *r, **k)
        return wrap(self.b('flat ' + n))

    def steps(self, a):
        """coordinate whose steps the array holds"""
        k = z3.Int('kq')
        t = z3.simplify(a.term(k))
        for n in [x for x in 'xyztpqrs']:
            f = z3.Function('c_' + n, z3.IntSort(), z3.RealSort())
            if t.eq(z3.simplify(f(k + 1) - f(k))):
                return n
        return None

    def close(self, ip, a, b, **k):
        n = self.steps(a) if isinstance(a, SArr) else None
        f = z3.Function(f'c_{n}', z3.IntSort(), z3.RealSort())
        if n is None or not (isinstance(b, Sym) and z3.simplify(b.t).eq(z3.simplify(f(1) - f(0)))):
            raise Unsupported('closeness of other values')
        return wrap(self.b('uniform ' + n))

    def isclose(self, ip, a, b, **k):
        n = self.steps(a) if isinstance(a, SArr) else None
        if n is None or b != 0:
            raise Unsupported('closeness of other values')
        return SArr.const(a._shape, self.b('flat ' + n), 'bool')


def derivative(c, c_steps):
    """contract of FiniteDiff on a line of the field: the derivative along the axis the line runs along"""
    def h(ip, v, d, *a):
        if a or not (isinstance(v, SArr) and v.ndim == 1):
            raise Unsupported('finite difference of another form')
        k = z3.Int(fresh_name('kq'))
        w = where(v.term(k), 'f_u')
        if w is None:
            raise Unsupported('finite difference of another array')
        ax = [i for i, t in enumerate(w) if t.eq(k)]
        if len(ax) != 1:
            raise Unsupported('finite difference along several axes')
        D = z3.Function(f'der{ax[0]}', *([z3.IntSort()] * len(w)), z3.RealSort(), z3.RealSort())
        p = ax[0]
        n = lift(v._shape[0])
        rest = [x for i, x in enumerate(w) if i != p]
        dt = lift(d)

        def get(i):
            return D(*[i if q == p else x for q, x in enumerate(w)], dt)
        c.lines.append((p, n))
        return SArr.make([n], 'real', get)
    return h


def setup(ctx):
    c = cur()
    c.flat_ghost = True
    c.lines = []
    ip = Ip(ctx.session)
    fl = Flags(ip)
    ip.contracts[np.prod] = prod
    fd = need(AD, 'FiniteDiff')
    ip.contracts[fd] = derivative(c, None)
    return c, ip, fl


def adapter(ds, n_input, enforce, sym='S'):
    A = need(AD, 'DiscoverRegularAdapter')
    m = A.__new__(A)
    m.dataset, m.sym_true, m.n_input_dim, m.enforce_uniform_dt = ds, sym, n_input, enforce
    return A, m


def params(c, shape):
    n = c.choose(3)
    return {} if n == 0 else {f'p{k}': SArr.symbolic(f'g{k}', list(shape)) for k in range(n)}


def check_params(c, data, pf, perm):
    c.prove('parameters: all of them under their names, in order', z3.BoolVal((list(data.get('param_names', [])) == list(pf)) and len(data.get('param_data', [])) == len(pf) and data.get('n_param_var', 0) == len(pf)))
    for n, a in zip(pf, data.get('param_data', [])):
        same_array(c, 'parameters: the axes are those of the field', a, pf[n].transpose(*perm))


def g_legacy(ctx):
    def run():
        c, ip, fl = setup(ctx)
        P = need('kd.dataset', 'PDEDataset')
        ds = P.__new__(P)
        x, t = coord('x'), coord('t')
        p, q = Int('p'), Int('q')
        c.assume(z3.And(p.t >= 1, q.t >= 1))
        ds.x, ds.t, ds.usol, ds.fields_data, ds.coords_1d, ds.equation_name = x, t, grid('u', [p, q]), None, None, 'e'
        ds.param_fields = params(c, [p.t, q.t])
        ni, enforce = [None, 1, 2][c.choose(3)], bool(c.choose(2))
        A, m = adapter(ds, ni, enforce)
        n, k = lift(x._shape[0]), lift(t._shape[0])
        zero = z3.And(k >= 2, t.term(1) == t.term(0))
        try:
            d = ip.call(A._prepare, m)
        except PyRaise as e:
            ok = z3.And(p.t == n, q.t == k, k >= 3, fl.b('finite f_u'), fl.b('finite c_x'), fl.b('finite c_t'), z3.Or(z3.BoolVal(not enforce), fl.b('uniform t')), z3.Not(zero), z3.BoolVal(ni != 2))
            c.prove('one space axis: only unusable data is rejected, with a ValueError', z3.And(z3.BoolVal(isinstance(e.exc, ValueError)), z3.Not(ok)))
            return
        c.prove('one space axis: data that does not fit its coordinates is rejected', z3.And(p.t == n, q.t == k))
        c.prove('one space axis: too few samples along the evolution axis are rejected', k >= 3)
        c.prove('one space axis: non-finite fields are rejected', fl.b('finite f_u'))
        c.prove('one space axis: non-finite coordinates are rejected', z3.And(fl.b('finite c_x'), fl.b('finite c_t')))
        c.prove('one space axis: uneven steps along the evolution axis are rejected', z3.Or(z3.BoolVal(not enforce), fl.b('uniform t')))
        c.prove('one space axis: zero steps are rejected', z3.Not(zero))
        c.prove('one space axis: another number of space axes is rejected', z3.BoolVal(ni != 2 and d['n_input_dim'] == 1))
        same_array(c, 'one space axis: the field is handed over as (x, t)', d['u'], ds.usol)
        D = z3.Function('der1', z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort())
        step = t.term(1) - t.term(0)
        same_array(c, 'one space axis: the target is the derivative along t with the spacing of t', d['ut'], SArr.make([p.t, q.t], 'real', lambda i, j: D(i, j, step)))
        c.prove('one space axis: every line has all its samples', z3.And([z3.And(z3.BoolVal(pp == 1), l == q.t) for pp, l in c.lines]) if c.lines else z3.BoolVal(True))
        c.prove('one space axis: one coordinate column', z3.BoolVal(len(d['X']) == 1))
        if len(d['X']) == 1:
            same_array(c, 'one space axis: the coordinates of x', d['X'][0], SArr.make([n, 1], 'real', lambda i, j: x.term(i)))
        c.prove('one space axis: the reference expression is passed on', z3.BoolVal(d.get('sym_true') == 'S'))
        check_params(c, d, ds.param_fields, [0, 1])
    ctx.run(run)
    ctx.assume_note('one space axis: any lengths of x, t and the field, zero to two parameter fields')


def nd_run(ctx, order, li, np_):
    c, ip, fl = setup(ctx)
    P = need('kd.dataset', 'PDEDataset')
    ds = P.__new__(P)
    lhs = order[li]
    co = {a: coord(a) for a in sorted(order)}
    u = grid('u', [co[a]._shape[0] for a in order])
    ds.x, ds.t, ds.usol, ds.equation_name = co.get('x'), co.get('t'), u, 'e'
    ds.fields_data, ds.coords_1d, ds.axis_order, ds.target_field, ds.lhs_axis = {'v': grid('v', u._shape), 'w': u}, co, list(order), 'w', lhs
    ds.param_fields = {f'p{k}': SArr.symbolic(f'g{k}', list(u._shape)) for k in range(np_)}
    space = [a for a in order if a != lhs]
    ni, enforce = [(None, True), (len(space), False), (len(space) + 1, True)][c.choose(3)]
    A, m = adapter(ds, ni, enforce)
    N = {a: lift(co[a]._shape[0]) for a in order}
    f = {a: z3.Function('c_' + a, z3.IntSort(), z3.RealSort()) for a in order}
    t = co[lhs]
    zero = z3.And(N[lhs] >= 2, t.term(1) == t.term(0))
    size = z3.And([N[a] >= 4 for a in space])
    fin = z3.And([fl.b('finite f_u')] + [fl.b('finite c_' + a) for a in order])
    try:
        d = ip.call(A._prepare, m)
    except PyRaise as e:
        flat = z3.Or([fl.b('flat ' + a) for a in space])
        ok = z3.And(z3.BoolVal(2 <= len(space) <= 3), size, fin, N[lhs] >= 3, z3.Or(z3.BoolVal(not enforce), fl.b('uniform ' + lhs)), z3.Not(zero), z3.Not(flat), z3.BoolVal(ni != len(space) + 1))
        c.prove('N-D: only unusable data is rejected, with a ValueError', z3.And(z3.BoolVal(isinstance(e.exc, ValueError)), z3.Not(ok)))
        return
    c.prove('N-D: another number of space axes is rejected', z3.BoolVal(2 <= len(space) <= 3 and ni != len(space) + 1 and d['n_input_dim'] == len(space)))
    c.prove('N-D: too few samples are rejected', z3.And(size, N[lhs] >= 3))
    c.prove('N-D: non-finite fields and coordinates are rejected', fin)
    c.prove('N-D: uneven steps along the evolution axis are rejected', z3.Or(z3.BoolVal(not enforce), fl.b('uniform ' + lhs)))
    c.prove('N-D: zero steps are rejected', z3.Not(zero))
    c.prove('N-D: space points without distance are rejected', z3.Not(z3.Or([fl.b('flat ' + a) for a in space])))
    perm = [order.index(a) for a in [lhs] + space]
    same_array(c, 'N-D: the field with the evolution axis first and the others in order', d['u'], u.transpose(*perm))
    D = z3.Function(f'der{li}', *([z3.IntSort()] * len(order)), z3.RealSort(), z3.RealSort())
    step = t.term(1) - t.term(0)

    def want(*v):
        at = dict(zip([lhs] + space, v))
        return D(*[at[a] for a in order], step)
    same_array(c, 'N-D: the target is the derivative along the evolution axis with its spacing', d['ut'], SArr.make([N[a] for a in [lhs] + space], 'real', want))
    c.prove('N-D: every line has all its samples', z3.And([z3.And(z3.BoolVal(pp == li), l == N[lhs]) for pp, l in c.lines]) if c.lines else z3.BoolVal(True))
    c.prove('N-D: one coordinate column per space axis', z3.BoolVal(len(d['X']) == len(space)))
    for a, X in zip(space, d['X']):
        same_array(c, 'N-D: the coordinates of the space axes, in the order of the field', X, SArr.make([N[a], 1], 'real', lambda i, j, a=a: co[a].term(i)))
    check_params(c, d, ds.param_fields, perm)


def g_nd(order):
    def g(ctx):
        def run():
            c = cur()
            nd_run(ctx, order, c.choose(len(order)), 1)
        ctx.run(run)
        ctx.assume_note('N-D: the listed axis orders with every evolution axis and any lengths; distances between space points are a predicate of the data (its tolerance is covered by the bounded part)')
    return g


def g_entry(ctx):
    """construction: only datasets, each form to its own path, the prepared dictionary is handed out unchanged"""
    A = need(AD, 'DiscoverRegularAdapter')
    P = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        form = c.choose(5)
        ds = P.__new__(P) if form else types.SimpleNamespace()
        ds.fields_data, ds.coords_1d = [(None, None), (None, None), ({}, {}), ({}, None), (None, {})][form]
        m = A.__new__(A)
        m.dataset = ds
        ip.contracts[A._prepare_nd] = lambda ip_, self: 'nd'
        ip.contracts[A._prepare_legacy] = lambda ip_, self: 'legacy'
        try:
            ip.call(A.__post_init__, m)
        except PyRaise as e:
            c.prove('construction: only other objects and half an N-D description are rejected', z3.BoolVal(form in (0, 3, 4) and isinstance(e.exc, TypeError if form == 0 else ValueError)))
            return
        c.prove('construction: other objects and half an N-D description are rejected', z3.BoolVal(form in (1, 2)))
        c.prove('construction: each form goes its own way', z3.BoolVal(ip.call(A.get_data, m) == {1: 'legacy', 2: 'nd'}.get(form)))
    ctx.run(run)


def groups():
    return [('one space axis', g_legacy), *[('nd ' + ''.join(o), g_nd(o)) for o in AXES], ('construction', g_entry)]


# ---------------------------------------------------------------- run-time contracts
def problem(rng, seed, legacy=None):
    P = need('kd.dataset', 'PDEDataset')
    r = np.random.RandomState(seed)
    legacy = rng.random() < 0.3 if legacy is None else legacy
    names = ['x', 'y', 'z', 't', 'q', 's']
    order = ['x', 't'] if legacy else rng.sample(names[:4] if rng.random() < 0.7 else names, rng.choice([3, 3, 4]))
    lhs = 't' if legacy else rng.choice(order)
    unit = {a: 10.0 ** rng.choice([0, 0, -3, -6, -9, -12, 4, 9]) for a in order}
    co = {}
    square = rng.random() < 0.3
    n0 = rng.randint(5, 7)
    for a in order:
        n = n0 if square else rng.randint(4, 7)
        if a == lhs:
            v = r.uniform(-1, 1) + np.arange(n) * r.uniform(0.1, 1)
            if rng.random() < 0.1:
                v = v[::-1].copy()
        else:
            v = np.cumsum(r.uniform(0.2, 1.0, n)) - 1.0
        co[a] = v * unit[a]
    w = {a: r.uniform(0.5, 2.0) for a in order}

    def f(at):
        s = {a: at[a] / unit[a] for a in order}
        return sum(w[a] * s[a] ** 2 for a in order) + 0.3 * np.prod([s[a] for a in order], axis=0)

    def df(at):
        s = {a: at[a] / unit[a] for a in order}
        return (2 * w[lhs] * s[lhs] + 0.3 * np.prod([s[a] for a in order if a != lhs], axis=0)) / unit[lhs]
    g = dict(zip(order, np.meshgrid(*[co[a] for a in order], indexing='ij')))
    u = f(g)
    pf = {n: f(g) * k + g[order[0]] / unit[order[0]] for k, n in enumerate(rng.sample(['a', 'b', 'c'], rng.choice([0, 1, 2])), 2)}
    return P, legacy, order, lhs, co, u, f, df, pf, unit


def build_ds(P, legacy, order, lhs, co, u, pf, extra=None):
    if legacy:
        return P('eq', x=co['x'], t=co['t'], usol=u, param_fields=pf)
    return P('eq', fields_data={'v': -u, 'w': u}, coords_1d={a: co[a] for a in sorted(order)}, axis_order=order, target_field='w', lhs_axis=lhs, param_fields=pf)


def rt_prepare(seed):
    import random
    A = need(AD, 'DiscoverRegularAdapter')
    rng = random.Random(seed)
    P, legacy, order, lhs, co, u, f, df, pf, unit = problem(rng, seed)
    ds = build_ds(P, legacy, order, lhs, co, u, pf)
    space = [a for a in order if a != lhs]
    if any(co[a].size < 4 for a in space):
        return
    d = A(ds, n_input_dim=rng.choice([None, len(space)])).get_data()
    out = ['x', 't'] if legacy else [lhs] + space
    check(d['n_input_dim'] == len(space), 'number of space axes', 'dim')
    check(len(d['X']) == len(space) and all(np.array_equal(X, co[a][:, None]) for X, a in zip(d['X'], space)), f'axes {order}, evolution {lhs}: coordinates', 'coords')
    g = dict(zip(out, np.meshgrid(*[co[a] for a in out], indexing='ij')))
    check(d['u'].shape == g[lhs].shape and np.allclose(d['u'], f(g), rtol=1e-9), f'axes {order}, evolution {lhs}: field', 'field')
    want = df(g)
    check(d['ut'].shape == want.shape and np.allclose(d['ut'], want, rtol=1e-5, atol=1e-6 * np.abs(want).max()), f'axes {order}, evolution {lhs}: target derivative', 'target')
    check(list(d.get('param_names', [])) == list(pf) and d.get('n_param_var', 0) == len(pf), 'names of the parameters', 'params')
    perm = [order.index(a) for a in out]
    for n, a in zip(pf, d.get('param_data', [])):
        check(np.array_equal(a, np.transpose(pf[n], perm)), f'axes {order}: parameter {n}', 'params')


def rt_reject(seed):
    import random
    A = need(AD, 'DiscoverRegularAdapter')
    rng = random.Random(seed)
    P, legacy, order, lhs, co, u, f, df, pf, unit = problem(rng, seed, legacy=bool(seed % 2))
    space = [a for a in order if a != lhs]
    hows = ['nan', 'inf', 'uneven', 'short', 'flat', 'coordinate', 'dim'] + ([] if legacy else ['space', 'few space', 'one', 'four'])
    how = hows[(seed // 2) % len(hows)]
    kw, bad = {}, True
    co = {a: v.copy() for a, v in co.items()}
    u = u.copy()
    ix = tuple(rng.randrange(n) for n in u.shape)
    if how in ('nan', 'inf'):
        u[ix] = dict(nan=np.nan, inf=-np.inf)[how]
    elif how == 'uneven':
        k = rng.randrange(1, len(co[lhs]) - 1)
        co[lhs][k] += 0.3 * (co[lhs][k + 1] - co[lhs][k])
    elif how == 'short':
        keep = rng.choice([1, 2])
        co[lhs] = co[lhs][:keep]
        u = np.take(u, range(keep), axis=order.index(lhs))
    elif how == 'flat':
        co[lhs][:] = co[lhs][0]
    elif how == 'coordinate':
        a = rng.choice(order)
        co[a][rng.randrange(len(co[a]))] = rng.choice([np.nan, np.inf])
    elif how == 'dim':
        kw['n_input_dim'] = len(space) + 1
    elif how == 'space':
        a = rng.choice(space)
        k = rng.randrange(len(co[a]) - 1)
        co[a][k + 1] = co[a][k]
    elif how == 'few space':
        a = rng.choice(space)
        co[a] = co[a][:3]
        u = np.take(u, range(3), axis=order.index(a))
    elif how == 'one':
        order = [lhs, space[0]]
        u, co = u[(0,) * (u.ndim - 2)], {a: v for a, v in co.items() if a in order}
        co = {a: np.arange(u.shape[i]) * 1.0 for i, a in enumerate(order)}
        pf = {}
    elif how == 'four':
        n = 4
        order = ['t', 'a', 'b', 'c', 'd']
        lhs = 't'
        u, co = np.random.RandomState(seed).rand(n, n, n, n, n), {a: np.arange(n) * 1.0 for a in order}
        pf = {}
    ds = build_ds(P, legacy, order, lhs, co, u, {} if how in ('short', 'few space') else pf)
    try:
        A(ds, **kw)
    except ValueError:
        return
    raise Fail(f'{"one space axis" if legacy else "N-D"}, unit {unit.get(lhs)}: {how} data was accepted', 'accepted')


def rt_lenient(seed):
    """enforce_uniform_dt=False: uneven steps are accepted on request only"""
    import random
    A = need(AD, 'DiscoverRegularAdapter')
    rng = random.Random(seed)
    P, legacy, order, lhs, co, u, f, df, pf, unit = problem(rng, seed)
    co[lhs][1] += 0.2 * (co[lhs][2] - co[lhs][1])
    ds = build_ds(P, legacy, order, lhs, co, u, pf)
    d = A(ds, enforce_uniform_dt=False).get_data()
    check(d['ut'].shape == d['u'].shape, 'uneven data on request', 'lenient')


def cases(tier, rng):
    k = 0
    while True:
        s = rng.randrange(10 ** 9)
        yield C([rt_prepare, rt_prepare, rt_reject, rt_reject, rt_lenient][k % 5]), dict(seed=s), (k % 5, s)
        k += 1
