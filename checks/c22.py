"""C22: sampled points carry the field values of their own coordinates."""
import ast, builtins, types
import numpy as np
from pyvc.core import *
from pyvc.interp import LoopContract
from pyvc.arrays import SArr, flat_map, reduce_
from pyvc.report import need, check, Fail
from .c12 import C
from .c21 import BASE, Ip, build, columns, make, ORDERS, coord, grid

ID = 'C22'
LEVEL = 'proof'
BUDGET = {'quick': 25, 'thorough': 600}
RULE = 'random datasets (one to four axes, every axis order and form) sampled with every method for several sizes and ratios under a fixed seed; non-trivial when the seed is new'
ASSUMPTIONS = ['np.random.choice(n, k, replace=False) returns k distinct numbers below n; np.linspace(a, b, k, dtype=int) returns increasing integers from a to b, distinct when the step is at least one',
               'RectBivariateSpline(x, y, z) needs strictly increasing x and y and interpolates z[i,j] at (x[i], y[j]); ev evaluates point by point',
               'two grid coordinates of one axis are distinct (spline sampling)']


def choice(replaced):
    def h(ip, a, size=None, replace=True, p=None):
        c = cur()
        n = lift(a)
        replaced.append(replace)
        g = z3.Function(fresh_name('choice'), z3.IntSort(), z3.IntSort())
        inv = z3.Function(fresh_name('choice_at'), z3.IntSort(), z3.IntSort())
        if size is None:
            raise Unsupported('single choice')
        k = lift(size)
        if c.decide(k < 0) or (not replace and c.decide(k > n)):
            raise PyRaise(ValueError('sample larger than population'))

        def el(i):
            t = g(i)
            cc = cur()
            if cc is not None:
                cc.assume_axiom(z3.Implies(z3.And(i >= 0, i < k), z3.And(t >= 0, t < n)))
                if not replace:
                    cc.assume_axiom(z3.Implies(z3.And(i >= 0, i < k), inv(t) == i))
            return t
        r = SArr.make([k], 'int', el)
        r.nonneg = True
        return r
    return h


def linspace(ip, a, b, num=50, **k):
    if k.get('dtype') is not None or not any(isinstance(v, Sym) for v in (a, b)):
        return ip.intrinsic(np.linspace)(a, b, num, **k)
    if k:
        raise Unsupported('linspace options')
    g = z3.Function(fresh_name('even_real'), z3.IntSort(), z3.RealSort())
    lo, hi, n = lift(a), lift(b), lift(num)

    def get(i):
        cc = cur()
        if cc is not None:
            cc.assume_axiom(z3.Implies(z3.And(lo <= hi, i >= 0, i < n), z3.And(g(i) >= lo, g(i) <= hi)))
        return g(i)
    return SArr.make([n], 'real', get)


def prod(ip, xs, **k):
    t = None
    for x in ip.iterate(xs):
        t = lift(x) if t is None else t * lift(x)
    return wrap(z3.simplify(t))


def sub_grid(ip, *a):
    """contract of _sample_grid (obligations of the group 'sub-grid')"""
    n, limits = a[-2], a[-1]
    c = cur()
    limits = [lift(x) for x in ip.iterate(limits)]
    total = limits[0]
    for t in limits[1:]:
        total = total * t
    c.prove('sample: an even sub-grid is only asked for when the grid has enough points', z3.simplify(total) >= lift(n))
    out = []
    for t in limits:
        s = z3.Int(fresh_name('size'))
        c.assume_axiom(z3.And(s >= 1, s <= t))
        out.append(s)
    p = out[0]
    for t in out[1:]:
        p = p * t
    c.assume_axiom(z3.simplify(p) >= lift(n))
    return tuple(wrap(s) for s in out)


def install(ip, replaced):
    P = need('kd.dataset', 'PDEDataset')
    ip.contracts[np.random.choice] = choice(replaced)
    ip.contracts[np.linspace] = linspace
    ip.contracts[np.prod] = prod
    if hasattr(P, '_sample_grid'):
        f = P.__dict__['_sample_grid']
        ip.contracts[getattr(f, '__func__', f)] = sub_grid


def where(t, fn):
    """grid position read by the term t = fn(i...)"""
    t = z3.simplify(t)
    if not z3.is_app(t) or t.decl().name() != fn:
        return None
    return t.children()


def g_grid(ctx):
    """sample('random'|'uniform'): n distinct grid points, each with its own value"""
    P = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        ds, order, co, u = build()
        ip = Ip(ctx.session)
        replaced = []
        install(ip, replaced)
        method = ['random', 'uniform', 'nothing'][c.choose(3)]
        total = lift(u.size)
        if c.choose(2):
            r = Real('ratio')
            c.assume(z3.And(r.t > 0, r.t < 1))
            n_arg, n = r, z3.ToInt(z3.ToReal(total) * r.t)
        else:
            m = Int('n')
            c.assume(m.t >= 0)
            n_arg, n = m, m.t
        try:
            r = ip.call(P.sample, ds, n_arg, method)
        except PyRaise as e:
            c.prove('sample: only an unknown method or too many points are rejected', z3.And(z3.BoolVal(isinstance(e.exc, ValueError)), z3.Or(z3.BoolVal(method == 'nothing'), n > total)))
            return
        c.prove('sample: unknown methods are rejected', z3.BoolVal(method != 'nothing'))
        c.prove('sample: too many points are rejected', n <= total)
        pts, val = r
        ok = isinstance(pts, SArr) and isinstance(val, SArr) and pts.ndim == 2 and val.ndim == 2
        c.prove('sample: points and values are tables', z3.BoolVal(ok))
        if not ok:
            return
        c.prove('sample: the requested number of points', z3.And(lift(pts._shape[0]) == n, lift(pts._shape[1]) == len(order)))
        c.prove('sample: one value per point', z3.And(lift(val._shape[0]) == n, lift(val._shape[1]) == 1))
        i, j = z3.Int('i'), z3.Int('j')
        c.assume_axiom(z3.And(i >= 0, i < j, j < n))
        at = []
        for k in (i, j):
            w = where(val.term(k, 0), 'f_u')
            if w is None:
                raise Unsupported('value of another form')
            at.append(w)
            c.prove('sample: the value is an entry of the field', z3.And([z3.And(x >= 0, x < lift(co[a]._shape[0])) for x, a in zip(w, order)]))
            pos = dict(zip(order, w))
            for q, a in enumerate(columns(order)):
                c.prove('sample: the point is the grid point of its value', pts.term(k, q) == co[a].term(pos[a]))
        c.prove(f'sample ({method}): no grid point is drawn twice', z3.Or([x != y for x, y in zip(*at)]))
    ctx.run(run)
    ctx.assume_note('sample: any number of points or ratio, datasets of one to four axes of any lengths')


def g_spline(ctx):
    P = need('kd.dataset', 'PDEDataset')
    base = need(BASE)

    def run():
        c = cur()
        ds, order, co, u = build()
        ip = Ip(ctx.session)
        install(ip, [])
        m = Int('n')
        c.assume(m.t >= 1)
        n = m.t
        for a in order:
            c.assume(co[a]._shape[0] >= 2)
        total = lift(u.size)

        def argsort(ip_, a, **k):
            g = z3.Function(fresh_name('order'), z3.IntSort(), z3.IntSort())
            ln = lift(a._shape[0])
            f = a.snapshot()
            x, y = z3.Int(fresh_name('x')), z3.Int(fresh_name('y'))
            # distinct coordinates: sorting is strict
            c.assume_axiom(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < ln), f(g(x)) < f(g(y)))))

            def get(i):
                cc = cur()
                if cc is not None:
                    cc.assume_axiom(z3.Implies(z3.And(i >= 0, i < ln), z3.And(g(i) >= 0, g(i) < ln)))
                return g(i)
            r = SArr.make([ln], 'int', get)
            r.nonneg = True
            return r
        ip.contracts[np.argsort] = argsort

        def ix_(ip_, *xs):
            out = []
            for k, x in enumerate(xs):
                f = x.snapshot()
                r = SArr.make([x._shape[0] if q == k else 1 for q in range(len(xs))], 'int', lambda *v, f=f, k=k: f(v[k]))
                r.nonneg = getattr(x, 'nonneg', False)
                out.append(r)
            return tuple(out)
        ip.contracts[np.ix_] = ix_
        SPL = z3.Function('spline', z3.RealSort(), z3.RealSort(), z3.RealSort())

        def spline(ip_, x, y, z, kx=3, ky=3, **k):
            if k:
                raise Unsupported('spline options')
            i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
            ok = all(isinstance(v, SArr) for v in (x, y, z)) and x.ndim == y.ndim == 1 and z.ndim == 2
            c.prove('spline: built from two coordinates and a table', z3.BoolVal(ok))
            if not ok:
                raise PathEnd()
            nx, ny = lift(x._shape[0]), lift(y._shape[0])
            c.assume_axiom(z3.And(i >= 0, i < nx, j >= 0, j < ny))
            i2 = z3.Int(fresh_name('i'))
            c.assume_axiom(z3.And(i2 > i, z3.Implies(i2 < nx, i2 >= 0)))
            j2 = z3.Int(fresh_name('j'))
            c.assume_axiom(j2 > j)
            c.prove('spline: increasing coordinates', z3.And(z3.Implies(i2 < nx, x.term(i) < x.term(i2)), z3.Implies(j2 < ny, y.term(j) < y.term(j2))))
            c.prove('spline: one value per pair of coordinates', z3.And(lift(z._shape[0]) == nx, lift(z._shape[1]) == ny))
            c.prove('spline: all grid points are used', z3.And(nx == lift(co[order[0]]._shape[0]), ny == lift(co[order[1]]._shape[0])))
            w = where(z.term(i, j), 'f_u')
            if w is None:
                raise Unsupported('spline value of another form')
            c.prove('spline: every value stands at its own coordinates', z3.And(x.term(i) == co[order[0]].term(w[0]), y.term(j) == co[order[1]].term(w[1])))
            c.prove('spline: the degree fits the number of points', z3.And(lift(kx) >= 1, lift(kx) < nx, lift(ky) >= 1, lift(ky) < ny))

            class S:
                def ev(self, a, b, **k):
                    if k or not (isinstance(a, SArr) and isinstance(b, SArr)):
                        raise Unsupported('spline evaluation')
                    c.prove('spline: one pair of coordinates per point', lift(a._shape[0]) == lift(b._shape[0]))
                    f, g = a.snapshot(), b.snapshot()
                    return SArr.make(a._shape, 'real', lambda k: SPL(f(k), g(k)))
            return S()
        from scipy.interpolate import RectBivariateSpline
        ip.contracts[RectBivariateSpline] = spline
        try:
            r = ip.call(P.sample, ds, m, 'spline')
        except PyRaise as e:
            c.prove('spline: only too many points or another number of axes are rejected', z3.And(z3.BoolVal(isinstance(e.exc, ValueError)), z3.Or(z3.BoolVal(len(order) != 2), n > total)))
            return
        c.prove('spline: too many points or another number of axes are rejected', z3.And(z3.BoolVal(len(order) == 2), n <= total))
        if len(order) != 2:
            return
        pts, val = r
        ok = isinstance(pts, SArr) and isinstance(val, SArr) and pts.ndim == 2 and val.ndim == 2
        c.prove('spline: points and values are tables', z3.BoolVal(ok))
        if not ok:
            return
        c.prove('spline: the requested number of points', z3.And(lift(pts._shape[0]) == n, lift(pts._shape[1]) == 2, lift(val._shape[0]) == n, lift(val._shape[1]) == 1))
        k = z3.Int('k')
        c.assume_axiom(z3.And(k >= 0, k < n))
        col = {a: pts.term(k, q) for q, a in enumerate(columns(order))}
        c.prove('spline: the value is the interpolation at the point itself', val.term(k, 0) == SPL(col[order[0]], col[order[1]]))
        for a in order:
            lo, hi = lift(reduce_('min', co[a])), lift(reduce_('max', co[a]))
            c.prove('spline: the point is inside the domain', z3.And(col[a] >= lo, col[a] <= hi))
    ctx.run(run)


class Grow(LoopContract):
    """the sizes stay between 1 and the limits, and grow"""
    modifies = ('sizes',)

    def __init__(self, limits, n):
        self.limits, self.n, self.names, self.before = limits, n, None, None

    def applies(self, node):
        return isinstance(node, ast.While)

    def lists(self, info):
        return [nm for nm, v in info.env.items() if isinstance(v, list) and len(v) == len(self.limits) and all(isinstance(x, (int, SInt)) for x in v)]

    def check(self, info, k, when):
        c = cur()
        if self.names is None:
            self.names = self.lists(info)
            if len(self.names) != 1:
                raise Unsupported('sizes of the sub-grid')
        v = info.env[self.names[0]]
        for x, t in zip(v, self.limits):
            c.prove(f'sub-grid: between one and the limit ({when})', z3.And(lift(x) >= 1, lift(x) <= t))
        if self.before is not None:
            s = z3.Sum([lift(x) for x in v])
            c.prove('sub-grid: every step grows the grid (so the search ends)', s > self.before)

    def havoc(self, info, k):
        v = info.env[self.names[0]]
        new = []
        for t in self.limits:
            x = z3.Int(fresh_name('size'))
            cur().assume(z3.And(x >= 1, x <= t), check=False)
            new.append(wrap(x))
        v[:] = new
        self.before = z3.Sum([lift(x) for x in new])


def g_subgrid(ctx):
    P = need('kd.dataset', 'PDEDataset')
    f = need(BASE, 'PDEDataset._sample_grid')

    def run():
        c = cur()
        N = 1 + c.choose(4)
        limits = [Int(f'l{k}') for k in range(N)]
        n = Int('n')
        c.assume(z3.And(n.t >= 0, *[t.t >= 1 for t in limits]))
        total = limits[0].t
        for t in limits[1:]:
            total = total * t.t
        c.assume(n.t <= total)
        ip = Ip(ctx.session)
        ip.contracts[np.prod] = prod
        ip.loops["_sample_grid"] = Grow([t.t for t in limits], n)
        try:
            r = ip.call(f, n, tuple(limits))
        except PyRaise as e:
            c.prove('sub-grid: a grid with enough points is found', z3.BoolVal(False))
            return
        c.prove('sub-grid: one size per axis', z3.BoolVal(len(r) == N))
        p = None
        for x, t in zip(r, limits):
            c.prove('sub-grid: between one and the limit', z3.And(lift(x) >= 1, lift(x) <= t.t))
            p = lift(x) if p is None else p * lift(x)
        c.prove('sub-grid: enough points', p >= n.t)
    ctx.run(run)
    ctx.assume_note('sub-grid: one to four axes with any limits')


def groups():
    return [('sub-grid', g_subgrid), ('grid points', g_grid), ('spline', g_spline)]


# ---------------------------------------------------------------- run-time contracts
def key(row):
    return tuple(float(x) for x in row)


def rt_sample(seed):
    import random
    rng = random.Random(seed)
    ds, order, co, u, f = make(rng, seed)
    cols = columns(order)
    total = u.size
    for method in ('random', 'uniform', 'spline'):
        if method == 'spline' and len(order) != 2:
            continue
        n = rng.choice([1, 2, 3, total, total - 1, rng.randint(1, total)])
        n = max(1, min(n, total))
        arg = n
        if rng.random() < 0.3:
            arg = rng.uniform(0.05, 0.99)
            n = int(total * arg)
            if n == 0:
                continue
        np.random.seed(seed % 1000)
        pts, val = ds.sample(arg, method)
        np.random.seed(seed % 1000)
        pts2, val2 = ds.sample(arg, method)
        check(np.array_equal(pts, pts2) and np.array_equal(val, val2), f'{method}: another sample for the same seed', 'seed')
        check(pts.shape == (n, len(order)) and val.shape == (n, 1), f'{method}: asked for {n} points of {u.shape}, got {pts.shape} and {val.shape}', 'number')
        at = {a: pts[:, j] for j, a in enumerate(cols)}
        for a in order:
            check(np.all((at[a] >= co[a].min()) & (at[a] <= co[a].max())), f'{method}: a point outside the domain of {a}', 'domain')
        if method == 'spline':
            grid = {(float(x), float(y)): u[i, j] for i, x in enumerate(co[order[0]]) for j, y in enumerate(co[order[1]])}
            for p in range(n):
                k = (float(at[order[0]][p]), float(at[order[1]][p]))
                if k in grid:
                    check(np.isclose(val[p, 0], grid[k], rtol=1e-6, atol=1e-8), f'spline: value at the grid point {k}', 'spline value')
            if min(u.shape) >= 3:
                check(np.allclose(val[:, 0], f(**at), rtol=1e-6, atol=1e-6), f'axes {order}: spline values of a quadratic field', 'spline value')
        else:
            idx = [np.array([list(co[a]).index(v) if v in co[a] else -1 for v in at[a]], dtype=int) for a in order]
            check(all((i >= 0).all() for i in idx), f'{method}: a point that is no grid point', 'grid point')
            check(np.array_equal(u[tuple(idx)], val[:, 0]), f'axes {order}: {method}: the value is not that of the point', 'pairing')
            check(len({key(r) for r in pts}) == n, f'{method}: a grid point was drawn twice', 'distinct')
    try:
        ds.sample(total + 1, rng.choice(['random', 'uniform', 'spline']))
        raise Fail('more points than the grid has', 'too many')
    except ValueError:
        pass
    try:
        ds.sample(1, 'nope')
        raise Fail('unknown method accepted', 'method')
    except ValueError:
        pass


def cases(tier, rng):
    while True:
        s = rng.randrange(10 ** 9)
        yield C(rt_sample), dict(seed=s), ('s', s)
