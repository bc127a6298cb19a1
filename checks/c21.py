"""C21: a dataset is consistent or rejected, and its accessors agree."""
import builtins, itertools, os, tempfile, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp
from pyvc.arrays import SArr, selection
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C21'
LEVEL = 'proof'
BUDGET = {'quick': 30, 'thorough': 600}
RULE = 'random datasets of one to four axes in every axis order and form (x/t/usol, dictionary, N-D), valid and broken in one way, and .mat files of both orientations; non-trivial when the seed is new'
BASE = 'kd.dataset._base'
ASSUMPTIONS = ['numpy: asarray/flatten/meshgrid/column_stack/ravel/take/flatnonzero/min/max follow their documentation (row-major numbering of a grid is a bijection); np.gradient(f, c, axis=i) is the derivative along axis i with spacing c']
ORDERS = [['x', 't'], ['t', 'x'], ['x', 'y', 't'], ['t', 'y', 'x'], ['y', 't', 'x'], ['t'], ['z', 'x', 't', 'y']]


class SymSet(list):
    """set() of tuples with symbolic entries"""
    __slots__ = ()


def eq_shape(a, b):
    if len(a) != len(b):
        return False
    return all(cur().decide(lift(x) == lift(y)) if isinstance(x, Sym) or isinstance(y, Sym) else x == y for x, y in zip(a, b))


class Ip(Interp):
    def __init__(self, session):
        Interp.__init__(self, session)

        def mkset(ip_, xs=()):
            xs = list(ip_.iterate(xs))
            if not any(isinstance(x, tuple) for x in xs):
                return set(xs)
            out = SymSet()
            for x in xs:
                if not any(eq_shape(x, y) for y in out):
                    out.append(x)
            return out
        self.contracts[builtins.set] = mkset
        self.contracts[builtins.print] = lambda ip_, *a, **k: None

    def e_Compare(self, e, fr):
        import ast
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotEq, ast.Eq)):
            a, b = self.eval(e.left, fr), self.eval(e.comparators[0], fr)
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = eq_shape(a, b)
                return r if isinstance(e.ops[0], ast.Eq) else not r
        return Interp.e_Compare(self, e, fr)


def coord(name):
    n = Int('n_' + name)
    cur().assume(n.t >= 1)
    return SArr.symbolic('c_' + name, [n.t])


def grid(name, shape):
    return SArr.symbolic('f_' + name, [lift(d) for d in shape])


def build(form=None):
    """(dataset built by the real constructor's contract, axis order, coords, field): the state every accessor starts from"""
    P = need('kd.dataset', 'PDEDataset')
    c = cur()
    ds = P.__new__(P)
    i = c.choose(len(ORDERS) + 1)
    ds.domain, ds.epi, ds.equation_name, ds.info, ds.param_fields = None, 0.0, 'e', None, {}
    if i == len(ORDERS):
        order = ['x', 't']
        co = {a: coord(a) for a in order}
        ds.fields_data = ds.coords_1d = ds.axis_order = ds.target_field = ds.lhs_axis = None
        ds.x, ds.t = co['x'], co['t']
        u = grid('u', [co[a]._shape[0] for a in order])
    else:
        order = ORDERS[i]
        co = {a: coord(a) for a in sorted(order, key=lambda a: (a != 't', a))}
        u = grid('u', [co[a]._shape[0] for a in order])
        ds.fields_data, ds.coords_1d, ds.axis_order, ds.target_field, ds.lhs_axis = {'u': u}, co, list(order), 'u', order[0]
        ds.x, ds.t = co.get('x'), co.get('t')
    ds.usol = ds.u = u
    return ds, order, co, u


def same_array(c, name, a, b):
    """same shape and same entries"""
    ok = isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim
    c.prove(name, z3.BoolVal(ok))
    if not ok:
        return
    v = [z3.Int(fresh_name('q')) for _ in range(a.ndim)]
    for x, d in zip(v, b._shape):
        c.assume_axiom(z3.And(x >= 0, x < lift(d)))
    c.prove(name, z3.And([lift(x) == lift(y) for x, y in zip(a._shape, b._shape)] + [a.term(*v) == b.term(*v)]))


def g_legacy(ctx):
    P = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        x, t = coord('x'), coord('t')
        if c.choose(2):
            X, T = SArr.make([x._shape[0], 1], 'real', lambda i, j: x.term(i)), SArr.make([1, t._shape[0]], 'real', lambda i, j: t.term(j))
        else:
            X, T = x, t
        nd = 1 + c.choose(3)
        dims = [Int(f'p{k}') for k in range(nd)]
        for d in dims:
            c.assume(d.t >= 1)
        u = grid('u', dims)
        par = c.choose(3)
        pn = None
        if par:
            pd = [Int(f'r{k}') for k in range(nd)]
            for d in pd:
                c.assume(d.t >= 1)
            pn = {'a': grid('a', pd)}
        ip = Ip(ctx.session)
        bad = z3.Bool('param_not_finite')
        if par:
            ip.contracts[np.isfinite] = lambda ip_, a: SArr.const(a._shape, z3.Not(bad), 'bool')
        kw = dict(pde_data={'x': X, 't': T, 'usol': u}) if c.choose(2) else dict(x=X, t=T, usol=u)
        good = z3.And(nd == 2, dims[0].t == x._shape[0], dims[1].t == t._shape[0]) if nd == 2 else z3.BoolVal(False)
        if par:
            good = z3.And(good, *[a.t == b.t for a, b in zip(pd, dims)], z3.Not(bad))
        try:
            ds = ip.call(P, 'eq', param_fields=pn, domain='D', epi='E', **kw)
        except PyRaise as e:
            c.prove('legacy: a rejection is a ValueError', z3.BoolVal(isinstance(e.exc, ValueError)))
            c.prove('legacy: only inconsistent data is rejected', z3.Not(good))
            return
        c.prove('legacy: inconsistent data is rejected', good)
        same_array(c, 'legacy: the coordinates are those given', ds.x, x)
        same_array(c, 'legacy: the coordinates are those given', ds.t, t)
        same_array(c, 'legacy: the field is the one given', ds.usol, u)
        same_array(c, 'legacy: the field is the one given', ds.u, u)
        c.prove('legacy: no N-D description', z3.BoolVal(ds.coords_1d is None and ds.axis_order is None and ds.fields_data is None))
        c.prove('legacy: domain and penalty are those given', z3.BoolVal(ds.domain == 'D' and ds.epi == 'E' and ds.equation_name == 'eq'))
        c.prove('legacy: the parameter fields are those given', z3.BoolVal(set(ds.param_fields) == set(pn or {})))
        if par and 'a' in ds.param_fields:
            same_array(c, 'legacy: the parameter fields are those given', ds.param_fields['a'], pn['a'])
    ctx.run(run)
    ctx.assume_note('constructor: x/t/usol and dictionary form; coordinate arrays of one or two dimensions; fields of one to three dimensions of any lengths; a parameter field of any lengths')


BROKEN = ['', 'no order', 'no fields', 'no coordinates', 'empty fields', 'empty order', 'duplicate', 'missing', 'extra', 'target', 'evolution', 'rank']


def g_nd(ctx):
    P = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        order = list(ORDERS[c.choose(len(ORDERS))])
        how = BROKEN[c.choose(len(BROKEN))]
        co = {a: coord(a) for a in sorted(order)}
        nd = len(order) + (how == 'rank')
        du, dv = [[Int(f'{n}{k}') for k in range(nd)] for n in 'pr']
        for d in du + dv:
            c.assume(d.t >= 1)
        F = {'v': grid('v', dv), 'w': grid('u', du)} if c.choose(2) else {'w': grid('u', du)}
        kw = dict(fields_data=dict(F), coords_1d=dict(co), axis_order=list(order), target_field='w', lhs_axis=order[-1])
        if how == 'no order':
            kw['axis_order'] = None
        if how == 'no fields':
            kw['fields_data'] = None
        if how == 'no coordinates':
            kw['coords_1d'] = None
        if how == 'empty fields':
            kw['fields_data'] = {}
        if how == 'empty order':
            kw['axis_order'] = []
        if how == 'duplicate':
            kw['axis_order'] = order + [order[0]]
        if how == 'missing':
            kw['axis_order'] = order[1:]
        if how == 'extra':
            kw['axis_order'] = order + ['q']
        if how == 'target':
            kw['target_field'] = 'u'
        if how == 'evolution':
            kw['lhs_axis'] = 'q'
        good = z3.BoolVal(not how)
        if not how:
            for D in [du] + ([dv] if 'v' in F else []):
                good = z3.And(good, *[d.t == co[a]._shape[0] for d, a in zip(D, order)])
        ip = Ip(ctx.session)
        try:
            ds = ip.call(P, 'eq', **kw)
        except PyRaise as e:
            c.prove('N-D: a rejection is a ValueError', z3.BoolVal(isinstance(e.exc, ValueError)))
            c.prove('N-D: only inconsistent data is rejected', z3.Not(good))
            return
        c.prove('N-D: inconsistent data is rejected', good)
        c.prove('N-D: axes, target and evolution axis are those given', z3.BoolVal(list(ds.axis_order) == order and ds.target_field == 'w' and ds.lhs_axis == order[-1]))
        c.prove('N-D: axes, target and evolution axis are those given', z3.BoolVal(set(ds.coords_1d) == set(co) and set(ds.fields_data) == set(F)))
        for a in order:
            same_array(c, 'N-D: the coordinates are those given', ds.coords_1d[a], co[a])
        for n in F:
            same_array(c, 'N-D: the fields are those given', ds.fields_data[n], F[n])
        same_array(c, 'N-D: the target is the solution', ds.usol, F['w'])
        for a, v in (('x', ds.x), ('t', ds.t)):
            if a in co:
                same_array(c, 'N-D: the coordinates are those given', v, co[a])
            else:
                c.prove('N-D: no coordinates are made up', z3.BoolVal(v is None))
    ctx.run(run)
    ctx.assume_note('N-D constructor: one to four named axes in the listed orders with one or two fields of any lengths; each other defect in turn')


def columns(order):
    return [a for a in order if a != 't'] + [a for a in order if a == 't']


def g_mesh(ctx):
    P = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        c.flat_ghost = True
        ds, order, co, u = build()
        ip = Ip(ctx.session)
        m = ip.call(P.mesh, ds)
        flat = u.flatten()
        k = z3.Int('row')
        n = flat._shape[0]
        c.assume_axiom(z3.And(k >= 0, k < lift(n)))
        ok = isinstance(m, SArr) and m.ndim == 2
        c.prove('mesh: one row per entry of the field, one column per axis', z3.And(lift(m._shape[0]) == lift(n), lift(m._shape[1]) == len(order)) if ok else z3.BoolVal(False))
        if not ok:
            return
        t = z3.simplify(flat.term(k))                     # f_u(i...): which entry of the field row k is
        if t.decl().name() != 'f_u':
            raise Unsupported('entry of the flattened field')
        at = dict(zip(order, t.children()))
        for j, a in enumerate(columns(order)):
            c.prove('mesh: row k holds the coordinates of entry k of the flattened field', m.term(k, j) == co[a].term(at[a]))
        # extrema of the mesh are those of the coordinates
        lo, hi = {}, {}

        def ext(op):
            def spec(arr, axis):
                if arr.ndim != 2 or axis != 0:
                    return None
                q = z3.Int(fresh_name('row'))
                cols = []
                for j, a in enumerate(columns(order)):
                    from pyvc.arrays import reduce_
                    r = lift(reduce_(op, co[a]))
                    d = flat_digit(q)
                    c.prove(f'bounds: no mesh entry is beyond the reported {op}imum', z3.Implies(z3.And(q >= 0, q < lift(n)), (arr.term(q, j) <= r) if op == 'max' else (arr.term(q, j) >= r)))
                    wit = z3.Int(fresh_name('w'))
                    c.assume_axiom(z3.And(wit >= 0, wit < lift(co[a]._shape[0]), co[a].term(wit) == r))
                    row = flat_at([wit if b == a else z3.IntVal(0) for b in order])
                    c.prove(f'bounds: the reported {op}imum is an entry of the mesh', z3.And(row >= 0, row < lift(n), arr.term(row, j) == r))
                    cols.append(r)
                return SArr.from_np(np.array([wrap(x) for x in cols], dtype=object))
            return spec
        from pyvc.arrays import flat_map

        def flat_at(ix):
            return ix[0] if len(order) == 1 else flat_map([co[b]._shape[0] for b in order]).flat(*ix)

        def flat_digit(q):
            return None
        c.min_spec, c.max_spec = ext('min'), ext('max')
        r = ip.call(P.mesh_bounds, ds)
        c.min_spec = c.max_spec = None
        b = ip.call(P.get_boundaries, ds)
        c.prove('bounds: one pair per axis', z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, SArr) for x in r) and isinstance(b, dict) and set(b) == set(order)))
        from pyvc.arrays import reduce_
        for j, a in enumerate(columns(order)):
            for i, op in ((0, 'min'), (1, 'max')):
                v = lift(reduce_(op, co[a]))
                c.prove('bounds: the reported bounds are those of the coordinates', lift(b[a][i]) == v)
                c.prove('bounds: mesh and boundaries agree', lift(r[i][j]) == v)
        s = ip.call(P.get_size, ds)
        c.prove('size: the lengths of the coordinates in axis order', z3.And([lift(x) == lift(co[a]._shape[0]) for x, a in zip(s, order)]) if len(s) == len(order) else z3.BoolVal(False))
    ctx.run(run)


class Grad:
    def __init__(self, *a):
        self.a = a


def g_derivative(ctx):
    P = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        ds, order, co, u = build()
        ip = Ip(ctx.session)

        def gradient(ip_, f, *sp, axis=None, edge_order=1):
            return Grad(f, sp, axis)
        ip.contracts[np.gradient] = gradient
        a = (order + ['q', 'X'])[c.choose(len(order) + 2)]
        try:
            r = ip.call(P.get_derivative, ds, a)
        except PyRaise as e:
            c.prove('derivative: an axis of the dataset is served', z3.BoolVal(a not in order and isinstance(e.exc, ValueError)))
            return
        c.prove('derivative: an unknown axis is rejected', z3.BoolVal(a in order))
        if a not in order:
            return
        ok = isinstance(r, Grad) and len(r.a[1]) == 1 and isinstance(r.a[2], int)
        if not ok and not isinstance(r, Grad):
            raise Unsupported('derivative of another form')
        c.prove('derivative: along the position of the named axis', z3.BoolVal(ok and r.a[2] % len(order) == order.index(a)))
        if ok:
            same_array(c, 'derivative: of the stored field', r.a[0], u)
            same_array(c, 'derivative: with the spacing of the named coordinate', r.a[1][0], co[a])
    ctx.run(run)


def g_access(ctx):
    P = need('kd.dataset', 'PDEDataset')

    def point():
        c = cur()
        ds, order, co, u = build()
        ip = Ip(ctx.session)
        i, j = Int('i'), Int('j')
        try:
            r = ip.call(P.get_datapoint, ds, i, j)
        except PyRaise as e:
            if isinstance(e.exc, ValueError):
                c.prove('point: a dataset with the axes x and t is served', z3.BoolVal(sorted(order) != ['t', 'x']))
            else:
                inside = z3.And(i.t >= 0, i.t < lift(co['x']._shape[0]), j.t >= 0, j.t < lift(co['t']._shape[0])) if sorted(order) == ['t', 'x'] else z3.BoolVal(True)
                c.prove('point: only positions outside the grid are rejected', z3.And(z3.BoolVal(isinstance(e.exc, IndexError)), z3.Not(inside)))
            return
        c.prove('point: other axes are rejected', z3.BoolVal(sorted(order) == ['t', 'x']))
        if sorted(order) != ['t', 'x']:
            return
        inside = z3.And(i.t >= 0, i.t < lift(co['x']._shape[0]), j.t >= 0, j.t < lift(co['t']._shape[0]))
        c.prove('point: positions outside the grid are rejected', inside)
        c.prove('point: the coordinates at the positions', z3.And(lift(r[0]) == co['x'].term(i.t), lift(r[1]) == co['t'].term(j.t)))
        at = {'x': i.t, 't': j.t}
        c.prove('point: the field value at those coordinates', lift(r[2]) == u.term(*[at[a] for a in order]))
    ctx.run(point)

    def rng():
        c = cur()
        ds, order, co, u = build()
        ip = Ip(ctx.session)
        b = {a: (Real(a + 'lo'), Real(a + 'hi')) for a in 'xt'}
        try:
            r = ip.call(P.get_range, ds, b['x'], b['t'])
        except PyRaise as e:
            c.prove('range: a dataset with the axes x and t is served', z3.BoolVal(isinstance(e.exc, ValueError) and not {'x', 't'} <= set(order)))
            return
        c.prove('range: datasets without these axes are rejected', z3.BoolVal({'x', 't'} <= set(order)))
        if not {'x', 't'} <= set(order):
            return
        sel = {}
        for a in 'xt':
            lo, hi = b[a][0].t, b[a][1].t
            sel[a] = selection(SArr.make(co[a]._shape, 'bool', lambda k, a=a, lo=lo, hi=hi: z3.And(co[a].term(k) >= lo, co[a].term(k) <= hi)))
            same_array(c, 'range: exactly the coordinates inside, ends included', r[a], SArr.make(sel[a]._shape, 'real', lambda k, a=a: co[a].term(sel[a].term(k))))
        want = SArr.make([sel[a]._shape[0] if a in sel else co[a]._shape[0] for a in order], 'real',
                         lambda *v: u.term(*[sel[a].term(k) if a in sel else k for k, a in zip(v, order)]))
        same_array(c, 'range: the field values at exactly these coordinates', r['usol'], want)
    ctx.run(rng)

    def data():
        c = cur()
        ds, order, co, u = build()
        ip = Ip(ctx.session)
        r = ip.call(P.get_data, ds)
        c.prove('data: the stored arrays', z3.BoolVal(isinstance(r, dict) and r.get('x') is ds.x and r.get('t') is ds.t and r.get('usol') is ds.usol))
        k = ['x', 't', 'usol', 'axis_order', 'nothing'][c.choose(5)]
        try:
            v = ip.call(P.__getitem__, ds, k)
        except PyRaise as e:
            c.prove('item access: only unknown names are rejected', z3.BoolVal(isinstance(e.exc, KeyError) and k == 'nothing'))
            return
        c.prove('item access: the attribute of that name', z3.BoolVal(k != 'nothing' and v is getattr(ds, k)))
    ctx.run(data)


def g_loaders(ctx):
    """the field of a file reaches the dataset as (x, t), transposed only when the file holds (t, x)"""
    base = need(BASE)
    dsmod = need('kd.dataset')
    reg = need('kd.dataset._registry')

    def setup():
        c = cur()
        x, t = coord('x'), coord('t')
        p, q = Int('p'), Int('q')
        c.assume(z3.And(p.t >= 1, q.t >= 1))
        u = grid('u', [p, q])
        got = []
        ip = Ip(ctx.session)

        def dataset(ip_, *a, **k):
            got.append((a, k))
            return types.SimpleNamespace(**k)
        for cls in {base.PDEDataset, dsmod.PDEDataset}:
            ip.contracts[cls] = dataset
        return c, x, t, p, q, u, got, ip

    def post(c, x, t, p, q, u, got, what):
        n, m = lift(x._shape[0]), lift(t._shape[0])
        fits = z3.And(p.t == n, q.t == m)
        c.prove(f'{what}: one dataset', z3.BoolVal(len(got) == 1))
        if len(got) != 1:
            return
        k = got[0][1]
        same_array(c, f'{what}: the coordinates of the file', k.get('x'), x)
        same_array(c, f'{what}: the coordinates of the file', k.get('t'), t)
        v = k.get('usol')
        i, j = z3.Int('i'), z3.Int('j')
        c.assume_axiom(z3.And(i >= 0, j >= 0, i < n, j < m))
        c.prove(f'{what}: a field that is (x, t) is kept as it is', z3.Implies(fits, z3.And(lift(v._shape[0]) == p.t, lift(v._shape[1]) == q.t, v.term(i, j) == u.term(i, j))))
        c.prove(f'{what}: a field that is (t, x) is transposed', z3.Implies(z3.And(z3.Not(fits), p.t == m, q.t == n), z3.And(lift(v._shape[0]) == n, lift(v._shape[1]) == m, v.term(i, j) == u.term(j, i))))
        c.prove(f'{what}: any other field is left for the constructor to reject', z3.Implies(z3.And(z3.Not(fits), z3.Not(z3.And(p.t == m, q.t == n))), z3.Or(lift(v._shape[0]) != n, lift(v._shape[1]) != m)))

    def mat():
        c, x, t, p, q, u, got, ip = setup()
        X = SArr.make([x._shape[0], 1], 'real', lambda i, j: x.term(i))
        T = SArr.make([1, t._shape[0]], 'real', lambda i, j: t.term(j))
        ip.contracts[base.load_mat_file] = lambda ip_, f: {'X': X, 'T': T, 'U': u}
        ip.contracts[base.resources.files] = lambda ip_, m: __import__('pathlib').Path('/nonexistent')
        d, e = object(), 0.5
        ip.call(base.load_pde_dataset, 'f.mat', x_key='X', t_key='T', u_key='U', domain=d, epi=e)
        post(c, x, t, p, q, u, got, 'load_pde_dataset')
        c.prove('load_pde_dataset: domain and penalty are passed on', z3.BoolVal(got[0][1].get('domain') is d and got[0][1].get('epi') == e))

    def files():
        c, x, t, p, q, u, got, ip = setup()
        ip.contracts[reg.get_dataset_info] = lambda ip_, n: {'files': {'u': 'U', 'x': 'X', 't': 'T'}, 'domain': None}
        ip.contracts[np.load] = lambda ip_, f, **k: {'U': u, 'X': x, 'T': t}[str(f)[-1]]
        ip.contracts[dsmod._tag_dataset] = lambda ip_, d, n: d
        ip.contracts[dsmod.resources.files] = lambda ip_, m: __import__('pathlib').Path('/nonexistent')
        ip.call(dsmod.load_pde, 'some name')
        post(c, x, t, p, q, u, got, 'load_pde')
    ctx.run(mat)
    ctx.run(files)
    ctx.assume_note('loaders: the file readers and the constructor are replaced by their contracts (arrays of any lengths)')


def groups():
    return [('legacy', g_legacy), ('nd', g_nd), ('mesh', g_mesh), ('derivative', g_derivative), ('access', g_access), ('loaders', g_loaders)]


# ---------------------------------------------------------------- run-time contracts
NAMES = ['x', 't', 'y', 'z', 'q']


def make(rng, seed):
    """random dataset whose field is a known function of its coordinates"""
    P = need('kd.dataset', 'PDEDataset')
    nd = rng.choice([1, 2, 2, 2, 3, 3, 4])
    legacy = nd == 2 and rng.random() < 0.4
    order = ['x', 't'] if legacy else rng.sample(NAMES[:max(nd, 4)] if rng.random() < 0.8 else NAMES, nd)
    if nd == 2 and not legacy and rng.random() < 0.7:
        order = rng.sample(['x', 't'], 2)
    r = np.random.RandomState(seed)
    square = rng.random() < 0.3
    n0 = rng.randint(3, 6)
    co = {}
    for a in order:
        n = n0 if square else rng.randint(2, 6)
        v = np.cumsum(r.uniform(0.1, 1.0, n)) - 1.0
        if rng.random() < 0.15:
            v = v[::-1].copy()
        co[a] = v
    w = {a: r.uniform(0.5, 2.0) for a in order}

    def f(**at):
        return sum(w[a] * at[a] ** 2 for a in order) + 0.3 * np.prod([at[a] for a in order], axis=0)
    g = np.meshgrid(*[co[a] for a in order], indexing='ij')
    u = f(**dict(zip(order, g)))
    if legacy:
        form = rng.choice(['kw', 'dict', 'col'])
        if form == 'dict':
            ds = P('eq', pde_data={'x': co['x'][:, None], 't': co['t'][None], 'usol': u})
        elif form == 'col':
            ds = P('eq', x=co['x'][:, None], t=list(co['t']), usol=u + 0j)
        else:
            ds = P('eq', x=co['x'], t=co['t'], usol=u)
    else:
        keys = list(co)
        rng.shuffle(keys)
        ds = P('eq', fields_data={'u': u, 'v': 2 * u}, coords_1d={k: co[k] for k in keys}, axis_order=order, target_field='u', lhs_axis=rng.choice(order))
    return ds, order, co, u, f


def rt_access(seed):
    import random
    rng = random.Random(seed)
    ds, order, co, u, f = make(rng, seed)
    check(np.array_equal(np.asarray(ds.usol), u) and ds.get_size() == u.shape, 'stored field', 'field')
    m = ds.mesh()
    cols = columns(order)
    check(m.shape == (u.size, len(order)), f'mesh shape {m.shape}', 'mesh')
    at = {a: m[:, j] for j, a in enumerate(cols)}
    check(np.allclose(f(**at), np.asarray(ds.usol).ravel()), f'axes {order}: mesh rows are not the points of the flattened field', 'mesh')
    lo, hi = ds.mesh_bounds()
    b = ds.get_boundaries()
    check(set(b) == set(order), f'boundaries {list(b)}', 'bounds')
    for j, a in enumerate(cols):
        check(lo[j] == co[a].min() == b[a][0] and hi[j] == co[a].max() == b[a][1], f'axes {order}: bounds of {a}', 'bounds')
    for a in order:
        if len(co[a]) > 1:
            d = ds.get_derivative(a)
            want = np.gradient(u, co[a], axis=order.index(a))
            check(d.shape == u.shape and np.allclose(d, want), f'axes {order}: derivative along {a}', 'derivative')
    try:
        ds.get_derivative('nope')
        raise Fail('derivative of an unknown axis was served', 'derivative')
    except (ValueError, KeyError):
        pass
    if sorted(order) == ['t', 'x']:
        for _ in range(4):
            i, j = rng.randrange(len(co['x'])), rng.randrange(len(co['t']))
            p = ds.get_datapoint(i, j)
            check(p[0] == co['x'][i] and p[1] == co['t'][j] and np.isclose(p[2], f(x=p[0], t=p[1])), f'axes {order}: point ({i},{j})', 'point')
        for i, j in ((-1, 0), (0, -1), (len(co['x']), 0), (0, len(co['t']))):
            try:
                ds.get_datapoint(i, j)
            except (IndexError, ValueError):
                continue
            raise Fail(f'point ({i},{j}) outside the grid was served', 'point')
    if {'x', 't'} <= set(order):
        lim = {}
        for a in 'xt':
            v = sorted(rng.choice(list(co[a])) if rng.random() < 0.7 else rng.uniform(co[a].min() - 0.2, co[a].max() + 0.2) for _ in range(2))
            lim[a] = (v[0], v[1])
        r = ds.get_range(lim['x'], lim['t'])
        want = u
        for i, a in enumerate(order):
            if a in lim:
                inside = np.array([k for k, v in enumerate(co[a]) if lim[a][0] <= v <= lim[a][1]], dtype=int)
                want = np.take(want, inside, axis=i)
                check(np.array_equal(r[a], co[a][inside]), f'axes {order}: coordinates {a} in the range {lim[a]}', 'range')
        check(np.array_equal(r['usol'], want), f'axes {order}: field in the range', 'range')
    d = ds.get_data()
    check(d['x'] is ds.x and d['t'] is ds.t and d['usol'] is ds.usol and ds['usol'] is ds.usol, 'get_data', 'data')
    repr(ds)


def rt_reject(seed):
    import random
    P = need('kd.dataset', 'PDEDataset')
    rng = random.Random(seed)
    ds, order, co, u, f = make(rng, seed)
    nd = ds.coords_1d is not None
    hows = ['shape', 'transposed', 'param shape', 'param value'] + (['second field', 'missing', 'extra', 'duplicate', 'target', 'evolution', 'nothing'] if nd else ['nothing'])
    how = hows[seed % len(hows)]
    kw = dict(fields_data={'u': u, 'v': 2 * u}, coords_1d=dict(co), axis_order=list(order), target_field='u', lhs_axis=order[0]) if nd else dict(x=co['x'], t=co['t'], usol=u)
    name = 'u' if nd else 'usol'

    def put(v):
        if nd:
            kw['fields_data'] = {k: v for k in kw['fields_data']}
        else:
            kw['usol'] = v
    bad = True
    if how == 'shape':
        ax = rng.randrange(u.ndim)
        put(np.take(u, range(u.shape[ax] - 1), axis=ax))
    elif how == 'transposed':
        put(u.T)
        bad = u.T.shape != u.shape
    elif how == 'param shape':
        kw['param_fields'] = {'a': u.ravel()} if u.ndim > 1 else {'a': u[:-1]}
    elif how == 'param value':
        a = u.copy()
        a[(0,) * u.ndim] = rng.choice([np.nan, np.inf])
        kw['param_fields'] = {'b': u, 'a': a}
    elif how == 'second field':
        kw['fields_data'] = {'u': u, 'v': u[..., :-1]}
    elif how == 'missing':
        kw['axis_order'] = order[1:]
    elif how == 'extra':
        kw['axis_order'] = order + ['k']
    elif how == 'duplicate':
        kw['axis_order'] = order + [order[-1]]
    elif how == 'target':
        kw['target_field'] = 'nope'
    elif how == 'evolution':
        kw['lhs_axis'] = 'nope'
    elif how == 'nothing':
        kw = {'axis_order': order} if nd else {'x': co['x'], 't': co['t']}
    try:
        P('eq', **kw)
    except ValueError:
        check(bad, f'{how}: consistent data was rejected', 'reject')
        return
    check(not bad, f'{how}: inconsistent data was accepted', 'accept')


def rt_loader(seed):
    import random, scipy.io as sio
    base = need(BASE)
    rng = random.Random(seed)
    n, m = (5, 5) if seed % 3 == 0 else (rng.randint(2, 6), rng.randint(7, 9))
    x, t = np.sort(np.random.RandomState(seed).rand(n)), np.sort(np.random.RandomState(seed + 1).rand(m))
    u = np.random.RandomState(seed + 2).rand(n, m)
    stored = u if (seed % 2 == 0 or n == m) else u.T
    tmp = tempfile.mkdtemp()
    path = os.path.join(tmp, 'f.mat')
    old = base.load_mat_file
    try:
        sio.savemat(path, {'a': x, 'b': t, 'c': stored})
        base.load_mat_file = lambda f: old(path)
        import contextlib, io
        with contextlib.redirect_stdout(io.StringIO()):
            ds = base.load_pde_dataset('f.mat', x_key='a', t_key='b', u_key='c', domain={'x': (0, 1)}, epi=0.25)
    finally:
        base.load_mat_file = old
        os.unlink(path) if os.path.exists(path) else None
        os.rmdir(tmp)
    check(ds is not None and np.array_equal(ds.x, x) and np.array_equal(ds.t, t), 'coordinates of the file', 'loader')
    check(np.array_equal(ds.usol, u), f'field of a {n}x{m} file ({"x,t" if stored is u else "t,x"})', 'loader')
    check(ds.domain == {'x': (0, 1)} and ds.epi == 0.25, 'domain and penalty', 'loader')


def rt_registry(name):
    mod = need('kd.dataset')
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        ds = mod.load_pde(name)
    check(ds.usol.shape == (len(ds.x), len(ds.t)) == ds.get_size(), f'{name}: shapes', 'registry')
    for v in (ds.x, ds.t):
        d = np.diff(v)
        check(np.all(d > 0) or np.all(d < 0), f'{name}: coordinates are not monotone', 'registry')
    # smooth along x and t: neighbours differ less than entries of unrelated rows
    check(np.all(np.isfinite(ds.usol)) and ds.registry_name == name, f'{name}: values', 'registry')


def cases(tier, rng):
    reg = need('kd.dataset._registry', 'PDE_REGISTRY')
    names = [n for n, i in reg.items() if i.get('status') == 'active']
    for n in names[:3]:
        yield C(rt_registry), dict(name=n), ('reg', n)
    k = 0
    while True:
        s = rng.randrange(10 ** 9)
        yield C([rt_access, rt_access, rt_reject, rt_loader][k % 4]), dict(seed=s), (k % 4, s)
        k += 1
        if tier != 'quick' and 3 <= k - 1 < 3 + len(names):
            yield C(rt_registry), dict(name=names[k - 4]), ('reg', names[k - 4], k)
