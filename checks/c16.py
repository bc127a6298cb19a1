"""C16: trimmed and differentiated genetic-search grids stay aligned."""
import builtins, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp
from pyvc.arrays import SArr
from pyvc.report import need, check, Fail
from . import sga
from .c12 import C
from .c15 import Tok, SStr, SDict, Proj, Ip as Ip15, np_array, base_contracts

ID = 'C16'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded problems whose arrays are known functions of the grid point, with and without edge deletion; non-trivial when the seed is new'
CTX = sga.CTX


class Arr(Tok):
    """opaque array; cutting it gives the array cut by that index"""

    def __getitem__(self, ix):
        return Arr('cut', self, ix)

    def reshape(self, *a):
        return self

    ravel = flatten = reshape


def root(a):
    """(array, [cuts applied to it])"""
    cuts = []
    while isinstance(a, Arr) and a.tag[0] == 'cut':
        cuts.append(a.tag[2])
        a = a.tag[1]
    return a, cuts[::-1]


class Ip(Ip15):
    def e_DictComp(self, e, fr):
        it = self.eval(e.generators[0].iter, fr)
        if isinstance(it, Proj) and len(e.generators) == 1 and not e.generators[0].ifs:
            out = SDict.__new__(SDict)
            out.tag, out.names, out.vals = 'derived', [], []
            for v in it:
                f3 = self.subframe(fr)
                self.assign(e.generators[0].target, v, f3)
                out.names.append(self.eval(e.key, f3))
                out.vals.append(self.eval(e.value, f3))
            return out
        return Ip15.e_DictComp(self, e, fr)

    def getitem(self, o, i):
        if isinstance(o, Arr):
            return o[i]
        return Ip15.getitem(self, o, i)


def same_bound(c, a, b):
    if a is None or b is None:
        return a is b
    return c.entails(lift(a) == lift(b))


def g_delete(ctx):
    P = need(CTX, 'ProblemContext')

    def run():
        c = cur()
        xi = c.choose(2)
        n, m = Int('n'), Int('m')
        c.assume(z3.And(n.t >= 1, m.t >= 1))
        fields = SDict('field', lambda nm, i: Arr('field', i))
        params = SDict('param', lambda nm, i: Arr('param', i)) if c.choose(2) else None
        other = 't' if c.choose(2) else 'y'
        coords = {'x': Arr('coord', 'x'), other: Arr('coord', other)}
        order = ['x', other] if xi == 0 else [other, 'x']
        s = P.__new__(P)
        s.fields, s.coords_1d, s.axis_order, s.axis_map = fields, dict(coords), order, {a: i for i, a in enumerate(order)}
        s.n, s.m = n, m
        s.lhs_axis, s.target_field = other, fields.names[0]
        s.config = types.SimpleNamespace(fields_data=fields, coords_1d=coords, param_fields=params)
        s.u = types.SimpleNamespace(ndim=2)
        reg = []
        ip = Ip(ctx.session)
        base_contracts(ip, c)
        ip.contracts[np.asarray] = lambda ip_, x, *a, **k: x
        ip.contracts[np.array] = lambda ip_, x, *a, **k: x
        ip.contracts[builtins.dict] = lambda ip_, x=(), **k: dict(x, **k) if isinstance(x, dict) else x

        def register(ip_, self, f, co, ax):
            reg.append((f, co, ax))
            self.fields, self.coords_1d, self.axis_order = f, co, list(ax)
            self.coord_grids = {a: Tok('grid', a) for a in order}
            self.delta = {a: Tok('delta', a) for a in order}
        ip.contracts[P._init_variable_registry] = register
        ip.contracts[P._resolve_primary_spatial_axis] = lambda ip_, self: setattr(self, 'primary_spatial_axis', 'x')
        ip.contracts[P._shape_axis_length] = lambda ip_, sh, i: ('length', i)
        ip.call(P._apply_edge_deletion, s)
        a0, b0 = n.t / 10, None
        c.prove('trimming: the tables are rebuilt once from the trimmed data', z3.BoolVal(len(reg) == 1 and reg[0][2] == order))
        if len(reg) != 1:
            return
        f, co, ax = reg[0]
        cuts = []
        for lab, src, dst in (('field', fields, f), ('parameter', params, s.config.param_fields)):
            if src is None:
                continue
            ok = isinstance(dst, SDict) and all(x is y for x, y in zip(dst.names, src.names)) and len(dst.vals) == 2
            c.prove(f'trimming: every {lab} is kept under its name', z3.BoolVal(ok))
            if not ok:
                return
            for v0, v in zip(src.vals, dst.vals):
                r, cu = root(v)
                c.prove(f'trimming: every {lab} is cut exactly once, from its own data', z3.BoolVal(r is v0 and len(cu) == 1 and isinstance(cu[0], tuple) and len(cu[0]) == 2))
                if not (r is v0 and len(cu) == 1):
                    return
                cuts.append(cu[0])
        r, cu = root(co['x'])
        c.prove('trimming: the coordinate x is cut from its own data', z3.BoolVal(r is coords['x'] and len(cu) == 1 and isinstance(cu[0], slice)))
        c.prove('trimming: the other coordinate is untouched', z3.BoolVal(co[other] is coords[other] and set(co) == {'x', other}))
        ref = cu[0]
        c.prove('trimming: the cut is a tenth of the points on each side', z3.And(lift(ref.start) == z3.ToInt(z3.ToReal(n.t) * z3.RealVal('1/10')), lift(ref.stop) == z3.ToInt(z3.ToReal(n.t) * z3.RealVal('9/10')), z3.BoolVal(ref.step is None)))
        for k in cuts:
            sx, so = k[xi], k[1 - xi]
            c.prove('trimming: every array is cut along the axis of x with the bounds of the coordinate', z3.BoolVal(isinstance(sx, slice) and sx.step is None and same_bound(c, sx.start, ref.start) and same_bound(c, sx.stop, ref.stop)))
            c.prove('trimming: no array is cut along the other axis', z3.BoolVal(so == slice(None)))
        c.prove('trimming: the configuration carries the trimmed data', z3.BoolVal(s.config.fields_data is f and s.config.coords_1d is co))
        c.prove('trimming: target, grids and spacings are those of the rebuilt tables', z3.BoolVal(s.u is f.vals[0] and s.x.same(Tok('grid', 'x')) and (s.t.same(Tok('grid', 't')) if other == 't' else s.t is None) and s.dx.same(Tok('delta', 'x'))))
        c.prove('trimming: lengths are those of the trimmed target', z3.BoolVal(s.n == ('length', xi)))
    ctx.run(run)
    ctx.assume_note('basic slicing keeps the entries of the chosen index range in order', 'int(n*0.1), int(n*0.9) as exact arithmetic (rounding of n*0.1 is not modelled; both bounds are used for every array alike)')


def g_grids(ctx):
    """coordinate grids: the entry at an index is the coordinate of that index"""
    P = need(CTX, 'ProblemContext')

    def run():
        c = cur()
        nd = [1, 2, 3, 4][c.choose(4)]
        lens = [Int(f'len{i}') for i in range(nd)]
        for l in lens:
            c.assume(l.t >= 1)
        fs = [z3.Function(f'coord{i}', z3.IntSort(), z3.RealSort()) for i in range(nd)]
        names = ['x', 't', 'y', 'z'][:nd]
        co = {a: SArr.make([l.t], 'real', (lambda f: lambda i: f(i))(f)) for a, l, f in zip(names, lens, fs)}
        ip = Interp(ctx.session)
        amap = {a: i for i, a in enumerate(names)}
        idx = [z3.Int(f'i{k}') for k in range(nd)]
        for i, l in zip(idx, lens):
            c.assume(z3.And(i >= 0, i < l.t))
        out = ip.call(P._build_coord_grids, co, amap, tuple(lens))
        c.prove('grids: one grid per axis', z3.BoolVal(set(out) == set(names)))
        for k, a in enumerate(names):
            g = out[a]
            c.prove('grids: a grid has the shape of the problem', z3.And(z3.BoolVal(g.ndim == nd), *[lift(x) == l.t for x, l in zip(g._shape, lens)]))
            v = g[tuple(wrap(i) for i in idx)]
            c.prove('grids: the entry at an index is the coordinate of that index along its axis', lift(v) == fs[k](idx[k]))
            b = ip.call(P._broadcast_coord, co[a], k, tuple(lens))
            c.prove('grids: broadcast coordinate', z3.And(z3.BoolVal(b.ndim == nd), lift(b[tuple(wrap(i) for i in idx)]) == fs[k](idx[k])))
    ctx.run(run)
    ctx.assume_note('reshape/broadcast_to as modelled in npmodel')


def g_registry(ctx):
    """the registry stores the validated data, numbers the axes by position and computes one spacing and one grid per axis"""
    P = need(CTX, 'ProblemContext')

    def run():
        c = cur()
        nd = 2 + c.choose(2)
        names = ['x', 't', 'y'][:nd]
        perm = [[0, 1], [1, 0]][c.choose(2)] if nd == 2 else [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]][c.choose(4)]
        order = [names[i] for i in perm]
        lens = {a: Int('len_' + a) for a in names}
        co = {a: types.SimpleNamespace(shape=(lens[a],), of=a) for a in names}
        fields = {'u': object()}
        s = P.__new__(P)
        s.config = types.SimpleNamespace(param_fields=None)
        calls = []
        ip = Interp(ctx.session)
        ip.contracts[P._validate_registry_names] = lambda ip_, self, *a: calls.append(('names', *a))
        ip.contracts[P._validate_structured_grid] = lambda ip_, self, *a: calls.append(('grid', *a))
        ip.contracts[P._compute_delta] = lambda ip_, cc, a: ('delta', cc, a)
        ip.contracts[P._build_coord_grids] = lambda ip_, cc, am, sh: ('grids', cc, dict(am), tuple(sh))
        ip.call(P._init_variable_registry, s, fields, co, order)
        c.prove('registry: names and grid are validated with the data that is stored', z3.BoolVal(sorted(x[0] for x in calls) == ['grid', 'names'] and all(x[1] is fields and x[2] is co and list(x[3]) == order for x in calls)))
        c.prove('registry: stored data', z3.BoolVal(s.fields is fields and s.coords_1d is co and s.axis_order == order))
        c.prove('registry: axes are numbered by position', z3.BoolVal(s.axis_map == {a: i for i, a in enumerate(order)}))
        c.prove('registry: one spacing per axis, from its own coordinate', z3.BoolVal(set(s.delta) == set(order) and all(s.delta[a][:2] == ('delta', co[a]) for a in order)))
        g = s.coord_grids
        c.prove('registry: grids have the axis lengths in axis order', z3.And(z3.BoolVal(isinstance(g, tuple) and g[1] is co and g[2] == s.axis_map and len(g[3]) == nd), *([lift(v) == lens[a].t for v, a in zip(g[3], order)] if isinstance(g, tuple) and len(g) == 4 else [])))
    ctx.run(run)
    ctx.assume_note('axis orders of two and three axes enumerated')


def groups():
    return [('trimming', g_delete), ('grids', g_grids), ('registry', g_registry)]


# ------------------------------------------------------------------ observed problems
def point_value(k, grids, order):
    v = 0.3 * k + 1
    for j, a in enumerate(sorted(order)):
        v = v + np.sin((j + 1.3 + .2 * k) * grids[a]) * (j + 1) + (.1 + .07 * k) * grids[a] ** 2
    return v


def problem(rng, trim):
    nd = 2 if trim else rng.choice([2, 3, 3, 4])
    axes = (['x'] + rng.sample(['t', 'y', 'z', 's'], nd - 1)) if trim or rng.random() < .6 else rng.sample(['t', 'y', 'z', 's', 'r'], nd)
    r = np.random.RandomState(rng.randrange(2 ** 31))
    L = {a: rng.choice([6, 7, 9, 10, 11, 13, 20]) if nd < 4 else rng.choice([5, 6]) for a in axes}
    co = {}
    for a in axes:
        st = r.uniform(.05, .3) * rng.choice([1, 1, -1])
        co[a] = r.uniform(-1, 1) + st * np.arange(L[a])
    order = rng.sample(axes, nd)
    gr = dict(zip(order, np.meshgrid(*[co[a] for a in order], indexing='ij')))
    names = rng.sample(['u', 'v', 'w', 'rho'], rng.choice([1, 1, 2, 3]))
    pn = rng.sample(['nu', 'kappa', 'alpha'], rng.choice([0, 1, 2]))
    kw = dict(fields_data={f: point_value(i, gr, order) for i, f in enumerate(names)}, coords_1d=co, axis_order=order, lhs_axis=rng.choice(axes), target_field=rng.choice(names), delete_edges=trim)
    if pn:
        kw['param_fields'] = {p: point_value(10 + i, gr, order) for i, p in enumerate(pn)}
    return kw, names, pn


def aligned(ctx, kw, names, pn):
    order, lhs = kw['axis_order'], kw['lhs_axis']
    co = {a: np.asarray(c) for a, c in ctx.coords_1d.items()}
    c0 = kw['coords_1d']
    want = {a: c0[a] for a in order}
    if kw['delete_edges']:
        n = len(c0['x'])
        want['x'] = c0['x'][int(n * .1):int(n * .9)]
    for a in order:
        check(np.array_equal(co[a], want[a]), f'coordinate {a} has {len(co[a])} points instead of {len(want[a])}')
    shape = tuple(len(want[a]) for a in order)
    gr = dict(zip(order, np.meshgrid(*[want[a] for a in order], indexing='ij')))

    def same(what, got, exp):
        check(np.shape(got) == shape, f'{what} has shape {np.shape(got)} on a {shape} grid')
        check(np.allclose(np.asarray(got, dtype=float), exp, rtol=1e-9, atol=1e-9), f'{what} is not aligned with the grid')
    fv = {f: point_value(i, gr, order) for i, f in enumerate(names)}
    step = {a: want[a][1] - want[a][0] for a in order}
    for f in names:
        same(f'field {f}', ctx.fields[f], fv[f])
    u = fv[kw['target_field']]
    same('target', ctx.u, u)
    for a in order:
        same(f'grid of {a}', ctx.coord_grids[a], gr[a])
        check(abs(ctx.delta[a] - step[a]) < 1e-12, f'spacing of {a}')
    rest = [a for a in order if a != lhs]
    prim = 'x' if 'x' in rest else rest[0]
    d = lambda v, a: sga.fd(v, step[a], order.index(a), 1)
    same('target derivative', ctx.ut, d(u, lhs))
    same('ux', ctx.ux, d(u, prim))
    same('uxx', ctx.uxx, d(d(u, prim), prim))
    same('uxxx', ctx.uxxx, d(d(d(u, prim), prim), prim))
    exp = {**fv, **{a: gr[a] for a in rest}, **{p: point_value(10 + i, gr, order) for i, p in enumerate(pn)}, '0': np.zeros(shape)}
    for f in names:
        for a in rest:
            exp[f'{f}_{a}'] = d(fv[f], a)
    check({r[0] for r in ctx.VARS} == set(exp), f'variables {sorted({r[0] for r in ctx.VARS} ^ set(exp))}')
    for nm, _, v in ctx.VARS:
        same(f'variable {nm}', v, exp[nm])
    for nm, _, v in ctx.den:
        same(f'differentiation variable {nm}', v, gr[nm])
    check(ctx.default_terms.shape == (u.size, 1) and np.allclose(ctx.default_terms[:, 0], u.reshape(-1)), 'default term')
    for nm, e in (('default_ux', d(u, prim)), ('default_u2', u ** 2)):
        check(np.allclose(np.asarray(getattr(ctx, nm)).reshape(-1), e.reshape(-1)), nm)
    if 'x' in order:
        same('legacy x', ctx.x, gr['x'])
    if 't' in order:
        same('legacy t', ctx.t, gr['t'])


def case_context(seed, trim):
    import random
    kw, names, pn = problem(random.Random(seed), trim)
    keep = {k: v.copy() for k, v in kw['fields_data'].items()}
    SolverConfig, ProblemContext = need(sga.CFG, 'SolverConfig'), need(CTX, 'ProblemContext')
    ctx = sga.quiet(lambda: ProblemContext(SolverConfig(**{**kw, **({'param_fields': dict(kw['param_fields'])} if pn else {})})))
    for k, v in keep.items():
        check(np.array_equal(v, kw['fields_data'][k]), f'the data of the caller ({k}) were changed')
    aligned(ctx, kw, names, pn)


def case_legacy(seed, trim):
    """arrays given as u_data/x_data/t_data"""
    r = np.random.RandomState(seed)
    SolverConfig, ProblemContext = need(sga.CFG, 'SolverConfig'), need(CTX, 'ProblemContext')
    n, m = r.randint(6, 24), r.randint(5, 12)
    co = dict(x=r.uniform(-1, 1) + .13 * np.arange(n), t=.07 * np.arange(m))
    gr = dict(zip('xt', np.meshgrid(co['x'], co['t'], indexing='ij')))
    kw = dict(coords_1d=co, axis_order=['x', 't'], lhs_axis='t', target_field='u', delete_edges=trim)
    pf = {'nu': point_value(10, gr, ['x', 't'])} if seed % 2 else None
    ctx = sga.quiet(lambda: ProblemContext(SolverConfig(problem_name='custom', u_data=point_value(0, gr, ['x', 't']), x_data=co['x'], t_data=co['t'], delete_edges=trim, param_fields=pf)))
    aligned(ctx, kw, ['u'], ['nu'] if pf else [])


def case_autograd(seed, trim):
    """derivatives of a known smooth model, supplied by the caller"""
    import random, torch
    rng = random.Random(seed)
    kw, names, pn = problem(rng, trim)
    order = kw['axis_order']
    SolverConfig, ProblemContext = need(sga.CFG, 'SolverConfig'), need(CTX, 'ProblemContext')

    def model(k):
        class M(torch.nn.Module):
            in_features = len(order)

            def forward(self, X):
                v = 0
                for j, a in enumerate(sorted(order)):
                    q = X[:, order.index(a)]
                    v = v + torch.sin((j + 1.3 + .2 * k) * q) * (j + 1) + (.1 + .07 * k) * q ** 2
                return v.reshape(-1, 1)
        return M()

    def mk():
        cfg = SolverConfig(**kw, use_autograd=True, normal=False)
        cfg.autograd_models = {f: model(i) for i, f in enumerate(names)}
        return ProblemContext(cfg)
    ctx = sga.quiet(mk)
    gr = ctx.coord_grids

    def der(k, a):
        j = sorted(order).index(a)
        w = j + 1.3 + .2 * k
        return np.cos(w * gr[a]) * w * (j + 1) + 2 * (.1 + .07 * k) * gr[a]
    vars_ = {r[0]: r[2] for r in ctx.VARS}
    lhs = kw['lhs_axis']
    tk = names.index(kw['target_field'])
    check(np.allclose(ctx.ut, der(tk, lhs), atol=2e-4), 'target derivative is not aligned with the grid')
    for k, f in enumerate(names):
        for a in order:
            if a != lhs:
                check(f'{f}_{a}' in vars_, f'no derivative {f}_{a}')
                legacy = len(order) == 2 and len(names) == 1 and set(order) == {'x', 't'} and lhs == 't'
                check(np.shape(vars_[f'{f}_{a}']) == np.shape(gr[a]) and np.allclose(vars_[f'{f}_{a}'], der(k, a), atol=2e-4), f'derivative {f}_{a} is not aligned with the grid')


def cases(tier, rng):
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        f = [case_context, case_context, case_legacy, case_autograd][i % 4]
        yield C(f), dict(seed=s, trim=rng.random() < .6), ('s', s)
        i += 1
