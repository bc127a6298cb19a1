"""C31: inputs of the genetic search follow the documented precedence."""
import builtins, types, dataclasses
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import sga
from .c12 import C

ID = 'C31'
LEVEL = 'proof'
BUDGET = {'quick': 30, 'thorough': 600}
RULE = 'every subset of user settings with every kind of dataset, and seeded sequences of fits on one estimator; non-trivial when the sequence is new'
KD = 'kd.model.kd_sga'
PLAIN = ['sga_run', 'num', 'depth', 'width', 'p_var', 'p_mute', 'p_cro', 'seed', 'use_autograd', 'max_epoch', 'use_metadata', 'delete_edges', 'primary_spatial_axis']


class V:
    """opaque setting (a non-empty text or a number: true in a condition)"""

    def __init__(self, what):
        self.what = what

    def __bool__(self):
        return True

    def __format__(self, s):
        return self.what

    def __repr__(self):
        return f'<{self.what}>'


def capture(ip, seen):
    sgam = need(KD)

    def cfg(ip_, *a, **k):
        o = types.SimpleNamespace(**k)
        seen.append((a, k, o))
        return o
    ip.contracts[sgam.SolverConfig] = cfg


def classes(seen, details=True):
    class Ctx:
        def __init__(self, config):
            self.config = config
            seen.append(('context', config))

    class Sol:
        def __init__(self, config):
            self.config = config
            seen.append(('solver', config))
            if details:
                self.best_equation_details_ = ('details of', config)

        def run(self, context):
            seen.append(('run', context))
            return ('text of', context), ('score of', context)
    return Ctx, Sol


def g_fit(ctx):
    """one fit: every setting comes from the user, else from the dataset, else from the default; nothing else of the estimator changes"""
    sgam = need(KD)
    KD_SGA = need(KD, 'KD_SGA')
    ad = need('kd.model.sga.adapter')
    PDEDataset = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        m = KD_SGA.__new__(KD_SGA)
        user = {k: V(k) for k in PLAIN}
        for k, v in user.items():
            setattr(m, k, v)
        ut, ul = (V('user target') if c.choose(2) else None), (V('user evolution axis') if c.choose(2) else None)
        m.target_field, m.lhs_axis = ut, ul
        # what an earlier fit may have left behind
        if c.choose(2):
            for k in ('best_pde_', 'best_score_', 'context_', 'config_', 'dataset_', 'best_equation_details_'):
                setattr(m, k, V('stale ' + k))
        before = {k: v for k, v in vars(m).items() if not k.endswith('_')}
        ds = PDEDataset.__new__(PDEDataset)
        al = c.choose(4)
        if al:
            ds.aliases = [None, {'sga_problem': V('alias sga'), 'legacy': V('alias legacy')}, {'legacy': V('alias legacy')}, {}][al]
        data = {}
        if c.choose(2):
            data.update(fields_data=V('fields'), coords_1d=V('coords'), axis_order=V('order'))
            dt, dl = V('dataset target'), V('dataset evolution axis')
            data.update(target_field=dt, lhs_axis=dl)
        else:
            dt = dl = None
            data.update(u_data=V('u'), x_data=V('x'), t_data=V('t'))
        if c.choose(2):
            data['param_fields'] = V('params')
        if c.choose(2):
            data['problem_name'] = V('dataset name')
        pn = V('problem name') if c.choose(2) else None
        ip = Interp(ctx.session)
        cfgs, seen = [], []
        capture(ip, cfgs)
        given = dict(data)
        ip.contracts[ad.SGADataAdapter.to_solver_kwargs] = lambda ip_, self: dict(data) if self.dataset is ds else None
        ip.contracts[builtins.print] = lambda ip_, *a, **k: None
        Ctx, Sol = classes(seen)
        try:
            r = ip.call(KD_SGA.fit_dataset, m, ds, problem_name=pn, context_cls=Ctx, solver_cls=Sol)
        except PyRaise as e:
            c.prove('fit: any combination of settings and dataset is accepted', z3.BoolVal(False))
            return
        c.prove('fit: one configuration, one context, one search', z3.BoolVal(len(cfgs) == 1 and not cfgs[0][0] and [x[0] for x in seen] == ['context', 'solver', 'run']))
        if len(cfgs) != 1:
            return
        k = cfgs[0][1]
        for n in PLAIN:
            c.prove('fit: settings of the estimator reach the solver unchanged', z3.BoolVal(k.get(n) is user[n]))
        c.prove('fit: target field: user, else dataset, else u', z3.BoolVal((k.get('target_field') is (ut or dt)) if (ut or dt) else k.get('target_field') == 'u'))
        c.prove('fit: evolution axis: user, else dataset, else t', z3.BoolVal((k.get('lhs_axis') is (ul or dl)) if (ul or dl) else k.get('lhs_axis') == 't'))
        for n in ('fields_data', 'coords_1d', 'axis_order', 'u_data', 'x_data', 't_data', 'param_fields'):
            c.prove('fit: the data are those of the dataset', z3.BoolVal(k.get(n) is given.get(n)))
        a = getattr(ds, 'aliases', None)
        a = a if isinstance(a, dict) else {}
        want = pn or a.get('sga_problem') or a.get('legacy') or given.get('problem_name') or 'custom_dataset'
        c.prove('fit: problem name: user, else aliases, else dataset, else default', z3.BoolVal(k.get('problem_name') is want or (isinstance(want, str) and k.get('problem_name') == want)))
        allowed = set(PLAIN) | set(given) | {'target_field', 'lhs_axis', 'problem_name'}
        c.prove('fit: no other setting is passed', z3.BoolVal(set(k) <= allowed))
        o = cfgs[0][2]
        c.prove('fit: context and solver share this configuration', z3.BoolVal(seen[0][1] is o and seen[1][1] is o and seen[2][1].config is o))
        c.prove('fit: settings of the estimator are not changed by fitting', z3.BoolVal(all(vars(m).get(n, 0) is v for n, v in before.items())))
        cx = seen[2][1]
        c.prove('fit: the results are those of this fit', z3.BoolVal(r is m and m.best_pde_ == ('text of', cx) and m.best_score_ == ('score of', cx) and m.context_ is cx and m.config_ is o and m.dataset_ is ds and m.best_equation_details_ == ('details of', o)))
    ctx.run(run)
    ctx.assume_note('set settings are true in a condition (an empty text counts as unset)')


def g_adapter(ctx):
    """what the adapter hands over is the dataset's own payload"""
    ad = need('kd.model.sga.adapter')
    PDEDataset = need('kd.dataset', 'PDEDataset')

    def run():
        c = cur()
        ds = PDEDataset.__new__(PDEDataset)
        nm = [V('name'), None][c.choose(2)]
        ds.equation_name = nm
        conv = []
        ip = Interp(ctx.session)

        class A:
            def __init__(self, of):
                self.of = of

            def flatten(self):
                return self

            def __symlen__(self):
                return wrap(z3.Int('len_' + self.of))

            @property
            def shape(self):
                return (wrap(z3.Int('len_x')), wrap(z3.Int('len_t')))
        ip.contracts[np.asarray] = lambda ip_, x, *a, **k: x
        pf = c.choose(3)
        ds.param_fields = [{}, {'nu': A('nu')}, {'nu': A('nu'), 'k': A('k')}][pf]
        mode = c.choose(2)
        if mode:
            fd, co = {'u': A('u'), 'v': A('v')}, {'x': A('x'), 't': A('t')}
            ds.fields_data, ds.coords_1d, ds.axis_order, ds.target_field, ds.lhs_axis = fd, co, ['t', 'x'], V('target'), V('lhs')
        else:
            ds.fields_data = ds.coords_1d = ds.axis_order = ds.target_field = ds.lhs_axis = None
            ds.x, ds.t, ds.usol = A('x'), A('t'), A('u')
        k = ip.call(ad.SGADataAdapter.to_solver_kwargs, ad.SGADataAdapter(ds))
        same = lambda p, q: isinstance(p, dict) and set(p) == set(q) and all(p[x] is q[x] for x in q) and p is not q
        if mode:
            c.prove('adapter: fields, coordinates and axis order are those of the dataset (in new containers)', z3.BoolVal(same(k['fields_data'], fd) and same(k['coords_1d'], co) and k['axis_order'] == ['t', 'x'] and k['axis_order'] is not ds.axis_order))
            c.prove('adapter: target and evolution axis are those of the dataset', z3.BoolVal(k['target_field'] is ds.target_field and k['lhs_axis'] is ds.lhs_axis))
        else:
            c.prove('adapter: legacy arrays', z3.BoolVal(k['u_data'] is ds.usol and k['x_data'] is ds.x and k['t_data'] is ds.t and 'target_field' not in k and 'fields_data' not in k))
        c.prove('adapter: parameter fields are handed over', z3.BoolVal(same(k.get('param_fields'), ds.param_fields) if pf else 'param_fields' not in k))
        c.prove('adapter: name', z3.BoolVal(k['problem_name'] is nm if nm else k['problem_name'] == 'custom_dataset'))
        if not mode:
            ds.usol = A('u')
            type(ds.usol).shape = property(lambda self: (wrap(z3.Int('len_x')), wrap(z3.Int('len_t') + 1)))
            try:
                ip.call(ad.SGADataAdapter.to_solver_kwargs, ad.SGADataAdapter(ds))
                c.prove('adapter: inconsistent shapes are refused', z3.BoolVal(False))
            except PyRaise:
                pass
    ctx.run(run)


def groups():
    return [('fit', g_fit), ('adapter', g_adapter)]


# ------------------------------------------------------------------ sequences of fits
def dataset(rng, i):
    PDEDataset = need('kd.dataset', 'PDEDataset')
    r = np.random.RandomState(rng.randrange(2 ** 31))
    kind = rng.choice(['legacy', 'nd', 'nd', 'nd3'])
    n, m = rng.choice([6, 7]), rng.choice([5, 8])
    x, t = np.linspace(0, 1, n), np.linspace(0, 2, m)
    pn = rng.sample(['nu', 'kappa'], rng.choice([0, 0, 1, 2]))
    name = rng.choice(['', f'eq{i}', 'burgers'])
    if kind == 'legacy':
        u = r.rand(n, m)
        d = PDEDataset(equation_name=name, x=x, t=t, usol=u, param_fields={p: r.rand(n, m) for p in pn})
    else:
        axes = ['x', 't'] if kind == 'nd' else ['x', 'y', 't']
        order = rng.sample(axes, len(axes))
        co = {'x': x, 't': t, 'y': np.linspace(1, 2, 5)}
        sh = tuple(len(co[a]) for a in order)
        fl = rng.sample(['u', 'v', 'rho'], rng.choice([1, 2]))
        d = PDEDataset(equation_name=name, fields_data={f: r.rand(*sh) for f in fl}, coords_1d={a: co[a] for a in axes}, axis_order=order, target_field=rng.choice(fl), lhs_axis=rng.choice(axes), param_fields={p: r.rand(*sh) for p in pn})
    if rng.random() < .3:
        d.aliases = rng.choice([{'sga_problem': 'kdv'}, {'legacy': 'chafee-infante'}, {'sga_problem': 'burgers', 'legacy': 'kdv'}, {}, None])
    return d


def user_settings(rng):
    pool = dict(sga_run=lambda: rng.randrange(1, 9), num=lambda: rng.randrange(2, 30), depth=lambda: rng.randrange(2, 6), width=lambda: rng.randrange(1, 7), p_var=lambda: rng.random(), p_mute=lambda: rng.random(),
                p_cro=lambda: rng.random(), seed=lambda: rng.randrange(999), use_autograd=lambda: True, max_epoch=lambda: rng.randrange(1000, 99999), use_metadata=lambda: True, delete_edges=lambda: True,
                target_field=lambda: rng.choice(['u', 'v', 'w']), lhs_axis=lambda: rng.choice(['x', 't', 'y']), primary_spatial_axis=lambda: rng.choice(['x', 'y']))
    return {k: pool[k]() for k in rng.sample(sorted(pool), rng.choice([0, 1, 2, 4, 15]))}


def expected(user, d, pn):
    SolverConfig = need(sga.CFG, 'SolverConfig')
    dflt = dict(sga_run=100, num=20, depth=4, width=5, p_var=.5, p_mute=.3, p_cro=.5, seed=0, use_autograd=False, max_epoch=100000, use_metadata=False, delete_edges=False, primary_spatial_axis=None)
    e = {k: user.get(k, v) for k, v in dflt.items()}
    e['target_field'] = user.get('target_field') or d.target_field or 'u'
    e['lhs_axis'] = user.get('lhs_axis') or d.lhs_axis or 't'
    a = getattr(d, 'aliases', None)
    a = a if isinstance(a, dict) else {}
    e['problem_name'] = pn or a.get('sga_problem') or a.get('legacy') or d.equation_name or 'custom_dataset'
    for f in dataclasses.fields(SolverConfig):
        if f.name not in e and f.name not in ('u_data', 'x_data', 't_data', 'fields_data', 'coords_1d', 'axis_order', 'param_fields', 'model_path', 'has_ground_truth'):
            e[f.name] = f.default
    return e


def eq(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is not None and b is not None and np.array_equal(a, b)
    return type(a) == type(b) and a == b


def case_history(seed):
    import random
    rng = random.Random(seed)
    KD_SGA = need(KD, 'KD_SGA')
    user = user_settings(rng)
    m = KD_SGA(**user)
    P0 = dict(vars(m))
    for i in range(rng.choice([1, 2, 3])):
        d = dataset(rng, i)
        pn = rng.choice([None, None, 'mine', 'kdv'])
        snap = {k: (v.copy() if isinstance(v, np.ndarray) else {a: b.copy() for a, b in v.items()} if isinstance(v, dict) and v and isinstance(next(iter(v.values())), np.ndarray) else v) for k, v in vars(d).items()}
        seen = []
        Ctx, Sol = classes(seen, rng.random() < .8)
        m.fit_dataset(d, problem_name=pn, context_cls=Ctx, solver_cls=Sol) if False else sga.quiet(m.fit_dataset, d, problem_name=pn, context_cls=Ctx, solver_cls=Sol)
        cfg = seen[0][1]
        for k, v in expected(user, d, pn).items():
            check(eq(getattr(cfg, k), v), f'fit {i}: setting {k} is {getattr(cfg, k)!r} instead of {v!r}', f'setting {k}')
        if d.fields_data is not None:
            for k in ('fields_data', 'coords_1d', 'axis_order'):
                check(eq(getattr(cfg, k), getattr(d, k)), f'fit {i}: {k} is not that of the dataset')
            check(cfg.u_data is None, f'fit {i}: legacy arrays of another dataset')
        else:
            check(cfg.fields_data is None and cfg.coords_1d is None and cfg.axis_order is None, f'fit {i}: structured data of another dataset')
            check(eq(cfg.u_data, d.usol) and eq(cfg.x_data, d.x) and eq(cfg.t_data, d.t), f'fit {i}: arrays are not those of the dataset')
        check(eq(cfg.param_fields or {}, d.param_fields), f'fit {i}: parameter fields {sorted(cfg.param_fields or {})} instead of {sorted(d.param_fields)}')
        check(all(x[1] is cfg for x in seen[:2]), f'fit {i}: context and solver have different configurations')
        for k, v in P0.items():
            check(vars(m)[k] is v or vars(m)[k] == v, f'fit {i} changed the setting {k} of the estimator')
        for k, v in snap.items():
            check(eq(vars(d)[k], v) if isinstance(v, (np.ndarray, dict)) else vars(d)[k] == v, f'fit {i} changed {k} of the dataset')
        check(m.dataset_ is d and m.config_ is cfg and m.context_.config is cfg and m.best_pde_ == ('text of', m.context_) and m.best_score_ == ('score of', m.context_), f'fit {i}: results of another fit')
        check(m.best_equation_details_ in (None, ('details of', cfg)), f'fit {i}: details of another fit')


def case_real(seed):
    """two real fits on different datasets with trimming: the second equals a fresh estimator's fit"""
    import random
    rng = random.Random(seed)
    KD_SGA = need(KD, 'KD_SGA')
    PDEDataset = need('kd.dataset', 'PDEDataset')

    def ds(k):
        f, c, o, ex = sga.problem(k, rng.choice(['2d', 'multi']))
        return PDEDataset(equation_name=f'e{k}', fields_data=f, coords_1d=c, axis_order=o, target_field='u', lhs_axis='t', param_fields=ex.get('param_fields'))
    kw = dict(sga_run=1, num=3, depth=2, width=2, seed=seed % 100, delete_edges=rng.random() < .5)
    if rng.random() < .5:
        kw.update(target_field='u')
    if rng.random() < .3:
        kw.update(lhs_axis='x')
    d1, d2 = ds(1), ds(2)
    m = KD_SGA(**kw)
    out = []
    for d in (d1, d2, d1):
        b = {k: v.copy() for k, v in d.fields_data.items()}
        import random as rr
        sga.quiet(m.fit_dataset, d)
        out.append((m.best_pde_, m.best_score_, m.config_.lhs_axis, [r[0] for r in m.context_.VARS], m.context_.u.shape))
        for k, v in b.items():
            check(np.array_equal(v, d.fields_data[k]), f'fitting changed field {k} of the dataset')
    check(out[0] == out[2], f'fitting the first dataset again gives {out[2]} instead of {out[0]}')
    f = KD_SGA(**kw)
    sga.quiet(f.fit_dataset, d2)
    check((f.best_pde_, f.best_score_) == out[1][:2], 'a second fit differs from that of a fresh estimator')


def cases(tier, rng):
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        yield C(case_real if i % 25 == 24 else case_history), dict(seed=s), ('s', s)
        i += 1
