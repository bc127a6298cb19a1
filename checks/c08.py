"""C08: rewards are well-scaled, ordered and fail closed."""
import math
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import disc
from .spec_tree import *

ID = 'C08'
LEVEL = 'proof'
RULE = ('metrics on seeded random targets and predictions of controlled error, and reward_function / r_ridge on randomly generated programs; '
        'non-trivial when (metric, target, prediction) or (program, field) is new')
PDE = 'kd.model.discover.task.pde.pde'
REG = 'kd.model.discover.task.regression'
STR = 'kd.model.discover.stridge'


class Fit:
    """arbitrary non-constant target y and two arbitrary predictions; MSE_k and VAR are the (ghost) aggregates, identified element-wise"""

    def __init__(self, flat=True):
        c = cur()
        self.N = Int('N')
        c.assume(self.N.t >= 1)
        shp = (self.N,) if flat else (self.N, 1)
        self.y = SArr.symbolic('y', shp)
        self.yh = [SArr.symbolic(f'yh{k}', shp) for k in range(2)]
        self.V, self.MEAN = Real('VAR'), Real('MEAN')
        self.M = [Real(f'MSE{k}') for k in range(2)]
        c.assume(z3.And(self.V.t > 0, self.M[0].t >= 0, self.M[1].t >= 0))
        # an aggregate of squares vanishes iff every element does
        w = [z3.Int(fresh_name('w')) for _ in range(1)] + ([z3.IntVal(0)] if not flat else [])
        self.q = [z3.Int('qgen')] + ([z3.IntVal(0)] if not flat else [])
        c.mean_spec = lambda a, ax: self.agg(a, ax, 'mean')
        c.sum_spec = lambda a, ax: self.agg(a, ax, 'sum')
        c.var_spec = lambda a, ax: self.agg(a, ax, 'var')

    def eq(self, s, t):
        s_ = z3.Solver()
        s_.set('timeout', 2000)
        s_.add(s != t)
        return s_.check() == z3.unsat

    def agg(self, a, ax, op):
        if ax is not None and not (a.ndim > 1):
            return None
        if a.sort == 'bool' or ax is not None:
            return None
        e = a.term(*self.q[:a.ndim])
        y = self.y.term(*self.q)
        n = z3.ToReal(self.N.t)
        if op == 'var':
            return wrap(self.V.t) if self.eq(e, y) else None
        val = None
        if self.eq(e, y):
            val = self.MEAN.t
        elif self.eq(e, (y - self.MEAN.t) * (y - self.MEAN.t)):
            val = self.V.t
        elif self.eq(e, e * 0):
            val = z3.RealVal(0)
        else:
            for k in range(2):
                h = self.yh[k].term(*self.q)
                if self.eq(e, (y - h) * (y - h)):
                    val = self.M[k].t
        if val is None:
            return None
        return wrap(val if op == 'mean' else n * val)


def relations(c, nm, F, call, a, lo, hi, n, cap=None):
    """bounds, perfect fit, order: for every target, predictions and complexity"""
    r1, r2, r0 = lift(call(F.y, F.yh[0], n)), lift(call(F.y, F.yh[1], n)), lift(call(F.y, F.y, n))
    if lo is not None:
        c.prove(f'{nm}: never below the minimum', z3.And(r1 >= lo, r0 >= lo))
    c.prove(f'{nm}: never above the maximum', z3.And(r1 <= hi, r0 <= hi))
    c.prove(f'{nm}: a worse fit of the same complexity never gets a larger reward', z3.Implies(F.M[0].t <= F.M[1].t, r1 >= r2))
    c.prove(f'{nm}: no candidate of the same complexity beats a perfect fit', r0 >= r1)
    return r0, r1


def g_pde_metric(name):
    def g(ctx):
        mk = need(PDE, 'make_pde_metric')

        def run():
            c = cur()
            ip = Interp(ctx.session)
            a, n = Real('penalty'), Int('n')
            c.assume(z3.And(a.t >= 0, n.t >= 0))
            metric, inv, mx = ip.call(mk, name, a)
            F = Fit(flat=bool(c.choose(2)))
            lo = {'R2': None}.get(name, lift(inv))
            r0, r1 = relations(c, name, F, lambda *x: ip.call(metric, *x), a, lo, lift(mx), n)
            c.prove(f'{name}: the invalid reward is zero and the maximum is one', z3.And(lift(inv) == 0, lift(mx) == 1))
            if name == 'pde_reward':
                f = z3.If(1 - a.t * z3.ToReal(n.t) > 0, 1 - a.t * z3.ToReal(n.t), 0)
                c.prove('pde_reward: a perfect fit gets the maximum for its complexity', r0 == f)
                c.prove('pde_reward: the maximum is reached by a perfect fit without penalty', z3.Implies(a.t * z3.ToReal(n.t) == 0, r0 == lift(mx)))
                s = ssqrt(F.M[0].t / F.V.t)
                c.prove('pde_reward: the value is the penalised inverse of one plus the normalised error', r1 * (1 + s) == f)
            else:
                c.prove(f'{name}: a perfect fit gets the maximum', r0 == lift(mx))
        ctx.run(run)
        ctx.assume_note('non-constant target (variance > 0)', 'aggregates mean/var/sum are mathematical reals identified element by element with (y-y_hat)^2, y, (y-mean)^2')
    return g


def g_unknown(ctx):
    mk = need(PDE, 'make_pde_metric')

    def run():
        c = cur()
        ip = Interp(ctx.session)
        try:
            ip.call(mk, 'no_such_metric', 0.01)
            ok = False
        except PyRaise as e:
            ok = isinstance(e.exc, (AssertionError, ValueError, KeyError))
        c.prove('make_pde_metric: an unknown metric is rejected', z3.BoolVal(ok))
    ctx.run(run)


def g_reg_metric(ctx):
    mk = need(REG, 'make_regression_metric')

    def run():
        c = cur()
        ip = Interp(ctx.session)
        a, n = Real('penalty'), Int('n')
        c.assume(n.t >= 0)
        metric, inv, mx = ip.call(mk, 'inv_nrmse', a)
        F = Fit(flat=bool(c.choose(2)))
        if c.choose(2):
            # constant target: the documented variance floor applies
            F.V = Real('VAR_any')
            c.assume(F.V.t >= 0)
        r0, r1 = relations(c, 'regression', F, lambda *x: ip.call(metric, *x), a, lift(inv), lift(mx), n)
        f = z3.If(z3.And(a.t > 0, n.t > 0), z3.If(1 - a.t * z3.ToReal(n.t) > 0, 1 - a.t * z3.ToReal(n.t), 0), 1)
        c.prove('regression: a perfect fit gets the maximum for its complexity', r0 == f)
        c.prove('regression: a perfect fit without penalty gets the maximum', z3.Implies(z3.Or(a.t <= 0, n.t == 0), r0 == lift(mx)))
        c.prove('regression: the invalid reward is zero and the maximum is one', z3.And(lift(inv) == 0, lift(mx) == 1))
    ctx.run(run)


# ---- reward functions against an arbitrary candidate
class W_:
    """fitted coefficient list of arbitrary length"""

    def __init__(self):
        self.n = Int('nw')
        cur().assume(self.n.t >= 1)

    def __symlen__(self):
        return self.n


def g_reward(modname, clsname, multi=None):
    def g(ctx):
        C = need(modname, clsname)

        def run():
            c = cur()
            ip = Interp(ctx.session)
            yh, yr, w, ut = [object() for _ in range(4)]
            w = W_()
            inv = c.decide(Bool('flagged_invalid').t)
            log = []

            class P:
                invalid = None
                traversal = W_()

                def execute(self, u, x, ut_, **k):
                    log.append(('exec', u is task.u, x is task.x, ut_ is task.ut, tuple(k.items())))
                    self.invalid = inv
                    return (0, None, [0]) if inv else (yh, yr, w)

                def execute_direct(self, x):
                    log.append(('exec', True, x is task.x, True, ()))
                    self.invalid = inv
                    if not inv and none:
                        return None, None, [1.0]
                    return yh, None, w
            none = clsname == 'RegressionTask' and bool(c.choose(2))
            task = C.__new__(C)
            task.u, task.x, task.ut, task.y = object(), object(), ut, ut
            task.invalid_reward, task.max_reward = Real('invalid_reward'), Real('max_reward')
            task.wf_flag = False
            R = Real('metric_value')

            def metric(*a, **k):
                log.append(('metric', a, k))
                return R
            task.metric = metric
            p = P()
            out = ip.call(C.reward_function, task, p)
            ex = [l for l in log if l[0] == 'exec']
            ms = [l for l in log if l[0] == 'metric']
            nm = clsname
            c.prove(f'{nm}: the candidate is executed once on the data of the task', z3.BoolVal(len(ex) == 1 and all(ex[0][1:4])))
            c.prove(f'{nm}: returns reward, coefficients, prediction and term matrix', z3.BoolVal(isinstance(out, tuple) and len(out) == 4))
            r = lift(out[0])
            if inv or none:
                c.prove(f'{nm}: an invalid candidate gets the declared invalid reward', r == task.invalid_reward.t)
                c.prove(f'{nm}: an invalid candidate is not scored and carries no prediction', z3.BoolVal(not ms and out[2] is None and out[3] is None))
            else:
                a = ms[0][1] if ms else ()
                k = ms[0][2] if ms else {}
                cx = a[2] if len(a) > 2 else k.get('n', k.get('n_tokens', 0))
                want = p.traversal.n if clsname == 'RegressionTask' else w.n
                c.prove(f'{nm}: a valid candidate is scored by the metric of the task on target and prediction', z3.And(
                    z3.BoolVal(len(ms) == 1 and len(a) >= 2 and a[0] is ut and a[1] is yh), r == R.t))
                c.prove(f'{nm}: the complexity passed to the metric is the size of the candidate', lift(cx) == want.t)
                c.prove(f'{nm}: coefficients and prediction returned are those of the candidate', z3.BoolVal(out[1] is w and out[2] is yh))
        ctx.run(run)
        ctx.assume_note('Program.execute / execute_direct: contract "sets p.invalid, returns prediction, term matrix, coefficients" (C06, C07)')
    return g


def g_rridge(ctx):
    Prog = need('kd.model.discover.program', 'Program')

    def run():
        c = cur()
        ip = Interp(ctx.session)
        p = Prog.__new__(Prog)
        vals = [Real('reward'), object(), object(), object()]
        log = []

        class T:
            def reward_function(self, q):
                log.append(q is p)
                return tuple(vals)
        old = Prog.task
        Prog.task = T()
        p.optimize_inner_constant = lambda *a, **k: log.append('opt')
        try:
            fn = Prog.__dict__['r_ridge']
            fn = getattr(fn, '_method', None) or getattr(fn, 'func', None) or getattr(fn, 'fget', None) or getattr(fn, 'getter', None) or fn
            r = ip.run_function(fn, [p], {})
        finally:
            Prog.task = old
        c.prove('r_ridge: the reward is the one the task computed for this program', z3.And(lift(r) == vals[0].t, z3.BoolVal(log.count(True) == 1 and False not in log)))
        c.prove('r_ridge: coefficients, prediction and term matrix are kept with the program', z3.BoolVal(p.w is vals[1] and p.y_hat_rhs is vals[2] and p.Theta is vals[3]))
    ctx.run(run)


def g_log(ctx):
    """a candidate is flagged iff its own evaluation raised a floating-point warning (or, with torch, produced no value)"""
    IL, ue, uet = need(STR, 'InvalidLog', 'unsafe_execute', 'unsafe_execute_torch')
    pe, pet = need('kd.model.discover.execute', 'python_execute', 'python_execute_torch')
    m = need(STR)

    def run():
        c = cur()
        log = IL()
        warned = [bool(c.choose(2)), bool(c.choose(2))]      # two warnings may or may not happen
        ip = Interp(ctx.session)
        Y = object()
        seen = []

        def body(ip_, tr, u, x):
            seen.append((tr, u, x))
            for k, w in enumerate(warned):
                if w:
                    ip_.call(IL.write, log, 'Warning: %s encountered in %s' % (('divide', 'log') if k == 0 else ('overflow', 'exp')))
            return Y
        ip.contracts[pe] = body
        old = m.invalid_log
        m.invalid_log = log
        try:
            tr, u, x = [object() for _ in range(3)]
            y, invalid, e1, e2 = ip.call(ue, tr, u, x)
            c.prove('unsafe_execute: the value is that of the evaluator on the same expression and data', z3.BoolVal(y is Y and seen == [(tr, u, x)]))
            c.prove('unsafe_execute: flagged exactly when a floating-point warning occurred during this evaluation', z3.BoolVal(bool(invalid) == any(warned)))
            first = ('divide', 'log') if warned[0] else ('overflow', 'exp') if warned[1] else (None, None)
            c.prove('unsafe_execute: reports the first warning', z3.BoolVal({e1, e2} == set(first)))
            c.prove('unsafe_execute: no flag is left behind for the next evaluation', z3.BoolVal(not log.new_entry))
            warned2, warned[:] = list(warned), [False, False]
            y, invalid, e1, e2 = ip.call(ue, tr, u, x)
            c.prove('unsafe_execute: a clean evaluation after a failing one is valid', z3.BoolVal(not invalid and e1 is None and e2 is None))
        finally:
            m.invalid_log = old
    ctx.run(run)

    def run2():
        c = cur()
        log = IL()
        ip = Interp(ctx.session)
        none = bool(c.choose(2))
        Y = None if none else object()
        ip.contracts[pet] = lambda ip_, tr, u, x: Y
        old = m.invalid_log
        m.invalid_log = log
        try:
            y, invalid, e1, e2 = ip.call(uet, object(), object(), object())
            c.prove('unsafe_execute_torch: flagged exactly when the evaluation produced no value', z3.BoolVal(bool(invalid) == none and (none or y is Y)))
            c.prove('unsafe_execute_torch: no flag is left behind for the next evaluation', z3.BoolVal(not log.new_entry))
        finally:
            m.invalid_log = old
    ctx.run(run2)


def groups():
    return [('pde_reward', g_pde_metric('pde_reward')), ('inv_nrmse', g_pde_metric('inv_nrmse')), ('R2', g_pde_metric('R2')), ('unknown', g_unknown), ('regression', g_reg_metric),
            ('PDETask', g_reward(PDE, 'PDETask')), ('PDEPINNTask', g_reward('kd.model.discover.task.pde.pde_pinn', 'PDEPINNTask')),
            ('RegressionTask', g_reward(REG, 'RegressionTask')), ('r_ridge', g_rridge), ('invalid_log', g_log)]


# ------------------------------------------------------------------ run-time contracts (bounded)
def case_metric(p):
    rg = np.random.RandomState(p['seed'])
    n = p['n']
    y = rg.normal(size=(n, 1)) * 10.0 ** p['scale'] + p['off']
    if p['name'] == 'regression':
        metric, inv, mx = need(REG, 'make_regression_metric')('inv_nrmse', parsimony_coeff=p['pen'])
    else:
        metric, inv, mx = need(PDE, 'make_pde_metric')(p['name'], p['pen'])
    d = rg.normal(size=(n, 1))
    if p['name'] == 'correlation':
        if n < 3:
            return
        r = metric(y, d, 3)
        check(-1 - 1e-9 <= r <= mx + 1e-9, lambda: f'correlation reward {r}')
        check(abs(metric(y, y, 3) - mx) < 1e-9, 'a perfect fit does not get the maximum')
        return
    for k in p['k']:
        rs = [metric(y, y + s * d * np.std(y), k) for s in (0., 1e-6, 1e-3, .1, 1., 10., 1e4)]
        check(all(np.isfinite(rs)), lambda: f'rewards {rs}')
        check(all(a >= b - 1e-12 for a, b in zip(rs, rs[1:])), lambda: f'{p["name"]} (penalty {p["pen"]}, complexity {k}): rewards {rs} of increasingly bad fits are not ordered')
        check(max(rs) <= mx + 1e-12, lambda: f'reward {max(rs)} above the maximum {mx}')
        if p['name'] != 'R2':
            check(min(rs) >= inv - 1e-12, lambda: f'{p["name"]} (penalty {p["pen"]}, complexity {k}): reward {min(rs)} below the minimum {inv}')
        if p['pen'] == 0 or k == 0:
            check(abs(rs[0] - mx) < 1e-9, lambda: f'perfect fit gets {rs[0]}')
    ks = [metric(y, y + .3 * d * np.std(y), k) for k in sorted(p['k'])]
    check(all(a >= b - 1e-12 for a, b in zip(ks, ks[1:])), lambda: f'more complex candidates of the same fit get larger rewards: {ks}')


def regression_program(p):
    Prog, ft = need('kd.model.discover.program', 'Program', 'from_tokens')
    Task = need(REG, 'RegressionTask')
    t = Task(function_set=p['ops'], dataset='x', parsimony_coeff=p['pen'])
    rg = np.random.RandomState(p['seed'])
    X = [rg.uniform(-2, 2, p['n']) for _ in range(2)]
    t.load_data(dict(X=X, y=rg.normal(size=p['n']), n_input_var=2))
    Prog.clear_cache()
    Prog.set_task(t)
    Prog.set_execute(p.get('protected', False)) if False else None
    Prog.execute_function = staticmethod(need(STR, 'unsafe_execute'))
    Prog.n_objects, Prog.default_terms = 1, []
    return t, Prog, ft, X, rg


def case_regression(p):
    t, Prog, ft, X, rg = regression_program(p)
    toks = t.library.tokens
    ar = [a.arity for a in toks]
    import random
    r_ = random.Random(p['seed'])
    for _ in range(p['m']):
        s = disc.random_expr(r_, ar, r_.randint(1, 12))
        q = ft(np.array(s, dtype=np.int32), skip_cache=True)
        name = ','.join(toks[i].name for i in s)
        with np.errstate(all='ignore'):
            val = ev(s, toks, X)
        with np.errstate(all='raise'):
            try:
                ev(s, toks, X)
                bad = False
            except FloatingPointError:
                bad = True
        # perfect target
        if not bad and np.ndim(val) and np.var(val) > 1e-6:
            t.y = np.asarray(val, float).reshape(-1, 1)
            out = t.reward_function(q)
            want = max(0., 1 - p['pen'] * len(s)) if p['pen'] > 0 else 1.
            check(abs(out[0] - want) < 1e-6, lambda: f'{name}: its own values as target are rewarded {out[0]}, expected {want}')
            t.y = t.y + .2 * np.std(t.y) * rg.normal(size=t.y.shape)
            check(0 <= t.reward_function(q)[0] <= out[0] + 1e-12, f'{name}: a noisy target is rewarded more than an exact one')
        out = t.reward_function(q)
        if bad:
            check(out[0] == t.invalid_reward and out[2] is None, lambda: f'{name}: evaluation raises a floating-point error but the reward is {out[0]}')
        else:
            check(not q.invalid, lambda: f'{name}: clean evaluation flagged invalid')
            check(np.isfinite(out[0]) and 0 <= out[0] <= 1, lambda: f'{name}: reward {out[0]}')


def ev(s, toks, X):
    it = iter(s)

    def rec():
        t = toks[next(it)]
        a = [rec() for _ in range(t.arity)]
        if t.input_var is not None:
            return np.asarray(X[t.input_var], float).reshape(-1, 1)
        return t.function(*a)
    return rec()


def case_pde(p):
    """reward of PDE candidates: bounds, fail closed, a target in the span of the terms is rewarded the penalised maximum"""
    from . import c06
    Prog, ft = need('kd.model.discover.program', 'Program', 'from_tokens')
    Task = need(PDE, 'PDETask')
    toks, u, x = c06.setting(p)
    ue = need(STR, 'unsafe_execute')
    names = list(c06.NUM_OPS[p['ops']])
    t = Task(function_set=names, dataset='x', metric=p['metric'], metric_params=(p['pen'],), spatial_error=False, max_depth=20, use_torch=False)
    t.load_data(dict(u=u[0], X=x, ut=u[0].copy(), n_input_dim=p['ndim']))
    Prog.clear_cache()
    Prog.set_task(t)
    Prog.const_optimizer = None
    Prog.execute_function = staticmethod(ue)
    Prog.n_objects, Prog.default_terms = 1, []
    import random
    r_ = random.Random(p['seed'])
    rg = np.random.RandomState(p['seed'])
    L = t.library.tokens
    for _ in range(p['m']):
        s = list(c06.rand_valid(r_, L, r_.randint(3, 14)))
        q = ft(np.array(s, dtype=np.int32), skip_cache=True)
        name = ','.join(L[i].name for i in s)
        ut0 = rg.normal(size=u[0].shape).reshape(-1, 1)
        t.ut = ut0
        out = t.reward_function(q)
        check(np.isfinite(out[0]) and (out[0] >= t.invalid_reward - 1e-9 or p['metric'] == 'R2') and out[0] <= t.max_reward + 1e-9, lambda: f'{name}: reward {out[0]}')
        if q.invalid:
            check(out[0] == t.invalid_reward and out[2] is None, lambda: f'{name}: flagged invalid but rewarded {out[0]}')
            continue
        th = np.asarray(out[3])
        A = th.T @ th
        if np.linalg.cond(A) > 1e8:
            continue
        w = rg.uniform(.5, 2, th.shape[1])
        t.ut = (th @ w).reshape(-1, 1)
        if np.var(t.ut) < 1e-8:
            continue
        q2 = ft(np.array(s, dtype=np.int32), skip_cache=True)
        best = t.reward_function(q2)
        want = max(0., 1 - p['pen'] * th.shape[1]) if p['metric'] == 'pde_reward' else 1.
        check(abs(best[0] - want) < 1e-4, lambda: f'{name}: a target that is exactly a combination of its terms is rewarded {best[0]}, expected {want}')
        check(best[0] >= out[0] - 1e-9, lambda: f'{name}: exact target rewarded {best[0]}, unrelated target {out[0]}')
        check(np.allclose(best[1], w, rtol=1e-3), lambda: f'{name}: coefficients {best[1]} expected {w}')


def cases(tier, rng):
    big = tier != 'quick'
    for it in range(60 if not big else 1000):
        for name in ('pde_reward', 'inv_nrmse', 'R2', 'correlation', 'regression'):
            q = dict(name=name, seed=it, n=rng.choice([2, 3, 10, 100]), scale=rng.randint(-5, 5), off=rng.choice([0., 1., -30.]), pen=rng.choice([0., .01, .05, .3, .5]),
                     k=[0, 1, 2, 3, 5, 10, 30, 150])
            yield case_metric, q, (name, it)
    sets = [['add', 'sub', 'mul', 'div', 'n2', 'exp', 'log'], ['add', 'mul', 'sin', 'cos', 'sqrt', 'inv'], ['sub', 'div', 'exp', 'n3']]
    for it in range(12 if not big else 200):
        yield case_regression, dict(ops=rng.choice(sets), pen=rng.choice([0., .02, .2]), seed=it, n=rng.choice([5, 40]), m=25), ('reg', it)
    for it in range(10 if not big else 150):
        ops, nd = rng.choice([('1', 1), ('1b', 1), ('2', 2), ('3', 3)])
        yield case_pde, dict(ops=ops, ndim=nd, metric=rng.choice(['pde_reward', 'pde_reward', 'inv_nrmse', 'R2']), pen=rng.choice([.01, .1, .4]), seed=it, m=15), ('pde', it)
