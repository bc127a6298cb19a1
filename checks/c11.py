"""C11: sparse regression honours its threshold and returns aligned coefficients."""
import ast
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.linalg import IndexSet, SubArr, SubVec, Mx
from pyvc.interp import Interp, LoopContract
from pyvc.report import need, check, Fail

ID = 'C11'
LEVEL = 'proof'
RULE = ('random full-rank problems with correlated and badly scaled columns, ties at the threshold, single columns, every normalisation; '
        'compared with an independent least-squares fit on the reported support; non-trivial when (columns, normalisation, threshold, support) is new')
SG = 'kd.model.sga.sgapde.PDE_find'
GA = 'kd.model.discover.ga_utils'


class Problem:
    def __init__(self, c):
        self.n, self.d = Int('n'), Int('d')
        c.assume(z3.And(self.d.t >= 1, self.n.t >= self.d.t))
        self.Xf = z3.Function('X0', z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.yf = z3.Function('y', z3.IntSort(), z3.RealSort())
        self.X0 = SArr.make((self.n, self.d), 'real', lambda i, j: self.Xf(i, j))
        self.y = SArr.make((self.n, 1), 'real', lambda i, j: self.yf(i))
        self.NORM = z3.Function('NORM', z3.IntSort(), z3.RealSort())
        self.fits = []          # (IndexSet, gamma, matrix term function, 'ls'|'ridge', lam)
        self.scale = None

    def norm(self, ip, col, o=None, **k):
        t = z3.simplify(col.term(z3.Int('q')))
        if not (z3.is_app(t) and t.decl().eq(self.Xf) and t.arg(0).eq(z3.Int('q'))):
            raise Unsupported('norm of something else than a column')
        cur().assume(self.NORM(t.arg(1)) > 0, check=False)          # precondition: no zero column
        return wrap(self.NORM(t.arg(1)))

    def split(self, A):
        """matrix, index set (None: all columns) of a column selection"""
        if isinstance(A, SubArr):
            return A.base, A.iset
        if isinstance(A, SArr):
            return A, IndexSet(self.d.t, lambda i: z3.BoolVal(True))
        raise Unsupported(f'least squares on {A!r}')

    def same_mat(self, A, B):
        a, sa = self.split(A)
        b, sb = self.split(B)
        i, j = z3.Int('mi'), z3.Int('mj')
        return cur().entails(z3.ForAll([i, j], a.term(i, j) == b.term(i, j))) and sa.same(sb)

    def is_y(self, b):
        i = z3.Int('mi')
        return isinstance(b, SArr) and b.ndim == 2 and cur().entails(z3.ForAll([i], b.term(i, z3.IntVal(0)) == self.yf(i)))

    def lstsq(self, ip, A, b, *a, **k):
        c = cur()
        kind, lam = 'ls', z3.RealVal(0)
        M = A
        if isinstance(A, Mx) and not isinstance(A, SubArr):
            kind = 'ridge'
            g, reg = A, None
            if A.op == '+':
                g, reg = A.args
                if not (isinstance(g, Mx) and g.op == 'dot'):
                    g, reg = reg, g
                if not (isinstance(reg, Mx) and reg.op == '*'):
                    raise Unsupported('regulariser')
                lam = [lift(x) for x in reg.args if not isinstance(x, Mx)]
                eye = [x for x in reg.args if isinstance(x, Mx)]
                if len(lam) != 1 or len(eye) != 1 or eye[0].op != 'eye':
                    raise Unsupported('regulariser')
                lam = lam[0]
            if not (isinstance(g, Mx) and g.op == 'dot' and isinstance(b, Mx) and b.op == 'dot'):
                raise Unsupported('normal equations')
            un = lambda x: x.args[0] if isinstance(x, Mx) and x.op == 'T' else x.T
            M = g.args[1]
            ok = self.same_mat(un(g.args[0]), M) and self.same_mat(un(b.args[0]), M)
            c.prove('normal equations use one matrix', z3.BoolVal(ok))
            b = b.args[1]
        c.prove('the fit is to the target', z3.BoolVal(self.is_y(b)))
        mat, S = self.split(M)
        gam = z3.Function(fresh_name('LSQ'), z3.IntSort(), z3.RealSort())
        self.fits.append((S, gam, mat, kind, lam))
        if isinstance(M, SubArr):
            return (SubVec(S, lambda i: gam(i)), None, None, None)
        return (SArr.make((self.d, 1), 'real', lambda i, j: gam(i)), None, None, None)


def g_stridge(ctx, mod):
    f = need(mod, 'STRidge')
    tag = mod.rsplit('.', 1)[1]

    def run_case(norm_on, ridge):
        def run():
            c = cur()
            P = Problem(c)
            lam = Real('lam') if ridge else 0
            if ridge:
                c.assume(lam.t > 0)
            tol, maxit = Real('tol'), Int('maxit')
            c.assume(z3.And(tol.t >= 0, maxit.t >= 1))
            normalize = Int('normalize') if norm_on else 0
            if norm_on:
                c.assume(normalize.t >= 1)
            st = {}

            class L(LoopContract):
                def __init__(self):
                    super().__init__(self.havoc_, self.check_)
                    self.stores = ()

                def applies(self, node):
                    return any(isinstance(x, ast.Attribute) and x.attr == 'lstsq' for x in ast.walk(node))

                def names(self, env):
                    return [k for k, v in env.items() if isinstance(v, IndexSet)]

                def check_(self, info, k, when):
                    env = info.env
                    i = z3.Int('qi')
                    rng = z3.And(i >= 0, i < P.d.t)
                    if when == 'initiation':
                        st['sets'] = {nm: env[nm] for nm in self.names(env)}
                        return
                    w = env['w']
                    B = env['biginds']
                    if not isinstance(B, IndexSet) or not isinstance(w, SArr):
                        raise Unsupported('biginds')
                    cur().prove(f'{tag}.STRidge: dropped columns have coefficient exactly zero (loop invariant)',
                                z3.ForAll([i], z3.Implies(z3.And(rng, z3.Not(B.has(i))), w.term(i, z3.IntVal(0)) == 0)))
                    w0 = st['w_at_start']
                    ab = z3.If(w0(i) >= 0, w0(i), -w0(i))
                    cur().prove(f'{tag}.STRidge: exactly the columns at or above the threshold are kept',
                                z3.ForAll([i], z3.Implies(rng, B.has(i) == (ab >= tol.t))))
                    cur().prove(f'{tag}.STRidge: some column is kept', z3.Exists([i], z3.And(rng, B.has(i))))

                def havoc_(self, info, k):
                    env = info.env
                    first = cur().decide(k == 0)
                    if first:
                        env.update({nm: v for nm, v in info.entry.items() if nm not in ('j',)})
                        w = env['w']
                        b = SArr.make(w._shape, w.sort, w.snapshot())
                        st['w_at_start'] = lambda i: b.term(i, z3.IntVal(0))
                        st['first'] = True
                        self.stores = (w.store,)
                        return
                    st['first'] = False
                    wf = z3.Function(fresh_name('w'), z3.IntSort(), z3.RealSort())
                    bf = z3.Function(fresh_name('B'), z3.IntSort(), z3.BoolSort())
                    env['w'] = SArr.make((P.d, 1), 'real', lambda i, j: wf(i))
                    self.stores = (env['w'].store,)
                    env['biginds'] = IndexSet(P.d.t, lambda i: bf(i))
                    env['num_relevant'] = env['biginds'].__symlen__()
                    i = z3.Int('qi')
                    rng = z3.And(i >= 0, i < P.d.t)
                    cur().assume(z3.ForAll([i], z3.Implies(z3.And(rng, z3.Not(bf(i))), wf(i) == 0)), check=False)
                    cur().assume(z3.Exists([i], z3.And(rng, bf(i))), check=False)
                    st['w_at_start'] = lambda i: wf(i)
            spec = L()
            ip = Interp(ctx.session, contracts={np.linalg.norm: P.norm, np.linalg.lstsq: P.lstsq,
                                                np.eye: lambda ip, k, *a: Mx('eye', k)},
                        loops={'STRidge': spec})
            r = ip.call(f, P.X0, P.y, lam, maxit, tol, normalize)
            nm = f'{tag}.STRidge[{"normalised" if norm_on else "raw"}, {"ridge" if ridge else "plain"}]'
            if not isinstance(r, SArr) or not P.fits:
                raise Unsupported('result is not a coefficient vector')
            c = cur()
            S, gam, mat, kind, l_ = P.fits[-1]
            i, q = z3.Int('ri'), z3.Int('rq')
            c.assume(z3.And(i >= 0, i < P.d.t, q >= 0, q < P.n.t))
            c.prove(f'{nm}: one coefficient per column', z3.And(lift(r._shape[0]) == P.d.t, lift(r._shape[1]) == 1) if r.ndim == 2 else z3.BoolVal(False))
            m = 1 / P.NORM(i) if norm_on else z3.RealVal(1)
            c.prove(f'{nm}: the fit uses the columns of the input, rescaled column by column', mat.term(q, i) == P.Xf(q, i) * m)
            v = r.term(i, z3.IntVal(0))
            c.prove(f'{nm}: dropped coefficients are exactly zero', z3.Implies(z3.Not(S.has(i)), v == 0))
            c.prove(f'{nm}: kept coefficients are the least-squares fit on the kept columns in original units', z3.Implies(S.has(i), v == gam(i) * m))
            if kind == 'ridge':
                w0 = z3.If(gam(i) >= 0, gam(i), -gam(i))
                c.prove(f'{nm}: the regularised estimate is returned only when every coefficient is below the threshold', w0 < tol.t)
        ctx.run(run)
    for norm_on in (True, False):
        for ridge in (False, True):
            run_case(norm_on, ridge)
    ctx.assume_note('np.linalg.lstsq(A, b) returns the least-squares coefficients of b on the columns of A, in column order; least squares on rescaled columns gives rescaled coefficients')
    ctx.assume_note('STRidge precondition: no zero column, threshold >= 0, at least one iteration')


# ------------------------------------------------------------------------------------------------ tolerance search
class Coef:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, i):
        return Coef(self.t)

    def __sub__(self, o):
        raise Unsupported('coefficient arithmetic')


class Vec:
    """y, R.dot(w), y - R.dot(w), (..)**2 as tagged values"""

    def __init__(self, kind, w=None):
        self.kind, self.w = kind, w

    def __sub__(self, o):
        if self.kind == 'y' and isinstance(o, Vec) and o.kind == 'pred':
            return Vec('res', o.w)
        if self.kind == 'pred' and isinstance(o, Vec) and o.kind == 'y':
            return Vec('res', self.w)
        raise Unsupported('vector difference')

    def __pow__(self, k):
        if self.kind == 'res' and str(k) == '2':
            return Vec('sq', self.w)
        raise Unsupported('vector power')


class Design:
    def __init__(self, n, d):
        self.shape = (n, d)

    def dot(self, w):
        if not isinstance(w, Coef):
            raise Unsupported('dot')
        return Vec('pred', w.t)
    __matmul__ = dot


def g_train(ctx, sga):
    mod = SG if sga else GA
    f, S = need(mod, 'Train' if sga else 'TrainSTRidge', 'STRidge')
    tag = f'{mod.rsplit(".", 1)[1]}.{f.__name__}'
    W = z3.DeclareSort('Coefs')
    MSE, ERR, NZ = (z3.Function(x, W, z3.RealSort()) for x in ('MSE', 'ERR', 'NZ'))
    AICF = z3.Function('AICF', W, z3.RealSort(), z3.RealSort())

    def run():
        c = cur()
        R, Y = Design(Int('n'), Int('d')), Vec('y')
        maxit = Int('maxit')
        c.assume(maxit.t >= 1)
        pen = Real('l0')
        ratio = Real('ratio')
        seen = []        # coefficients evaluated in this symbolic run
        st = {}

        def new(tag_):
            w = z3.Const(fresh_name(tag_), W)
            return Coef(w)

        def lstsq(ip, A, b, *a, **k):
            c.prove(f'{tag}: the starting point is the least-squares fit of the target', z3.BoolVal(A is R and b is Y))
            w = new('w_ls')
            seen.append(w.t)
            return (w, None, None, None)

        def stridge(ip, X, y, lam, it, tol, **k):
            cur().prove(f'{tag}: sparse regression of the target on the candidate columns', z3.BoolVal(X is R and y is Y))
            cur().prove(f'{tag}: thresholds stay non-negative', lift(tol) >= 0)
            w = new('w_str')
            seen.append(w.t)
            return w

        def norm(ip, v, *a, **k):
            if isinstance(v, Vec) and v.kind == 'res':
                return wrap(ERR(v.w))
            raise Unsupported('norm')

        def mean(ip, v, *a, **k):
            if isinstance(v, Vec) and v.kind == 'sq':
                return wrap(MSE(v.w))
            raise Unsupported('mean')

        def nonzero(ip, w, *a, **k):
            cur().assume(NZ(w.t) >= 0, check=False)
            return wrap(NZ(w.t))
        if sga:
            score = lambda w: AICF(w, MSE(w))
        else:
            score = lambda w: MSE(w) + pen.t * NZ(w)

        class L(LoopContract):
            def __init__(self):
                super().__init__(self.havoc_, self.check_)
                self.stores = ()

            def best(self, env):
                w = env['w_best']
                return w.t, lift(env['aic_best'] if sga else env['err_best'])

            def check_(self, info, k, when):
                env = info.env
                w, b = self.best(env)
                cc = cur()
                cc.prove(f'{tag}: best score belongs to the best coefficients ({when})', b == score(w))
                if sga:
                    cc.prove(f'{tag}: reported error belongs to the best coefficients ({when})', z3.And(lift(env['mse_best']) == MSE(w), lift(env['data_err_best']) == ERR(w)))
                for s in seen:
                    cc.prove(f'{tag}: no evaluated candidate beats the best score ({when})', b <= score(s))
                if when != 'initiation':
                    cc.prove(f'{tag}: no earlier candidate beats the best score ({when})', b <= st['ghost'])
                cc.prove(f'{tag}: next threshold non-negative ({when})', z3.And(lift(env['tol']) >= 0, lift(env['d_tol']) >= 0))

            def havoc_(self, info, k):
                env = info.env
                cc = cur()
                seen.clear()
                w = new('w_best')
                env['w_best'] = w
                env['aic_best' if sga else 'err_best'] = wrap(score(w.t))
                if sga:
                    env['mse_best'], env['data_err_best'] = wrap(MSE(w.t)), wrap(ERR(w.t))
                g = z3.Real(fresh_name('best_seen'))
                st['ghost'] = g
                cc.assume(score(w.t) <= g, check=False)
                for nm in ('tol', 'd_tol', 'tol_best'):
                    env[nm] = wrap(z3.Real(fresh_name(nm)))
                cc.assume(z3.And(lift(env['tol']) >= 0, lift(env['d_tol']) >= 0), check=False)
        ip = Interp(ctx.session, contracts={np.linalg.lstsq: lstsq, np.linalg.norm: norm, np.mean: mean, np.count_nonzero: nonzero, S: stridge},
                    loops={f.__name__: L()})
        ip.local_contracts = {'AIC': lambda fn, w, err: wrap(AICF(w.t, lift(err)))}
        if sga:
            r = ip.call(f, R, Y, 0, Real('d_tol0') if False else 1, ratio, maxit)
            w, e, m, a = r
            c = cur()
            if not isinstance(w, Coef):
                raise Unsupported('result')
            c.prove(f'{tag}: returns the best coefficients with their own error, mse and score', z3.And(lift(e) == ERR(w.t), lift(m) == MSE(w.t), lift(a) == score(w.t)))
            c.prove(f'{tag}: nothing evaluated scores better than what is returned', z3.And([score(w.t) <= st['ghost']] + [score(w.t) <= score(s) for s in seen]))
        else:
            w, m = ip.call(f, R, Y, maxit=maxit, l0_penalty=pen)
            c = cur()
            if not isinstance(w, Coef):
                raise Unsupported('result')
            c.prove(f'{tag}: returns the best coefficients with their own error', lift(m) == MSE(w.t))
            c.prove(f'{tag}: nothing evaluated scores better than what is returned', z3.And([score(w.t) <= st['ghost']] + [score(w.t) <= score(s) for s in seen]))
    ctx.run(run)
    ctx.assume_note('np.mean, np.linalg.norm and np.count_nonzero are functions of the coefficient vector they are applied to (no NaN)')


def groups():
    return [('stridge-sga', lambda ctx: g_stridge(ctx, SG)), ('stridge-ga', lambda ctx: g_stridge(ctx, GA)),
            ('train-sga', lambda ctx: g_train(ctx, True)), ('train-ga', lambda ctx: g_train(ctx, False))]


# ------------------------------------------------------------------------------------------------ bounded run-time contracts
def problem(rng, n, d, kind):
    X = rng.normal(size=(n, d))
    if kind == 'scaled':
        X = X * 10.0 ** rng.integers(-3, 4, d)
    if kind == 'corr' and d > 1:
        X[:, 1] = X[:, 0] + 0.3 * rng.normal(size=n)
    if kind == 'int':
        X = rng.integers(-3, 4, (n, d)).astype(float) + np.vstack([np.eye(d), np.zeros((n - d, d))])
    w = rng.normal(size=(d, 1)) * rng.integers(0, 2, (d, 1))
    if kind == 'tie':
        X = np.linalg.qr(rng.normal(size=(n, d)))[0]
        w = rng.choice([0.0, 0.5, 1.0, 2.0], (d, 1))
    y = X @ w + rng.choice([0, 0.05]) * rng.normal(size=(n, 1))
    return X, y


def ls_on(X, y, S):
    w = np.zeros((X.shape[1], 1))
    if len(S):
        s = np.linalg.norm(X[:, S], axis=0)
        w[S] = np.linalg.lstsq(X[:, S] / s, y, rcond=None)[0] / s[:, None]
    return w


def rclose(a, b, tol=1e-6):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.abs(a) + np.abs(b)) + 1e-9 * (1 + np.abs(b).max(initial=0))))


def case_stridge(seed, mod, n, d, kind, normalize, tol, lam):
    f = need(SG if mod == 'sga' else GA, 'STRidge')
    rng = np.random.default_rng(seed)
    X, y = problem(rng, n, d, kind)
    X0, y0 = X.copy(), y.copy()
    w = f(X, y, lam, 10, tol, normalize=normalize)
    check(np.array_equal(X, X0) and np.array_equal(y, y0), 'the input was modified', 'input')
    check(w.shape == (d, 1), f'{w.shape} coefficients for {d} columns', 'shape')
    norms = np.linalg.norm(X, normalize, axis=0) if normalize else np.ones(d)
    S = [i for i in range(d) if w[i, 0] != 0]
    scale = np.abs(ls_on(X, y, list(range(d)))).max() + 1e-12
    first = (np.linalg.lstsq((X / norms).T @ (X / norms) + lam * np.eye(d), (X / norms).T @ y, rcond=None)[0] if lam else np.linalg.lstsq(X / norms, y, rcond=None)[0])
    if np.all(np.abs(first) < tol * (1 - 1e-9)):
        check(rclose(w, first / norms[:, None]), f'every coefficient below the threshold: {w.ravel()} expected {(first.ravel() / norms)}', 'all-below')
        return
    check(rclose(w, ls_on(X, y, S)), f'support {S}: {w.ravel()} but least squares there gives {ls_on(X, y, S).ravel()}', 'least-squares')
    # independent thresholding
    near = False
    cur_w, B = first.copy(), list(range(d))
    for _ in range(10):
        a = np.abs(cur_w[:, 0])
        near |= bool(np.any((np.abs(a - tol) < 1e-9 * (1 + tol))))
        nb = [i for i in range(d) if a[i] >= tol]
        if not nb or len(nb) == len(B):
            break
        B = nb
        cur_w = np.zeros((d, 1))
        Z = X[:, B] / norms[B]
        cur_w[B] = np.linalg.lstsq(Z.T @ Z + lam * np.eye(len(B)), Z.T @ y, rcond=None)[0]
    if not near:
        tiny = [i for i in B if abs(ls_on(X, y, B)[i, 0]) < 1e-9 * scale]
        check(set(S) | set(tiny) == set(B), f'kept {S}, thresholding at {tol} keeps {B}', 'support')
    perm = rng.permutation(d)
    if not near:
        wp = f(X[:, perm].copy(), y, lam, 10, tol, normalize=normalize)
        check(rclose(wp, w[perm], 1e-5), f'reordering the columns changes the coefficients: {wp.ravel()} vs {w[perm].ravel()}', 'order')
        if normalize:
            sc = 10.0 ** rng.integers(-2, 3, d)
            ws = f(X * sc, y, lam, 10, tol, normalize=normalize)
            check(rclose(ws * sc[:, None], w, 1e-5), f'rescaling columns: {(ws * sc[:, None]).ravel()} vs {w.ravel()}', 'units')


def case_train(seed, mod, n, d, kind, ratio, dtol):
    import importlib
    m = importlib.import_module(SG if mod == 'sga' else GA)
    f, S = need(m.__name__, 'Train' if mod == 'sga' else 'TrainSTRidge', 'STRidge')
    rng = np.random.default_rng(seed)
    X, y = problem(rng, n, d, kind)
    y = y + 0.1 * rng.normal(size=y.shape)
    got = []

    def spy(*a, **k):
        r = S(*a, **k)
        got.append(np.array(r, copy=True))
        return r
    m.STRidge = spy
    try:
        if mod == 'sga':
            w, e, mse, aic = f(X, y, 0, dtol, ratio)
            score = lambda w: ratio * 2 * np.count_nonzero(w) + 2 * np.log(np.mean((y - X @ w) ** 2))
        else:
            w, mse = f(X, y, d_tol=dtol, l0_penalty=ratio)
            score = lambda w: np.mean((y - X @ w) ** 2) + ratio * np.count_nonzero(w)
    finally:
        m.STRidge = S
    check(w.shape == (d, 1), 'shape', 'shape')
    check(np.isclose(mse, np.mean((y - X @ w) ** 2)), f'reported mse {mse}', 'mse')
    if mod == 'sga':
        check(np.isclose(e, np.linalg.norm(y - X @ w)) and np.isclose(aic, score(w)), f'reported error {e}, aic {aic}', 'aic')
    ols = np.linalg.lstsq(X, y, rcond=None)[0]
    for q in [ols] + got:
        check(score(w) <= score(q) + 1e-9 * (1 + abs(score(q))), f'returned score {score(w)}, evaluated {score(q)}', 'best')
    check(len(got) > 0, 'no thresholded fit was evaluated', 'evaluated')


def case_lasso(seed, n, d, kind):
    f, T = need(SG, 'Lasso', 'Train')
    rng = np.random.default_rng(seed)
    X, y = problem(rng, n, d, kind)
    w = f(X, y, 1e-3, maxit=200)
    check(w.shape == (d, 1), f'{w.shape}', 'shape')
    S = [i for i in range(d) if w[i, 0] != 0]
    check(rclose(w, ls_on(X, y, S)), f'support {S}: {w.ravel()} expected {ls_on(X, y, S).ravel()}', 'lasso')
    w2, e, mse, aic = T(X, y, 1e-3, 1, sparse='Lasso')
    check(np.isclose(mse, np.mean((y - X @ w2) ** 2)) and np.isclose(e, np.linalg.norm(y - X @ w2)), f'errors {e}, {mse} do not belong to the returned coefficients', 'lasso-train')


def case_coef(seed, n, d, kind, const):
    C = need('kd.model.discover.stridge', 'STRidge')
    rng = np.random.default_rng(seed)
    X, y = problem(rng, n, d, kind)
    s = C.__new__(C)
    s.add_const = const
    if const:
        X = np.hstack([X, np.ones((n, 1))])
    y_hat, w, invalid, node, typ, rhs = s.coef_calculate(X, y)
    if invalid:
        ols = np.linalg.lstsq(X, y, rcond=None)[0]
        check(bool(np.any(np.abs(ols) < 5e-5 * 1.01) or np.any(np.abs(ols) > 1e4 * 0.99)), f'{ols.ravel()} refused as {typ}', 'refused')
        return
    check(len(w) == rhs.shape[1] and rclose(np.array(w).reshape(-1, 1), ls_on(rhs, y, list(range(rhs.shape[1]))), 1e-5), f'{w}', 'coef')
    check(np.allclose(y_hat, rhs @ np.array(w).reshape(-1, 1)), 'prediction', 'prediction')
    check(rhs.shape[1] == X.shape[1] or const and rhs.shape[1] == X.shape[1] - 1 and np.array_equal(rhs, X[:, :-1]), 'columns', 'columns')


def C(f):
    g = lambda params: f(**params)
    g.__name__ = f.__name__
    return g


def cases(tier, rng):
    N = 60 if tier == 'quick' else 600
    kinds = ['plain', 'scaled', 'corr', 'int', 'tie']
    for _ in range(N):
        for mod in ('sga', 'ga'):
            d = rng.choice([1, 2, 3, 4, 6])
            kind = rng.choice(kinds)
            p = dict(seed=rng.randrange(1 << 30), mod=mod, n=d + rng.randrange(1, 15), d=d, kind=kind, normalize=rng.choice([0, 1, 2, 2]),
                     tol=rng.choice([0, 0.01, 0.3, 0.5, 1.0, 2.0, 100.0]), lam=rng.choice([0, 0, 1e-5, 0.1]))
            yield C(case_stridge), p, ('stridge', mod, d, kind, p['normalize'], p['tol'], p['lam'])
        if _ % 3 == 0:
            for mod in ('sga', 'ga'):
                d = rng.choice([1, 2, 4])
                p = dict(seed=rng.randrange(1 << 30), mod=mod, n=d + rng.randrange(3, 15), d=d, kind=rng.choice(kinds), ratio=rng.choice([0.01, 0.5, 1, 3]), dtol=rng.choice([0.1, 1, 5]))
                yield C(case_train), p, ('train', mod, d, p['kind'], p['ratio'])
            d = rng.choice([1, 2, 3])
            p = dict(seed=rng.randrange(1 << 30), n=d + rng.randrange(3, 15), d=d, kind=rng.choice(kinds))
            yield C(case_lasso), p, ('lasso', d, p['kind'])
            p = dict(seed=rng.randrange(1 << 30), n=d + rng.randrange(3, 15), d=d, kind=rng.choice(kinds), const=rng.random() < .5)
            yield C(case_coef), p, ('coef', d, p['kind'], p['const'])
