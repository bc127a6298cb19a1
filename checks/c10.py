"""C10: finite-difference derivatives are consistent with calculus."""
import fractions
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.interp import Interp
from pyvc.report import need, check, Fail

ID = 'C10'
LEVEL = 'proof'
RULE = ('polynomials of every degree up to the stencil degree on random grids, on every axis and order, through the jit-compiled and '
        'public entry points; non-trivial when (function, axis, order, size, degree) is new')
FD = 'kd.model.discover.task.pde.utils_fd'
V1 = 'kd.model.discover.task.pde.utils_v1'
KU = 'kd.utils.utils_fd'
SG = 'kd.model.sga.sgapde.PDE_find'
PF = 'kd.model.discover.task.pde.pde_find'


class Field:
    """arbitrary field U over an n_0 x .. grid; axis j has spacing h != 0, coordinates c + i*h"""

    def __init__(self, nd, ax, nmin, sort='real', what='u'):
        c = cur()
        self.nd, self.ax, self.sort = nd, ax, sort
        self.n = [Int(f'n{k}') for k in range(nd)]
        for k, d in enumerate(self.n):
            c.assume(d.t >= (nmin if k == ax else 1))
        self.U = z3.Function('U', *([z3.IntSort()] * nd), z3.IntSort() if sort == 'int' else z3.RealSort())
        self.u = SArr.make(tuple(self.n), sort, lambda *i: self.U(*i))
        self.h, self.c0 = Real('h'), Real('c0')
        c.assume(self.h.t != 0)

    def axis(self, column=False):
        """coordinate array of the differentiated axis"""
        n = self.n[self.ax]
        if column:
            return SArr.make((n, 1), 'real', lambda i, j: self.c0.t + z3.ToReal(i) * self.h.t)
        return SArr.make((n,), 'real', lambda i: self.c0.t + z3.ToReal(i) * self.h.t)


def resolve(t):
    """remove every If by case analysis along the current path"""
    c = cur()
    t = z3.simplify(t)
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            r = go(x.arg(1)) if c.decide(go(x.arg(0))) else go(x.arg(2))
        elif z3.is_app(x) and x.num_args():
            ks = [go(x.arg(i)) for i in range(x.num_args())]
            r = x.decl()(*ks)
        else:
            r = x
        memo[k] = (r, x)
        return r
    return z3.simplify(go(t))


def apps(t, f):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(f):
                out.append(x)
            todo.extend(x.children())
    return out


def offset(i, a, n, wrap_):
    """the constant d with a == i + d (or == i + d +- n on a periodic axis) on the current path"""
    c = cur()
    best = None
    for base in ([a - i, a - i - n, a - i + n] if wrap_ else [a - i]):
        s = z3.simplify(base)
        if not z3.is_int_value(s):
            if c.solver.check() != z3.sat:
                continue
            v = c.solver.model().eval(s, model_completion=True)
            if not z3.is_int_value(v) or not c.entails(s == v):
                continue
            s = v
        d = s.as_long()
        if best is None or abs(d) < abs(best):
            best = d
    return best


def derivative(ctx, name, order, call, nd=1, ax=0, nmin=None, degree=None, edge_degree=None, edge=1, zero_edge=0, periodic=False, sort='real'):
    """contract of a difference formula: call(ip, F) -> array.

    shape unchanged; every value depends on one grid line along ax only; the value is sum_d c_d U(i+d) / h^order with constants c_d
    (hence linear in U and homogeneous in h); and for p = 0..degree it maps the samples of y^p to the order-th derivative of y^p."""
    nmin = nmin or order + 2
    degree = degree if degree is not None else order + 1
    edge_degree = degree if edge_degree is None else edge_degree

    def run():
        c = cur()
        F = Field(nd, ax, nmin, sort)
        r = call(Interp(ctx.session), F)
        if not isinstance(r, SArr) or r.ndim != nd:
            c.prove(f'{name}: returns an array of the same rank', z3.BoolVal(False))
            return
        c.prove(f'{name}: shape unchanged', z3.And([lift(a) == lift(b) for a, b in zip(r._shape, F.u._shape)]))
        ix = [z3.Int(f'i{k}') for k in range(nd)]
        for x, d in zip(ix, F.n):
            c.assume(z3.And(x >= 0, x < d.t))
        i, n = ix[ax], F.n[ax].t
        T = resolve(r.term(*ix))
        at_edge = c.decide(z3.Or(i < max(edge, zero_edge), i >= n - max(edge, zero_edge)))
        if zero_edge and at_edge:
            c.prove(f'{name}: documented zero at the boundary', T == 0)
            return
        us = apps(T, F.U)
        offs = []
        for a in us:
            for k in range(nd):
                if k != ax:
                    c.prove(f'{name}: depends on its own grid line only', a.arg(k) == ix[k])
            d = offset(i, a.arg(ax), n, periodic)
            if d is None:
                c.prove(f'{name}: fixed stencil', z3.BoolVal(False))
                return
            offs.append(d)
        where = 'boundary' if at_edge else 'interior'
        h = F.h.t
        hp = h
        for _ in range(order - 1):
            hp = hp * h
        # coefficients c_d: value on the unit field at offset d, times h^order
        co = {}
        num = lambda q: z3.RealVal(str(q))
        U1 = {d: z3.Const(f'U_at_{d}', F.U.range()) for d in offs}
        Tu = z3.substitute(T, *[(a, U1[d]) for a, d in zip(us, offs)]) if us else T
        zero = [(u, z3.RealVal(0) if sort == 'real' else z3.IntVal(0)) for u in U1.values()]
        for d in U1:
            one = [(u, (z3.RealVal(int(k == d)) if sort == 'real' else z3.IntVal(int(k == d)))) for k, u in U1.items()]
            v = z3.simplify(z3.substitute(Tu, *one, (h, z3.RealVal(1))))
            if not z3.is_rational_value(v) and not z3.is_int_value(v):
                c.prove(f'{name}: coefficients do not depend on the data ({where})', z3.BoolVal(False))
                return
            co[d] = fractions.Fraction(v.as_fraction() if z3.is_rational_value(v) else v.as_long())
        lin = z3.Sum([num(q) * coerce_real(U1[d]) for d, q in co.items()]) if co else z3.RealVal(0)
        c.prove(f'{name}: linear in the field and scales with spacing^-{order} ({where})', Tu * hp == lin if sort == 'real' else Tu == lin / hp)
        y = Real('y').t
        for p in range((edge_degree if at_edge else degree) + 1):
            fall = 1
            for q in range(order):
                fall *= (p - q)
            want = num(fall)
            for _ in range(p - order):
                want = want * y
            got = z3.RealVal(0)
            for d, q in co.items():
                m = num(q)
                for _ in range(p):
                    m = m * (y + d * h)
                got = got + m
            c.prove(f'{name}: exact on degree {p} ({where})', z3.simplify(got - want * hp, som=True) == 0)
    ctx.run(run)


def coerce_real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def g_1d(ctx):
    fd1, fd2, v1, v2 = need(FD, 'FiniteDiff', 'FiniteDiff2') + need(V1, 'FiniteDiff', 'FiniteDiff2')
    for nm, f, o in (('utils_fd.FiniteDiff', fd1, 1), ('utils_fd.FiniteDiff2', fd2, 2), ('utils_v1.FiniteDiff', v1, 1), ('utils_v1.FiniteDiff2', v2, 2)):
        derivative(ctx, nm, o, lambda ip, F, f=f: ip.call(f, F.u, F.h))


def g_kd(ctx):
    f = need(KU, 'FiniteDiff')
    derivative(ctx, 'kd.utils FiniteDiff', 1, lambda ip, F: ip.call(f, F.u, F.h))
    for o in (1, 2):
        derivative(ctx, f'kd.utils FiniteDiff order {o}', o, lambda ip, F: ip.call(f, F.u, F.h, o))
    for o in (3, 4):
        derivative(ctx, f'kd.utils FiniteDiff order {o}', o, lambda ip, F: ip.call(f, F.u, F.h, order=o), nmin=4, zero_edge=2)


def g_solver(ctx):
    C = need('kd.utils.solver', 'FiniteDifferenceOperator')
    for o in (1, 2):
        derivative(ctx, f'FiniteDifferenceOperator order {o}', o, lambda ip, F: ip.call(C.diff, F.u, F.h, o), nd=2)
    derivative(ctx, 'FiniteDifferenceOperator order 1, integer samples', 1, lambda ip, F: ip.call(C.diff, F.u, F.h, 1), nd=2, sort='int')
    derivative(ctx, 'FiniteDifferenceOperator order 3', 3, lambda ip, F: ip.call(C.diff, F.u, F.h, 3), nd=2, nmin=8, edge=3, edge_degree=3)
    derivative(ctx, 'FiniteDifferenceOperator order 4', 4, lambda ip, F: ip.call(C.diff, F.u, F.h, 4), nd=2, nmin=8, edge=3, edge_degree=3)


def g_sga(ctx):
    f1, f2, D, D2 = need(SG, 'FiniteDiff', 'FiniteDiff2', 'Diff', 'Diff2')
    C = need('kd.model.sga.sgapde.context', 'ProblemContext')
    for o, f, d in ((1, f1, D), (2, f2, D2)):
        derivative(ctx, f'SGA FiniteDiff order {o}', o, lambda ip, F: ip.call(f, F.u, F.h))
        for nd in (2, 3):
            for ax in range(nd):
                specs = [ax] + (['xt'[ax]] if nd == 2 else [])
                for nm in specs:
                    derivative(ctx, f'SGA Diff order {o}, {nd}-D, axis {nm}', o, lambda ip, F: ip.call(d, F.u, F.h, nm), nd=nd, ax=ax)
                derivative(ctx, f'SGA context derivative order {o}, {nd}-D, axis {ax}', o,
                           lambda ip, F: ip.call(C._finite_diff_along_axis, F.u, F.h, ax, o), nd=nd, ax=ax)

    def short(f, k, nm):
        def run():
            F = Field(1, 0, 0)
            cur().assume(F.n[0].t < k)
            try:
                Interp(ctx.session).call(f, F.u, F.h)
                bad = True
            except PyRaise as e:
                bad = not isinstance(e.exc, ValueError)
            cur().prove(f'SGA {nm}: an axis too short for the stencil is refused', z3.BoolVal(not bad))
        ctx.run(run)
    short(f1, 3, 'FiniteDiff')
    short(f2, 4, 'FiniteDiff2')


def g_disc1(ctx):
    for mod in (FD, V1):
        D, D2, D3, D4 = need(mod, 'Diff', 'Diff2', 'Diff3', 'Diff4')
        m = mod.rsplit('.', 1)[1]
        for col in (True, False):
            k = 'column' if col else 'vector'
            derivative(ctx, f'{m}.Diff ({k} grid)', 1, lambda ip, F: ip.call(D, F.u, F.axis(col), 0), nd=2)
            derivative(ctx, f'{m}.Diff2 ({k} grid)', 2, lambda ip, F: ip.call(D2, F.u, F.axis(col), 0, 'x'), nd=2)
        derivative(ctx, f'{m}.Diff3', 3, lambda ip, F: ip.call(D3, F.u, F.axis(True), 0), nd=2, nmin=8, edge=3, edge_degree=3)
        derivative(ctx, f'{m}.Diff4', 4, lambda ip, F: ip.call(D4, F.u, F.axis(True), 0), nd=2, nmin=8, edge=3, edge_degree=3)


def g_disc2(ctx):
    for mod in (FD, V1):
        D, D2 = need(mod, 'Diff_2', 'Diff2_2')
        m = mod.rsplit('.', 1)[1]
        for nm in (1, 2):
            for col in (True, False):
                derivative(ctx, f'{m}.Diff_2 axis {nm}', 1, lambda ip, F: ip.call(D, F.u, F.axis(col), nm), nd=3, ax=nm, periodic=True)
                derivative(ctx, f'{m}.Diff2_2 axis {nm}', 2, lambda ip, F: ip.call(D2, F.u, F.axis(col), nm), nd=3, ax=nm, periodic=True, nmin=3)


def g_disc3(ctx):
    for mod in (FD, V1):
        D, D2 = need(mod, 'Diff_3', 'Diff2_3')
        m = mod.rsplit('.', 1)[1]
        for nm in (1, 2, 3):
            derivative(ctx, f'{m}.Diff_3 axis {nm}', 1, lambda ip, F: ip.call(D, F.u, F.axis(True), nm), nd=4, ax=nm)
            derivative(ctx, f'{m}.Diff2_3 axis {nm}', 2, lambda ip, F: ip.call(D2, F.u, F.axis(True), nm), nd=4, ax=nm)


def g_laplace(ctx):
    """the Laplacian is the sum of the second derivatives along every axis (each against its own coordinate)"""
    for mod, nm, d2, nd in ((FD, 'Laplace', 'Diff2_2', 3), (V1, 'Laplace', 'Diff2_2', 3), (FD, 'Laplace_3', 'Diff2_3', 4)):
        L, D = need(mod, nm, d2)

        def run():
            c = cur()
            F = Field(nd, 0, 1)
            for d in F.n[1:]:
                c.assume(d.t >= 4)
            G = z3.Function('G', z3.IntSort(), *([z3.IntSort()] * nd), z3.RealSort())

            def deriv(ip, u, x, name=1):
                k = name if isinstance(name, int) else None
                good = u is F.u and any(x is a for a in xs) and k is not None
                c.prove(f'{nm}: second derivative of the field itself', z3.BoolVal(good))
                j = [q for q, a in enumerate(xs) if a is x][0] + 1
                c.prove(f'{nm}: coordinate {j} goes with axis {j}', z3.BoolVal(j == k))
                return SArr.make(tuple(F.n), 'real', lambda *i: G(z3.IntVal(k), *i))
            xs = [SArr.symbolic(f'x{k}', (F.n[k],)) for k in range(1, nd)]
            ip = Interp(ctx.session, contracts={D: deriv})
            f = getattr(L, 'py_func', L)
            before = F.u.store.get
            r = ip.call(f, F.u, tuple(xs))
            ix = [z3.Int(f'i{k}') for k in range(nd)]
            for q, d in zip(ix, F.n):
                c.assume(z3.And(q >= 0, q < d.t))
            c.prove(f'{nm}: sum over all axes', r.term(*ix) == z3.Sum([G(z3.IntVal(k), *ix) for k in range(1, nd)]))
            c.prove(f'{nm}: field left unchanged', z3.BoolVal(F.u.store.get is before))
        ctx.run(run)


def g_pdefind(ctx):
    f = need(PF, 'FiniteDiff')
    for o in (1, 2):
        derivative(ctx, f'pde_find.FiniteDiff d={o}', o, lambda ip, F: ip.call(f, F.u, F.h, o))
    derivative(ctx, 'pde_find.FiniteDiff d=3', 3, lambda ip, F: ip.call(f, F.u, F.h, 3), nmin=6, edge=2)
    # d > 3 is defined by composition
    def run():
        c = cur()
        F = Field(1, 0, 6)
        d = Int('d')
        c.assume(d.t > 3)
        calls = []

        def rec(ip, u, dx, k):
            c.prove('pde_find.FiniteDiff d>3: same spacing in every step', lift(dx) == F.h.t)
            calls.append((u, lift(k)))
            return SArr.symbolic(fresh_name('D'), (F.n[0],))
        ip = Interp(ctx.session)
        ip.contracts[f] = rec
        r = ip.run_function(f, [F.u, F.h, d], {})
        ok = len(calls) == 2 and calls[0][0] is F.u and r is not None
        c.prove('pde_find.FiniteDiff d>3: derivative of a derivative', z3.BoolVal(ok))
        if ok:
            c.prove('pde_find.FiniteDiff d>3: orders add up', calls[0][1] + calls[1][1] == d.t)
            c.prove('pde_find.FiniteDiff d>3: terminates', z3.And(calls[0][1] < d.t, calls[1][1] < d.t, calls[0][1] > 0, calls[1][1] > 0))
    ctx.run(run)


def groups():
    return [('1d', g_1d), ('kd', g_kd), ('solver', g_solver), ('sga', g_sga), ('disc1', g_disc1), ('disc2', g_disc2), ('disc3', g_disc3),
            ('laplace', g_laplace), ('pdefind', g_pdefind)]


# ------------------------------------------------------------------------------------------------ bounded run-time contracts
def poly(rng, deg):
    co = rng.uniform(-2, 2, deg + 1)
    P = np.polynomial.Polynomial(co)
    return P


def close(a, b, scale, what):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, f'{what}: shape {a.shape} expected {b.shape}', what)
    check(bool(np.all(np.abs(a - b) <= 1e-6 * scale)), f'{what}: {np.max(np.abs(a - b))} off a value of scale {scale}', what)


def case_nd(seed, fn, ax, order, n, deg):
    import importlib
    rng = np.random.default_rng(seed)
    nd = {'Diff': 2, 'Diff2': 2, 'Diff3': 2, 'Diff4': 2, 'Diff_3': 4, 'Diff2_3': 4, 'Laplace_3': 4, 'Laplace': 3, 'Diff_2': 3, 'Diff2_2': 3}[fn]
    f = need(FD, fn)
    P = poly(rng, deg)
    x0, h = rng.uniform(-1, 1), rng.choice([-1, 1]) * rng.uniform(0.1, 0.4)
    x = x0 + h * np.arange(n)
    shape = [3, 4, 5, 6][:nd]
    shape[ax] = n
    if fn.startswith('Laplace'):
        shape = [2] + [max(4, d) for d in shape[1:]]
        shape[ax] = n
    if nd == 2:
        shape = [n, 3]
        ax = 0
    w = rng.uniform(-1, 1, shape[:ax] + [1] + shape[ax + 1:])
    v = P(x).reshape([1] * ax + [n] + [1] * (nd - ax - 1))
    dv = P.deriv(order)(x).reshape(v.shape)
    u = w * v
    if nd == 2:
        got = f(u, x.reshape(-1, 1), 0)
    elif fn.startswith('Laplace'):
        xs = [np.linspace(0, 1, d).reshape(-1, 1) for d in shape[1:]]
        xs[ax - 1] = x.reshape(-1, 1)
        w = np.ones_like(w)
        u = w * v * np.ones(shape)
        got = f(u, xs)
    else:
        got = f(u, x.reshape(-1, 1), ax)
    want = w * dv * np.ones(shape)
    m = 0
    if fn in ('Diff_2', 'Diff2_2', 'Laplace'):
        m = 1
    if fn in ('Diff3', 'Diff4') and deg > 3:
        m = 3
    sl = tuple(slice(m, -m) if k == ax and m else slice(None) for k in range(nd))
    close(got[sl], want[sl], (1 + np.abs(u).max()) / abs(h) ** order, f'{fn} axis {ax}')


def case_1d(seed, fn, order, n, deg):
    rng = np.random.default_rng(seed)
    P = poly(rng, deg)
    h = rng.uniform(0.05, 0.4)
    x = rng.uniform(-1, 1) + h * np.arange(n)
    m = 0
    if fn == 'kd':
        f = need(KU, 'FiniteDiff')
        got = f(P(x), h, order)
        m = 2 if order > 2 else 0
    elif fn == 'pde_find':
        f = need(PF, 'FiniteDiff')
        got = np.real(f(P(x), h, order))
    elif fn == 'poly':
        f = need(PF, 'PolyDiff')
        w = 4
        got = f(P(x), x, deg=deg, diff=order, width=w)[:, order - 1]
        x = x[w:-w]
    elif fn == 'polypoint':
        f = need(PF, 'PolyDiffPoint')
        i = int(rng.integers(0, n))
        got = np.array([f(P(x), x, deg=deg, diff=order, index=i)[order - 1]])
        x = x[i:i + 1]
    elif fn == 'solver':
        C = need('kd.utils.solver', 'FiniteDifferenceOperator')
        got = C.diff(np.stack([P(x), 2 * P(x)], 1), h, order)
        check(np.allclose(got[:, 1], 2 * got[:, 0]), 'columns are independent', 'solver')
        got = got[:, 0]
    want = P.deriv(order)(x)
    sl = slice(m, -m) if m else slice(None)
    close(got[sl] * (1e-3 if fn == 'pde_find' else 1), want[sl] * (1e-3 if fn == 'pde_find' else 1), (1 + np.abs(P(x)).max()) / h ** order, f'{fn} order {order}')
    if m:
        check(not np.any(got[:m]) and not np.any(got[-m:]), 'documented zero boundary', fn)


def case_tikhonov(seed, n):
    rng = np.random.default_rng(seed)
    f = need(PF, 'TikhonovDiff')
    h = rng.uniform(0.05, 0.4)
    a, b = rng.uniform(-2, 2, 2)
    x = h * np.arange(n)
    got = f(a + b * x, h, 1e-12)
    check(np.allclose(got, b, atol=1e-3), f'derivative of a straight line of slope {b}: {got[:3]}', 'tikhonov')


def case_compiled(seed):
    """the formulas as imported by users, with the just-in-time compiler on"""
    import os, subprocess, sys
    from pyvc.interp import REPO
    code = f'''
import sys; sys.path.insert(0, {REPO!r})
import numpy as np
from kd.model.discover.task.pde import utils_fd as F, utils_v1 as V
rng = np.random.default_rng({seed})
x, y = np.linspace(0, 1, 7), np.linspace(0, 2, 9)
u = rng.uniform(-1, 1, (2, 7, 9))
for m in (F, V):
    a = m.Laplace(u, (x.reshape(-1, 1), y.reshape(-1, 1)))
    b = m.Diff2_2(u, x.reshape(-1, 1), 1) + m.Diff2_2(u, y.reshape(-1, 1), 2)
    assert np.allclose(a, b)
print('same')
'''
    env = {k: v for k, v in os.environ.items() if k != 'NUMBA_DISABLE_JIT'}
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True, env=env, timeout=300)
    check(r.stdout.strip().endswith('same'), 'compiled Laplacian: ' + r.stderr.strip()[-300:], 'compiled')


def C(f):
    g = lambda params: f(**params)
    g.__name__ = f.__name__
    return g


def cases(tier, rng):
    yield C(case_compiled), dict(seed=rng.randrange(1 << 30)), ('compiled',)
    N = 3 if tier == 'quick' else 20
    for rep in range(N):
        for fn, order, axes, degs in (('Diff', 1, (0,), range(3)), ('Diff2', 2, (0,), range(4)), ('Diff3', 3, (0,), range(5)), ('Diff4', 4, (0,), range(6)),
                                      ('Diff_3', 1, (1, 2, 3), range(3)), ('Diff2_3', 2, (1, 2, 3), range(4)), ('Laplace_3', 2, (1, 2, 3), range(4)),
                                      ('Diff_2', 1, (1, 2), range(3)), ('Diff2_2', 2, (1, 2), range(4)), ('Laplace', 2, (1, 2), range(4))):
            for ax in axes:
                for deg in degs:
                    n = rng.randrange(8, 14) if fn in ('Diff3', 'Diff4') else rng.randrange(4, 12)
                    yield C(case_nd), dict(seed=rng.randrange(1 << 30), fn=fn, ax=ax, order=order, n=n, deg=deg), (fn, ax, n, deg)
        for fn, o, d in [('kd', o, o + 1) for o in (1, 2, 3, 4)] + [('pde_find', o, o + 1) for o in (1, 2, 3)] + [('solver', 1, 2), ('solver', 2, 3), ('solver', 3, 3)] + \
                [(p, o, d) for p in ('poly', 'polypoint') for o in (1, 2, 3) for d in (o, o + 1)]:
            n = rng.randrange(10, 20)
            yield C(case_1d), dict(seed=rng.randrange(1 << 30), fn=fn, order=o, n=n, deg=d), (fn, o, n, d)
        yield C(case_tikhonov), dict(seed=rng.randrange(1 << 30), n=rng.randrange(5, 12)), ('tik', rep)
