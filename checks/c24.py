"""C24: scattered-data adapters keep coordinates paired with values and splits disjoint."""
import builtins, types
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr, flat_map, is1, reduce_
from pyvc.report import need, check, Fail
from .c12 import C
from .c21 import Ip, grid, same_array
from .c23 import check_params, problem, build_ds

ID = 'C24'
LEVEL = 'proof'
BUDGET = {'quick': 25, 'thorough': 600}
RULE = 'random datasets of one to four axes in every axis order and evolution axis, sampled with every option of the adapter (number, ratio, noise, spline, trimming, thinning, collocation points); non-trivial when the seed is new'
AD = 'kd.model.discover.adapter'
ASSUMPTIONS = ['choice(n, k, replace=False) returns k distinct numbers below n; setdiff1d(arange(n), s) the numbers below n outside s; lhs(d, k) k rows of d numbers in [0, 1]',
               'np.repeat(a, s)[r] = a[r div s], np.tile(b, m)[r] = b[r mod len b], and the k-th digit of a row-major position r is (r div stride_k) mod n_k',
               'collocation points are inside the bounds in real arithmetic (the bounded part checks the floating-point rows)']
AXES = [['x', 'y', 't'], ['t', 'x', 'y'], ['y', 't', 'x', 'z'], ['x', 't']]
I, R = z3.IntSort(), z3.RealSort()
RADIX = z3.Function('digit', I, I, I, I)     # digit(r, s, n) = (r div s) mod n


def coord(name):
    """a coordinate with its smallest and largest value as ghosts"""
    c = cur()
    n = Int('n_' + name)
    c.assume(n.t >= 1)
    lo, hi = z3.Real('lo_' + name), z3.Real('hi_' + name)
    c.assume_axiom(lo <= hi)
    return SArr.symbolic('c_' + name, [n.t], inv=lambda i, t: z3.Implies(z3.And(i >= 0, i < n.t), z3.And(t >= lo, t <= hi)))


def extreme(op):
    """smallest / largest value of a whole coordinate: its ghost"""
    def h(a, axis):
        if a.ndim != 1:
            return None
        k = z3.Int('kq')
        t = z3.simplify(a.term(k))
        n = t.decl().name() if z3.is_app(t) else ''
        if n.startswith('c_') and t.num_args() == 1 and t.arg(0).eq(k) and z3.simplify(lift(a._shape[0])).eq(z3.Int('n_' + n[2:])):
            return wrap(z3.Real(op + '_' + n[2:]))
    return h


class Picked(SArr):
    """k distinct numbers below n"""

    @staticmethod
    def new(n, k, replace=False):
        c = cur()
        n, k = lift(n), lift(k)
        if c.decide(k < 0) or (not replace and c.decide(k > n)):
            raise PyRaise(ValueError('sample larger than population'))
        r = SArr.make([k], 'int', Picked.getter(n, k, replace))
        r.__class__ = Picked
        r.n, r.k, r.replace, r.nonneg = n, k, replace, True
        r.ghost = Picked.last
        return r

    last = None

    @staticmethod
    def getter(n, k, replace):
        g, inv = z3.Function(fresh_name('pick'), I, I), z3.Function(fresh_name('pick_at'), I, I)
        Picked.last = (g, inv, n, k)

        def get(i):
            t = g(i)
            cc = cur()
            if cc is not None:
                cc.assume_axiom(z3.Implies(z3.And(i >= 0, i < k), z3.And(t >= 0, t < n)))
                if not replace:
                    cc.assume_axiom(z3.Implies(z3.And(i >= 0, i < k), inv(t) == i))
            return t
        return get

    def sort(self, *a, **k):
        if a or k:
            raise Unsupported('sort options')
        new = Picked.new(self.n, self.k, self.replace)
        c = cur()
        # the same numbers in another order
        for s in c.picks:
            if s[0] is self.ghost:
                s[0] = new.ghost
        self.store, self.spec, self._shape, self.ghost = new.store, new.spec, new._shape, new.ghost


def member(ghost, m):
    g, inv, n, k = ghost
    return z3.And(inv(m) >= 0, inv(m) < k, g(inv(m)) == m)


def pick(size_required=True):
    def h(n, size=None, replace=True, p=None):
        if size is None or p is not None:
            raise Unsupported('choice of another form')
        r = Picked.new(n, size, replace)
        cur().picks.append([r.ghost, replace])
        return r
    return h


class Rng:
    def choice(self, n, size=None, replace=True, p=None):
        return pick()(n, size, replace, p)

    def permutation(self, n):
        return pick()(n, n, False)

    def normal(self, loc=0.0, scale=1.0, size=None):
        g = z3.Function(fresh_name('noise'), I, R)
        if not isinstance(size, tuple) or len(size) not in (1, 2):
            raise Unsupported('noise of another shape')
        cur().noises.append(g.name())
        return SArr.make([lift(d) for d in size], 'real', lambda i, *j: g(i))


def setdiff(ip, a, b, assume_unique=False):
    c = cur()
    q = z3.Int(fresh_name('q'))
    if not isinstance(a, SArr) or not isinstance(b, Picked) or a.ndim != 1:
        raise Unsupported('difference of other arrays')
    n = lift(a._shape[0])
    if not c.entails(z3.Implies(z3.And(q >= 0, q < n), a.term(q) == q)) or not c.entails(n == b.n):
        raise Unsupported('difference of other numbers')
    g, inv = z3.Function(fresh_name('rest'), I, I), z3.Function(fresh_name('rest_at'), I, I)
    m = n - b.k
    ghost = b.ghost

    def get(i):
        t = g(i)
        cc = cur()
        if cc is not None:
            cc.assume_axiom(z3.Implies(z3.And(i >= 0, i < m), z3.And(t >= 0, t < n, inv(t) == i, z3.Not(member(ghost, t)))))
        return t
    r = SArr.make([m], 'int', get)
    r.nonneg = True
    return r


def repeat(ip, a, s, axis=None):
    if not isinstance(a, SArr) or a.ndim != 1 or axis is not None:
        raise Unsupported('repeat of another form')
    return rep_tile(a, lift(s), z3.IntVal(1))


def tile(ip, a, m):
    if not isinstance(a, SArr) or a.ndim != 1 or isinstance(m, (tuple, list)):
        raise Unsupported('tile of another form')
    base, s, k = getattr(a, 'base', (a, z3.IntVal(1), z3.IntVal(1)))
    return rep_tile(base, s, z3.simplify(k * lift(m)))


def rep_tile(a, s, m):
    """every entry s times, the whole m times"""
    c = cur()
    s, n = z3.simplify(s), lift(a._shape[0])
    f = a.snapshot()

    def get(i):
        cc = cur()
        t = RADIX(i, s, n)
        if cc is not None:
            cc.assume_axiom(z3.Implies(z3.And(i >= 0, s >= 1, n >= 1), z3.And(t >= 0, t < n)))
            for fm in getattr(cc, 'flat_maps', []):
                if fm.order == 'C':
                    link(fm, i)
        return f(t)
    ln = z3.simplify(n * s * m)
    for fm in getattr(c, 'flat_maps', []):
        # every digit of a row-major grid runs through its range in blocks: n * s * (total div (n * s)) = total, and s * n = total
        k = [q for q, d in enumerate(fm.dims) if d.eq(n)]
        st = lambda q: z3.simplify(z3.Product([z3.IntVal(1)] + list(fm.dims[q + 1:])))
        if fm.order == 'C' and any(st(q).eq(s) and z3.simplify(m).eq(z3.simplify(lift(wrap(fm.total) // wrap(z3.simplify(n * s))))) for q in k):
            ln = fm.total
            break
    else:
        if is1(m) and not is1(s):
            ln = flat_map([n, s]).total
        elif is1(s) and not is1(m):
            ln = flat_map([m, n]).total
    r = SArr.make([ln], a.sort, get)
    r.base = (a, s, m)
    return r


def link(fm, i):
    """the digits of a row-major position"""
    c = cur()
    ds = fm.digits(i)
    for k, d in enumerate(ds):
        st = z3.IntVal(1)
        for n in fm.dims[k + 1:]:
            st = st * n
        c.assume_axiom(z3.Implies(z3.And(lift(i) >= 0, lift(i) < fm.total), d == RADIX(lift(i), z3.simplify(st), fm.dims[k])))


def lhs(ip, d, samples=None, *a, **k):
    if a or k:
        raise Unsupported('sampling options')
    g = z3.Function(fresh_name('lhs'), I, I, R)
    d, n = lift(d), lift(samples)
    cur().designs.append(g)

    def get(i, j):
        cc = cur()
        if cc is not None:
            cc.assume_axiom(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < d), z3.And(g(i, j) >= 0, g(i, j) <= 1)))
        return g(i, j)
    return SArr.make([n, d], 'real', get)


def bounds(order, co):
    """contract of PDEDataset.mesh_bounds (C21): smallest and largest coordinate of each mesh column"""
    def h(ip, self, *a, **k):
        if a or k:
            raise Unsupported('bounds options')
        return tuple(SArr.from_np(np.array([reduce_(op, co[x]) for x in order], dtype=object)) for op in ('min', 'max'))
    return h


def setup(ctx):
    c = cur()
    c.flat_ghost = c.flat_opaque = True
    c.min_spec, c.max_spec = extreme('lo'), extreme('hi')
    c.picks, c.noises, c.flat_maps, c.designs = [], [], [], []
    ip = Ip(ctx.session)
    ct = ip.contracts
    ct[np.prod] = lambda ip_, xs, **k: wrap(flat_map([lift(x) for x in ip_.iterate(xs)]).total)
    ct[np.random.choice] = lambda ip_, *a, **k: pick()(*a, **k)
    ct[np.random.permutation] = lambda ip_, n: pick()(n, n, False)
    ct[np.random.default_rng] = lambda ip_, *a, **k: Rng()
    ct[np.setdiff1d] = setdiff
    ct[np.repeat] = repeat
    ct[np.tile] = tile
    ct[np.floor] = lambda ip_, x: wrap(z3.ToReal(z3.ToInt(lift(x)))) if isinstance(x, Sym) else np.floor(x)
    ct[np.isfinite] = lambda ip_, a: SArr.const(a._shape, z3.Bool('finite'), 'bool')
    ct[need('kd.data', 'lhs')] = lhs
    return c, ip


def field_entries(t):
    """the entries of the field in a term"""
    out, todo, seen = [], [z3.simplify(t)], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == 'f_u':
            if not any(x.eq(y) for y in out):
                out.append(x)
            continue
        todo.extend(x.children())
    return out


def row(c, what, X, v, k, order, cols, co, noise, g):
    """if g, row k is a grid point with the field value observed there; returns its grid position"""
    t = v.term(k, 0)
    fs = field_entries(t)
    if len(fs) != 1:
        raise Unsupported('value of another form')
    w = fs[0].children()
    if noise:
        rest = z3.simplify(t - fs[0])
        c.prove(what + ': the value is that of one grid point, plus its own noise', z3.Implies(g, z3.BoolVal(z3.is_app(rest) and rest.decl().name() in c.noises)))
    else:
        c.prove(what + ': the value is that of one grid point', z3.Implies(g, t == fs[0]))
    c.prove(what + ': the value is an entry of the field', z3.Implies(g, z3.And([z3.And(x >= 0, x < lift(co[a]._shape[0])) for x, a in zip(w, order)])))
    pos = dict(zip(order, w))
    for q, a in enumerate(cols):
        c.prove(what + ': the coordinates are those of the value', z3.Implies(g, X.term(k, q) == co[a].term(pos[a])))
    return w


def differ(w, v):
    return z3.Or([x != y for x, y in zip(w, v)])


def tables(c, d, names, D):
    for n, cols in names:
        a = d.get(n)
        ok = isinstance(a, SArr) and a.ndim == 2
        c.prove(f'{n} is a table', z3.BoolVal(ok))
        if not ok:
            raise PathEnd()
        c.prove(f'{n}: number of columns', lift(a._shape[1]) == cols)


def verify(c, d, order, cols, co, u, n, colloc, noise, lo, hi, ratio=None):
    D = len(cols)
    tables(c, d, [('X_u_train', D), ('u_train', 1), ('X_u_val', D), ('u_val', 1), ('X_f_train', D), ('measured_points', D)], D)
    Xt, ut, Xv, uv, F, M = [d[k] for k in ('X_u_train', 'u_train', 'X_u_val', 'u_val', 'X_f_train', 'measured_points')]
    nt, nv = lift(Xt._shape[0]), lift(Xv._shape[0])
    c.prove('one value per training and validation row', z3.And(lift(ut._shape[0]) == nt, lift(uv._shape[0]) == nv))
    if n is not None:
        c.prove('the requested number of samples', lift(M._shape[0]) == n)
    N = lift(M._shape[0])
    tr0 = z3.ToInt(z3.ToReal(N) * z3.RealVal('4/5'))
    if ratio is None:
        c.prove('training and validation rows are all samples', nt + nv == N)
    else:
        def part(x):
            k = z3.ToInt(z3.ToReal(x) * ratio)
            k = z3.If(k >= 1, k, 1)
            return z3.If(k < x, k, x)
        c.prove('thinning keeps the requested share of each part', z3.And(nt <= N, nv <= N, nt + nv <= N, z3.Implies(ratio == 1, nt + nv == N)))
    i, j, k, l, m = [z3.Int(x) for x in 'ijklm']
    c.assume_axiom(z3.And(i >= 0, k >= 0, m >= 0, i < j, k < l))

    def at(name, X, v, q, num):
        return row(c, name, X, v, q, order, cols, co, noise, q < num)
    wi, wj = at('training row', Xt, ut, i, nt), at('training row', Xt, ut, j, nt)
    vk, vl = at('validation row', Xv, uv, k, nv), at('validation row', Xv, uv, l, nv)
    c.prove('no sample is used for training twice', z3.Implies(j < nt, differ(wi, wj)))
    c.prove('no sample is used for validation twice', z3.Implies(l < nv, differ(vk, vl)))
    c.prove('training and validation samples are disjoint', z3.Implies(z3.And(i < nt, k < nv), differ(wi, vk)))
    for w, name, g in ((wi, 'training', i < nt), (vk, 'validation', k < nv)):
        s_ = sample_of(c, w)
        c.prove(f'the {name} samples are measured points', z3.Implies(g, z3.And(s_ >= 0, s_ < N)))
        c.prove(f'the {name} samples are measured points', z3.Implies(g, z3.And([M.term(s_, q) == co[a].term(dict(zip(order, w))[a]) for q, a in enumerate(cols)])))
    nf = lift(F._shape[0])
    c.prove('collocation points: the requested number and the training points', nf == colloc + nt)
    for q, a in enumerate(cols):
        c.prove('the training points are among the collocation points', z3.Implies(i < nt, F.term(colloc + i, q) == Xt.term(i, q)))
        x = dict(zip(order, wi))[a]
        c.prove('training points are inside the bounds', z3.Implies(i < nt, z3.And(co[a].term(x) >= lo[q], co[a].term(x) <= hi[q])))
        for g in c.designs:     # 0 <= r <= 1 and lo <= hi imply 0 <= (hi - lo) r <= hi - lo
            r = g(m, q)
            c.assume_axiom(z3.Implies(z3.And(r >= 0, r <= 1, lo[q] <= hi[q]), z3.And((hi[q] - lo[q]) * r >= 0, (hi[q] - lo[q]) * r <= hi[q] - lo[q])))
        c.prove('collocation points are inside the bounds', z3.Implies(m < colloc, z3.And(F.term(m, q) >= lo[q], F.term(m, q) <= hi[q])))
    for key, want in (('lb', lo), ('ub', hi)):
        b = d.get(key)
        ok = isinstance(b, SArr) and b.ndim == 1
        c.prove('the bounds are a row', z3.BoolVal(ok))
        if ok:
            c.prove('the bounds are those of the coordinates', z3.And([lift(b._shape[0]) == D] + [b.term(q) == want[q] for q in range(D)]))


def sample_of(c, w):
    """number of the sample at the grid position w"""
    fm, ghost, kind, off = c.sampling
    g, inv, n, k = ghost()
    w = [z3.simplify(x - o) for x, o in zip(w, off)]
    if kind == 'grid':
        p = fm().flat(*w)
        g(inv(p))
        return inv(p)
    s = fm().flat(inv(w[0]), *w[1:])
    link(fm(), s)
    return s


def make_adapter(ds, **kw):
    A = need(AD, 'DiscoverSparseAdapter')
    m = A.__new__(A)
    for k, v in dict(sample=None, sample_ratio=0.1, colloc_num=None, random_state=0, noise_level=0.0, data_ratio=None, spline_sample=False, cut_quantile=None).items():
        setattr(m, k, v)
    for k, v in kw.items():
        setattr(m, k, v)
    m.dataset = ds
    return A, m


def options(c, total, few=False):
    """sample count or ratio, noise, collocation number"""
    kw = {}
    if c.choose(2):
        n = Int('n')
        c.assume(n.t >= 1)
        kw['sample'], want, ok = n, n.t, n.t <= total
        tot = n.t
    else:
        r = Real('ratio')
        kw['sample_ratio'] = r
        k = z3.ToInt(z3.ToReal(total) * r.t)
        want, ok = z3.If(k >= 1, k, z3.IntVal(1)), z3.And(r.t > 0, r.t <= 1)
    more = few and c.choose(2)
    if more if few else c.choose(2):
        s = Real('noise')
        c.assume(s.t > 0)
        kw['noise_level'] = s
    colloc = z3.IntVal(20000)
    if more if few else c.choose(2):
        m = Int('colloc')
        c.assume(m.t >= 1)
        kw['colloc_num'], colloc = m, m.t
    return kw, want, ok, colloc


def star(c, d, order, cols, co, u, what):
    """the full grid: every row with the field value of its grid point"""
    tables(c, d, [('X_star', len(cols)), ('u_star', 1)], len(cols))
    X, v = d['X_star'], d['u_star']
    total = flat_map([lift(co[a]._shape[0]) for a in cols]).total
    c.prove(f'{what}: one row per grid point', z3.And(lift(X._shape[0]) == total, lift(v._shape[0]) == total))
    r = z3.Int('row')
    c.assume_axiom(z3.And(r >= 0, r < total))
    for fm in c.flat_maps:
        link(fm, r)
    row(c, what, X, v, r, order, cols, co, False, z3.BoolVal(True))
    shp = d['shape']
    c.prove(f'{what}: the shape is that of the field', z3.BoolVal(len(shp) == len(cols)))
    c.prove(f'{what}: the shape is that of the field', z3.And([lift(s) == lift(co[a]._shape[0]) for s, a in zip(shp, cols)]))


def g_legacy(mode, opt=None):
    def g(ctx):
        def run():
            c, ip = setup(ctx)
            P = need('kd.dataset', 'PDEDataset')
            ds = P.__new__(P)
            x, t = coord('x'), coord('t')
            co, order = {'x': x, 't': t}, ['x', 't']
            nx, nt = lift(x._shape[0]), lift(t._shape[0])
            fit = mode != 'shape'
            p, q = (wrap(nx), wrap(nt)) if fit else (Int('p'), Int('q'))
            c.assume(z3.And(p.t >= 1, q.t >= 1))
            u = grid('u', [p, q])
            ds.x, ds.t, ds.usol, ds.fields_data, ds.coords_1d, ds.equation_name = x, t, u, None, None, 'e'
            ds.param_fields = {'a': SArr.symbolic('g0', [p.t, q.t])}
            ip.contracts[P.mesh_bounds] = bounds(order, co)
            total = flat_map([p.t, q.t]).total if mode != 'cut' else None
            off = [z3.IntVal(0)] * 2
            cx, ct = co['x'], co['t']
            cut = False
            kw, want, ok, colloc = options(c, total) if mode != 'cut' else ({}, None, None, z3.IntVal(20000))
            ratio = None
            if mode == 'spline':
                kw['spline_sample'] = True
                if 'sample' not in kw and c.choose(2):
                    ratio = Real('thin')
                    kw['data_ratio'] = ratio
            elif mode == 'cut':
                qv = Real('cut')
                kw.update(cut_quantile=qv, sample=Int('n'))
                c.assume(kw['sample'].t >= 1)

                def lo_hi(n):
                    f = z3.ToInt(z3.ToReal(n) * qv.t)
                    return (f, n - f) if c.decide(n - 2 * f >= 2) else (z3.IntVal(0), n)
                (xl, xh), (tl, th) = lo_hi(nx), lo_hi(nt)
                off = [xl, tl]
                want = kw['sample'].t
                total = None
                cut = True
            elif mode == 'thin':
                ratio = Real('thin')
                kw['data_ratio'] = ratio
            A, m = make_adapter(ds, **kw)
            try:
                d = ip.call(A._prepare, m)
                raised = None
            except PyRaise as e:
                raised = e
            if cut:
                total = flat_map([xh - xl, th - tl]).total
            if raised:
                e = raised
                good = z3.And(p.t == nx, q.t == nt)
                if mode == 'spline':
                    rt = ratio.t if ratio is not None else lift(kw.get('sample_ratio', 0.1))
                    good = z3.And(good, rt > 0, rt <= 1)
                elif cut:
                    good = z3.And(good, qv.t >= 0, qv.t < z3.RealVal('1/2'), want <= total)
                else:
                    good = z3.And(good, ok, want <= total)
                    if ratio is not None:
                        good = z3.And(good, ratio.t > 0, ratio.t <= 1)
                c.prove('only unusable requests are rejected, with a ValueError', z3.And(z3.BoolVal(isinstance(e.exc, ValueError)), z3.Not(good)))
                return
            c.prove('data that does not fit its coordinates is rejected', z3.And(p.t == nx, q.t == nt))
            if cut:
                c.prove('trimming beyond the middle is rejected', z3.And(qv.t >= 0, qv.t < z3.RealVal('1/2')))
            elif mode != 'spline':
                c.prove('too many samples and other ratios are rejected', z3.And(ok, want <= total))
            if ratio is not None:
                c.prove('other shares are rejected', z3.And(ratio.t > 0, ratio.t <= 1))
            if not c.picks:
                raise Unsupported('samples drawn another way')
            first = c.picks[0]
            xs = [n_ for n_ in (nx, nt)]
            if cut:
                dims = [xh - xl, th - tl]
                fm = lambda: flat_map(dims)
                lo = [lift(reduce_('min', SArr.make([b - a], 'real', lambda i, a=a, s=s: s.term(a + i)))) for s, a, b in ((x, xl, xh), (t, tl, th))]
                hi = [lift(reduce_('max', SArr.make([b - a], 'real', lambda i, a=a, s=s: s.term(a + i)))) for s, a, b in ((x, xl, xh), (t, tl, th))]
                kind = 'grid'
            elif mode == 'spline':
                ks = first[0][3]
                fm = lambda: flat_map([ks, nt])
                kind = 'rows'
                want = None
            else:
                fm = lambda: flat_map([nx, nt])
                kind = 'grid'
            if not cut:
                lo, hi = [[lift(reduce_(op, co[a])) for a in order] for op in ('min', 'max')]
            c.sampling = (fm, lambda: first[0], kind, off)
            verify(c, d, order, order, co, u, want, colloc, 'noise_level' in kw, lo, hi, ratio.t if ratio is not None else None)
            if mode == 'grid':
                star(c, d, order, order, co, u, 'full grid')
        ctx.run(run)
        ctx.assume_note('one space axis: any lengths of x and t, any number of samples or ratio, with and without noise, any number of collocation points')
    return g


def g_nd(order, li=None):
    def g(ctx):
        def run():
            c, ip = setup(ctx)
            P = need('kd.dataset', 'PDEDataset')
            ds = P.__new__(P)
            lhs_ = order[c.choose(len(order)) if li is None else li]
            co = {a: coord(a) for a in sorted(order)}
            u = grid('u', [co[a]._shape[0] for a in order])
            ds.x, ds.t, ds.usol, ds.equation_name = co.get('x'), co.get('t'), u, 'e'
            ds.fields_data, ds.coords_1d, ds.axis_order, ds.target_field, ds.lhs_axis = {'v': grid('v', u._shape), 'w': u}, co, list(order), 'w', lhs_
            ds.param_fields = {'a': SArr.symbolic('g0', list(u._shape))}
            cols = [a for a in order if a != lhs_] + [lhs_]
            dims = [lift(co[a]._shape[0]) for a in cols]
            total = flat_map(dims).total
            extra = c.choose(4)
            kw, want, ok, colloc = options(c, total, len(order) > 3) if not extra else ({}, None, z3.BoolVal(True), None)
            kw.update([{}, dict(spline_sample=True), dict(cut_quantile=0.1), dict(data_ratio=0.5)][extra])
            A, m = make_adapter(ds, **kw)
            try:
                d = ip.call(A._prepare, m)
            except PyRaise as e:
                if extra:
                    c.prove('N-D: options of the one-dimensional form are refused', z3.BoolVal(isinstance(e.exc, (NotImplementedError, ValueError))))
                    return
                c.prove('N-D: only unusable requests are rejected, with a ValueError', z3.And(z3.BoolVal(isinstance(e.exc, ValueError)), z3.Not(z3.And(ok, want <= total, z3.Bool('finite')))))
                return
            c.prove('N-D: options of the one-dimensional form are refused', z3.BoolVal(extra == 0))
            c.prove('N-D: non-finite fields, too many samples and other ratios are rejected', z3.And(ok, want <= total, z3.Bool('finite')))
            if not c.picks:
                raise Unsupported('samples drawn another way')
            first = c.picks[0]
            fm0 = flat_map(dims)

            class F:
                def flat(self, *w):
                    pos = dict(zip(order, w))
                    return fm0.flat(*[pos[a] for a in cols])
            c.sampling = (lambda: F(), lambda: first[0], 'grid', [z3.IntVal(0)] * len(order))
            lo, hi = [[lift(reduce_(op, co[a])) for a in cols] for op in ('min', 'max')]
            verify(c, d, order, cols, co, u, want, colloc, 'noise_level' in kw, lo, hi)
            if 'noise_level' not in kw and 'colloc_num' not in kw:
                star(c, d, order, cols, co, u, 'full grid')
            c.prove('N-D: the number of space axes', z3.BoolVal(d['n_input_dim'] == len(order) - 1))
            check_params(c, d, ds.param_fields, [order.index(a) for a in cols])
        ctx.run(run)
        ctx.assume_note('N-D: the listed axis orders with every evolution axis and any lengths, any number of samples or ratio, with and without noise')
    return g


def groups():
    return [*[(f'one space axis, {m}', g_legacy(m)) for m in ('grid', 'thin', 'spline', 'cut', 'shape')],
            *[('nd ' + ''.join(o), g_nd(o)) for o in AXES if len(o) < 4],
            *[(f'nd {"".join(o)} along {o[k]}', g_nd(o, k)) for o in AXES if len(o) > 3 for k in range(len(o))]]


# ---------------------------------------------------------------- run-time contracts
def rt_prepare(seed):
    import random
    A = need(AD, 'DiscoverSparseAdapter')
    rng = random.Random(seed)
    P, legacy, order, lhs_, co, u, f, df, pf, unit = problem(rng, seed)
    ds = build_ds(P, legacy, order, lhs_, co, u, pf)
    cols = ['x', 't'] if legacy else [a for a in order if a != lhs_] + [lhs_]
    kw = dict(colloc_num=rng.choice([1, 7, 30]), random_state=seed % 977)
    total = u.size
    if rng.random() < 0.5:
        kw['sample'] = rng.choice([1, 2, 3, 5, total, total - 1, rng.randint(1, total)])
    else:
        kw['sample_ratio'] = rng.choice([1.0, 0.01, rng.uniform(0.05, 1)])
    noise = rng.random() < 0.3
    if noise:
        kw['noise_level'] = 0.05
    inside = {a: co[a] for a in order}
    full = u
    if legacy:
        if rng.random() < 0.4:
            kw['spline_sample'] = True
        if rng.random() < 0.4:
            kw['data_ratio'] = rng.choice([1.0, 0.5, rng.uniform(0.05, 1)])
        if rng.random() < 0.4:
            q = kw['cut_quantile'] = rng.choice([0.0, 0.1, 0.25, 0.45])
            for ax, a in enumerate(order):
                k = int(np.floor(len(co[a]) * q))
                if len(co[a]) - 2 * k >= 2:
                    inside[a] = co[a][k:len(co[a]) - k]
                    full = np.take(full, range(k, len(co[a]) - k), axis=ax)
            total = full.size
            if kw.get('sample', 0) > total:
                kw['sample'] = total
    if kw.get('spline_sample'):
        if 'sample' in kw:
            nx = min(len(inside['x']), max(1, int(kw['sample'] / len(inside['t']))))
        else:
            nx = max(1, int(len(inside['x']) * kw.get('data_ratio', kw['sample_ratio'])))
        n = nx * len(inside['t'])
    else:
        n = kw['sample'] if 'sample' in kw else max(1, int(total * kw['sample_ratio']))
    np.random.seed(seed % 1009)
    d = A(ds, **kw).get_data()
    at = {}
    for ix in np.ndindex(*full.shape):
        pos = dict(zip(order, ix))
        at[tuple(float(inside[a][pos[a]]) for a in cols)] = full[ix]
    rows = lambda X: [tuple(float(v) for v in r) for r in X]
    M, T, V = rows(d['measured_points']), rows(d['X_u_train']), rows(d['X_u_val'])
    check(len(M) == n and len(set(M)) == n, f'{kw}: asked for {n} samples, got {len(M)} ({len(set(M))} different)', 'number')
    check(len(T) == len(d['u_train']) and len(V) == len(d['u_val']), 'values per row', 'rows')
    for name, X, v in (('training', T, d['u_train']), ('validation', V, d['u_val'])):
        check(v.shape == (len(X), 1), f'{name}: shape {v.shape}', 'rows')
        check(all(r in at for r in X), f'{kw}: {name}: a row that is no grid point', 'grid point')
        check(set(X) <= set(M), f'{kw}: {name}: a row that was not measured', 'measured')
        if noise:
            sc = 0.05 * np.std(full) * 8 + 1e-12
            check(all(abs(v[i, 0] - at[r]) <= sc for i, r in enumerate(X)), f'{kw}: {name}: values far from those of the points', 'pairing')
        else:
            check(all(v[i, 0] == at[r] for i, r in enumerate(X)), f'axes {order}, evolution {lhs_}, {kw}: {name}: values of other points', 'pairing')
    check(len(set(T)) == len(T) and len(set(V)) == len(V) and not set(T) & set(V), f'{kw}: rows used twice', 'disjoint')
    if 'data_ratio' not in kw or kw['data_ratio'] == 1.0:
        check(set(T) | set(V) == set(M), f'{kw}: a sample in neither part', 'complete')
    F = d['X_f_train']
    check(len(F) == kw['colloc_num'] + len(T), f'{kw}: {len(F)} collocation points', 'collocation')
    check(set(T) <= set(rows(F)), f'{kw}: training points missing from the collocation points', 'collocation')
    lo, hi = np.array([inside[a].min() for a in cols]), np.array([inside[a].max() for a in cols])
    eps = 1e-12 * (np.abs(lo) + np.abs(hi))
    check(np.array_equal(d['lb'], lo) and np.array_equal(d['ub'], hi), f'{kw}: bounds', 'bounds')
    check(np.all(F >= lo - eps) and np.all(F <= hi + eps), f'{kw}: collocation points outside the domain', 'bounds')
    X, v = rows(d['X_star']), d['u_star']
    check(len(X) == full.size and v.shape == (full.size, 1) and all(v[i, 0] == at[r] for i, r in enumerate(X)), f'axes {order}, evolution {lhs_}: rows of the full grid', 'full grid')
    check(tuple(d['shape']) == tuple(len(inside[a]) for a in cols), 'shape of the full grid', 'full grid')
    if 'cut_quantile' not in kw:
        perm = [order.index(a) for a in cols]
        for nme, a in zip(pf, d.get('param_data', [])):
            check(np.array_equal(a, np.transpose(pf[nme], perm)), f'parameter {nme}', 'params')


def rt_handler(seed):
    """the data handlers themselves, on arbitrary rows"""
    import random
    rng = random.Random(seed)
    r = np.random.RandomState(seed)
    D = rng.choice([2, 3, 4])
    n = rng.choice([1, 2, 4, 5, 6, 10, rng.randint(1, 40)])
    X, v = r.randn(n, D), r.randn(n, 1)
    h = need('kd.data', 'SparseData')(X.copy(), v.copy())
    h.colloc_num = rng.choice([1, 5, 20])
    np.random.seed(seed % 1009)
    lo, hi = X.min(0), X.max(0)
    h.process_data((lo, hi))
    d = h.get_data()
    both = [tuple(a) + tuple(b) for a, b in zip(np.vstack((d['X_u_train'], d['X_u_val'])), np.vstack((d['u_train'], d['u_val'])))]
    want = [tuple(a) + tuple(b) for a, b in zip(X, v)]
    check(sorted(both) == sorted(want), f'{n} rows of {D} coordinates: the parts are not the rows', 'handler')
    check(len(d['X_u_train']) == int(n * 0.8), 'share of the training rows', 'handler')
    F = d['X_f_train']
    check(len(F) == h.colloc_num + len(d['X_u_train']) and np.array_equal(F[h.colloc_num:], d['X_u_train']), 'collocation rows', 'handler')
    check(np.all(F >= lo - 1e-12) and np.all(F <= hi + 1e-12), 'collocation rows outside the domain', 'handler')


def rt_reject(seed):
    import random
    A = need(AD, 'DiscoverSparseAdapter')
    rng = random.Random(seed)
    P, legacy, order, lhs_, co, u, f, df, pf, unit = problem(rng, seed)
    ds = build_ds(P, legacy, order, lhs_, co, u, pf)
    bad = [dict(sample=u.size + 1), dict(sample_ratio=0.0), dict(sample_ratio=1.5), dict(sample_ratio=-0.1)]
    if legacy:
        bad += [dict(cut_quantile=0.5), dict(cut_quantile=-0.1), dict(data_ratio=0.0), dict(data_ratio=1.1), dict(spline_sample=True, data_ratio=2.0)]
    else:
        bad += [dict(spline_sample=True), dict(cut_quantile=0.1), dict(data_ratio=0.5)]
    kw = rng.choice(bad)
    try:
        A(ds, **kw)
    except (ValueError, NotImplementedError):
        return
    raise Fail(f'{kw} was accepted', 'accepted')


def cases(tier, rng):
    k = 0
    while True:
        s = rng.randrange(10 ** 9)
        yield C([rt_prepare, rt_prepare, rt_prepare, rt_handler, rt_reject][k % 5]), dict(seed=s), (k % 5, s)
        k += 1
