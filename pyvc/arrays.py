"""Symbolic n-d arrays (numpy/torch abstraction): functional stores with affine views."""
import z3
import numpy as np
from .core import (Sym, SInt, SReal, SBool, lift, lift_bool, lift_num, wrap, num2, ite, cur, cur_or_fail,
                   Unsupported, PyRaise, fresh_name, fresh_int, uf, ssqrt, snot)

SORTS = {'int': z3.IntSort, 'real': z3.RealSort, 'bool': z3.BoolSort}
DEFAULT = {'int': lambda: z3.IntVal(0), 'real': lambda: z3.RealVal(0), 'bool': lambda: z3.BoolVal(False)}


def sort_of(t):
    if z3.is_bool(t):
        return 'bool'
    if z3.is_int(t):
        return 'int'
    if z3.is_real(t):
        return 'real'
    raise Unsupported(f'sort {t.sort()}')


def coerce(t, sort):
    s = sort_of(t)
    if s == sort:
        return t
    if sort == 'real':
        if s == 'int':
            return z3.ToReal(t)
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if sort == 'int':
        if s == 'bool':
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        # float stored into int array truncates towards zero
        return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    return t != 0


def join(a, b):
    order = ['bool', 'int', 'real']
    return order[max(order.index(a), order.index(b))]


def as_idx(x):
    t = lift(x)
    if z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if not z3.is_int(t):
        raise Unsupported('non-integer index')
    return t


WRITE_LOG = []      # (store, getter before the write)


class Store:
    __slots__ = ('shape', 'sort', 'get', 'name', 'serial')
    count = 0

    def __init__(self, shape, sort, get, name=None):
        self.serial = Store.count
        Store.count += 1
        self.shape, self.sort, self.get, self.name = tuple(shape), sort, get, name


def dims(shape):
    return tuple(wrap(d) if isinstance(d, z3.ExprRef) else d for d in shape)


class SBytes:
    """bytes of a symbolic array: opaque, compared by content only through the specification"""

    def __init__(self, f, shape, sort):
        self.f, self.shape, self.sort = f, shape, sort

    def same(self, arr, q):
        """claim: these are the bytes of 1-D arr (generic index q)"""
        return z3.And(lift(self.shape[0]) == lift(arr._shape[0]), z3.Implies(z3.And(q >= 0, q < lift(arr._shape[0])), self.f(q) == arr.term(q)))


class SArr:
    """A (view of a) symbolic array. spec[k] for store axis k: ('fix', term) | ('aff', view_axis, off, step)."""
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, store, spec=None, shape=None):
        self.store = store
        if spec is None:
            spec = [('aff', k, z3.IntVal(0), 1) for k in range(len(store.shape))]
            shape = store.shape
        self.spec = spec
        self._shape = tuple(shape)
        self.torch = False

    # ---- construction
    @staticmethod
    def make(shape, sort, get, name=None):
        return SArr(Store([lift(d) if not isinstance(d, int) else z3.IntVal(d) for d in shape], sort, get, name))

    @staticmethod
    def symbolic(name, shape, sort='real', inv=None):
        """inv(idx..., term): element invariant (precondition on the data), instantiated at every element read."""
        f = z3.Function(name, *([z3.IntSort()] * len(shape)), SORTS[sort]())
        if inv is None:
            a = SArr.make(shape, sort, lambda *i: f(*i), name)
        else:
            def get(*i):
                t = f(*i)
                c = cur()
                if c is not None:
                    c.assume_axiom(inv(*i, t))
                return t
            a = SArr.make(shape, sort, get, name)
        a.func = f
        return a

    @staticmethod
    def const(shape, v, sort=None):
        t = lift(v)
        sort = sort or sort_of(t)
        t = coerce(t, sort)
        return SArr.make(shape, sort, lambda *i: t)

    @staticmethod
    def from_np(a):
        a = np.asarray(a)
        if a.dtype == object:
            flat = [lift(x) for x in a.ravel()]
            srt = 'bool' if all(z3.is_bool(x) for x in flat) else ('int' if all(z3.is_int(x) for x in flat) else 'real')
            vals = np.empty(a.shape, dtype=object)
            for k, ix in enumerate(np.ndindex(a.shape)):
                vals[ix] = coerce(flat[k], srt)
        else:
            srt = 'bool' if a.dtype == bool else ('int' if np.issubdtype(a.dtype, np.integer) else 'real')
            if a.size > 4096:
                raise Unsupported('large concrete array')
            vals = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(a.shape):
                vals[ix] = coerce(lift(a[ix].item()), srt)

        def get(*i):
            i = [z3.simplify(x) for x in i]
            if all(z3.is_int_value(x) for x in i):
                return vals[tuple(x.as_long() for x in i)]
            r = DEFAULT[srt]()
            for ix in np.ndindex(vals.shape):
                r = z3.If(z3.And([x == y for x, y in zip(i, ix)]), vals[ix], r)
            return r
        return SArr.make(a.shape, srt, get)

    # ---- basics
    @property
    def shape(self):
        return dims(self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return self.ndim

    @property
    def sort(self):
        return self.store.sort

    @property
    def dtype(self):
        return {'int': np.dtype('int64'), 'real': np.dtype('float64'), 'bool': np.dtype(bool)}[self.sort]

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def T(self):
        return self.transpose(*reversed(range(self.ndim)))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f'<SArr {self.sort} {self.shape}>'

    def sidx(self, vidx):
        r = []
        for s in self.spec:
            if s[0] == 'fix':
                r.append(s[1])
            else:
                _, ax, off, step = s
                v = vidx[ax]
                r.append(z3.simplify(off + (v if step == 1 else v * step)))
        return r

    def term(self, *vidx):
        """z3 term of the element at view index (no bounds check)."""
        return self.store.get(*self.sidx([as_idx(v) for v in vidx]))

    def at(self, *vidx):
        return wrap(self.term(*vidx))

    def snapshot(self):
        """Immutable element function of the view at this moment."""
        g, spec, me = self.store.get, self.spec, self

        def f(*v):
            return g(*me.sidx(v))
        return f

    def copy(self, *_a, **_k):
        return SArr.make(self._shape, self.sort, self.snapshot())

    clone = detach = copy

    def numpy(self):
        return self

    cpu = numpy

    def to(self, *_a, **_k):
        return self

    def astype(self, t, *a, **k):
        srt = sort_from_dtype(t)
        if k.get('copy') is False and srt == self.sort:
            return self                         # may share memory with the original
        f = self.snapshot()
        return SArr.make(self._shape, srt, lambda *v: coerce(f(*v), srt))

    def float(self):
        return self.astype(float)

    double = float

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        axes = [a % self.ndim for a in axes]
        inv = {a: k for k, a in enumerate(axes)}
        spec = [s if s[0] == 'fix' else ('aff', inv[s[1]], s[2], s[3]) for s in self.spec]
        return self._view(spec, [self._shape[a] for a in axes])

    permute = transpose

    def _view(self, spec, shape):
        r = SArr(self.store, spec, shape)
        r.torch = self.torch
        return r

    def tobytes(self):
        return SBytes(self.snapshot(), tuple(self._shape), self.sort)

    def _norm_index(self, i, n, what='index'):
        """normalise a scalar index against length n; out-of-range raises IndexError on that path."""
        t = as_idx(i)
        n = lift(n)
        t = z3.simplify(t)
        c = cur_or_fail()
        if z3.is_int_value(t):
            if t.as_long() < 0:
                t = z3.simplify(n + t)
        elif c.entails(t >= 0):
            pass
        elif c.decide(t < 0):
            t = z3.simplify(n + t)
        if not c.entails(z3.And(t >= 0, t < n)):
            if c.session_oob == 'unchecked':
                pass
            elif c.decide(z3.Not(z3.And(t >= 0, t < n))):
                raise PyRaise(IndexError('index out of bounds'))
        return t

    def _norm_slice(self, s, n):
        n = lift(n)
        step = 1 if s.step is None else s.step
        if isinstance(step, Sym):
            step = step_value(step)
        if not isinstance(step, (int, np.integer)):
            raise Unsupported('slice step')
        step = int(step)
        c = cur_or_fail()

        def clampv(x, dflt, lo, hi):
            if x is None:
                return dflt
            t = z3.simplify(as_idx(x))
            if z3.is_int_value(t):
                t = z3.simplify(n + t) if t.as_long() < 0 else t
            elif c.entails(t >= 0):
                pass
            elif c.decide(t < 0):
                t = z3.simplify(n + t)
            if not c.entails(t >= lo):
                if c.decide(t < lo):
                    return lo
            if not c.entails(t <= hi):
                if c.decide(t > hi):
                    return hi
            return t
        if step > 0:
            lo = clampv(s.start, z3.IntVal(0), z3.IntVal(0), n)
            hi = clampv(s.stop, n, z3.IntVal(0), n)
            ln = z3.simplify(hi - lo)
            if not c.entails(ln >= 0):
                if c.decide(ln < 0):
                    ln = z3.IntVal(0)
            if step != 1:
                ln = z3.simplify((ln + (step - 1)) / step)
            return lo, ln, step
        lo = clampv(s.start, n - 1, z3.IntVal(-1), n - 1)
        hi = clampv(s.stop, z3.IntVal(-1), z3.IntVal(-1), n - 1)
        ln = z3.simplify(lo - hi)
        if not c.entails(ln >= 0):
            if c.decide(ln < 0):
                ln = z3.IntVal(0)
        if step != -1:
            ln = z3.simplify((ln + (-step - 1)) / (-step))
        return lo, ln, step

    def _expand(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        out = []
        seen = False
        for i in idx:
            if i is Ellipsis:
                out.extend([slice(None)] * (self.ndim - n))
                seen = True
            else:
                out.append(i)
        if not seen:
            out.extend([slice(None)] * (self.ndim - n))
        return out

    def _basic_view(self, idx):
        """idx expanded, only ints/slices/None -> (spec, shape)."""
        newspec = {}
        shape = []
        ax = 0
        for i in idx:
            if i is None:
                shape.append(z3.IntVal(1))
                continue
            if isinstance(i, slice):
                if i == slice(None):
                    off, ln, step = z3.IntVal(0), self._shape[ax], 1
                else:
                    off, ln, step = self._norm_slice(i, self._shape[ax])
                newspec[ax] = ('aff', len(shape), off, step)
                shape.append(ln)
            else:
                newspec[ax] = ('fix', self._norm_index(i, self._shape[ax]))
            ax += 1
        spec = []
        for s in self.spec:
            if s[0] == 'fix':
                spec.append(s)
                continue
            _, a, off, step = s
            m = newspec[a]
            if m[0] == 'fix':
                spec.append(('fix', z3.simplify(off + m[1] * step)))
            else:
                spec.append(('aff', m[1], z3.simplify(off + m[2] * step), step * m[3]))
        return spec, shape

    def __getitem__(self, idx):
        idx = self._expand(idx)
        idx = [SArr.from_np(np.array(i)) if isinstance(i, (list, np.ndarray)) and not (isinstance(i, np.ndarray) and i.ndim == 0)
               else i for i in idx]
        adv = [k for k, i in enumerate(idx) if isinstance(i, SArr) and i.ndim > 0]
        if not adv:
            spec, shape = self._basic_view(idx)
            if not shape:
                return wrap(self.store.get(*[s[1] for s in spec]))
            return self._view(spec, shape)
        if len(adv) == 1:
            k = adv[0]
            ia = idx[k]
            if ia.sort == 'bool':
                if ia.ndim != 1:
                    raise Unsupported('boolean selection')
                ia = selection(ia)
            f = self.snapshot()
            # all other entries must be full slices or ints -> view first
            rest = [slice(None) if j == k else i for j, i in enumerate(idx)]
            base = self[tuple(rest)] if any(not (isinstance(r, slice) and r == slice(None)) for r in rest) else self
            kk = k - sum(1 for j in range(k) if not isinstance(idx[j], slice) and idx[j] is not None)
            g, ig = base.snapshot(), ia.snapshot()
            m = ia.ndim
            n = base._shape[kk]
            c = cur_or_fail()
            shape = list(base._shape[:kk]) + list(ia._shape) + list(base._shape[kk + 1:])

            def get(*v):
                j = ig(*v[kk:kk + m])
                j = z3.If(j < 0, j + n, j) if not getattr(ia, 'nonneg', False) else j
                return g(*v[:kk], j, *v[kk + m:])
            return SArr.make(shape, self.sort, get)
        if len(adv) == len(idx) == self.ndim and all(i.sort != 'bool' for i in idx):
            # one index array per axis: element by element (broadcast against each other)
            f = self.snapshot()
            big = max(idx, key=lambda i: i.ndim)
            fs = []
            c = cur_or_fail()
            shape = [None] * big.ndim
            for k in range(big.ndim):
                ds = [lift(i._shape[k - big.ndim + i.ndim]) for i in idx if k - big.ndim + i.ndim >= 0]
                ds = [d for d in ds if not is1(d)] or ds[:1]
                for d in ds[1:]:
                    if not c.entails(d == ds[0]) and c.decide(d != ds[0]):
                        raise PyRaise(IndexError('shape mismatch: indexing arrays could not be broadcast together'))
                shape[k] = ds[0]
            for i, n in zip(idx, self._shape):
                m, g = bmap(i._shape, shape), i.snapshot()

                def at(v, m=m, g=g, n=lift(n), nonneg=getattr(i, 'nonneg', False)):
                    j = g(*m(v))
                    return j if nonneg else z3.If(j < 0, j + n, j)
                fs.append(at)
            return SArr.make(shape, self.sort, lambda *v: f(*[h(v) for h in fs]))
        raise Unsupported('multiple advanced indices')

    def __setitem__(self, idx, val):
        idx = self._expand(idx)
        idx = [SArr.from_np(np.array(i)) if isinstance(i, (list, np.ndarray)) else i for i in idx]
        adv = [k for k, i in enumerate(idx) if isinstance(i, SArr)]
        if not adv:
            spec, shape = self._basic_view(idx)
            self._write_view(spec, shape, val)
            return
        if len(adv) == 1 and idx[adv[0]].sort == 'bool' and idx[adv[0]].ndim == self.ndim and self.ndim == len(idx) + 0:
            pass
        # advanced assignment of a scalar (or a value broadcastable without depending on the advanced axes)
        if isinstance(val, SArr) and val.ndim > 0:
            raise Unsupported('advanced assignment of array')
        v = coerce(lift(val), self.sort)
        conds = []
        ax = 0
        for i in idx:
            if i is None:
                raise Unsupported('newaxis in advanced assignment')
            if isinstance(i, SArr):
                if i.sort == 'bool':
                    m = i.snapshot()
                    nd = i.ndim
                    conds.append((ax, nd, lambda w, m=m: m(*w)))
                    ax += nd
                else:
                    mem = member(i)
                    conds.append((ax, 1, lambda w, mem=mem: mem(w[0])))
                    ax += 1
            elif isinstance(i, slice):
                if i == slice(None):
                    conds.append((ax, 1, lambda w: z3.BoolVal(True)))
                else:
                    off, ln, step = self._norm_slice(i, self._shape[ax])
                    if step != 1:
                        raise Unsupported('step in advanced assignment')
                    conds.append((ax, 1, lambda w, off=off, ln=ln: z3.And(w[0] >= off, w[0] < off + ln)))
                ax += 1
            else:
                t = self._norm_index(i, self._shape[ax])
                conds.append((ax, 1, lambda w, t=t: w[0] == t))
                ax += 1
        nadv = sum(1 for i in idx if isinstance(i, SArr) and i.sort != 'bool') + \
            sum(1 for i in idx if isinstance(i, SArr) and i.sort == 'bool')
        if nadv > 1:
            raise Unsupported('several advanced indices in assignment')
        old = self.store.get
        inv = self._inverse()

        def get(*s):
            ok, w = inv(s)
            c = [ok] + [f(w[a:a + n]) for a, n, f in conds]
            return z3.If(z3.And(c), v, old(*s))
        WRITE_LOG.append((self.store, old))
        self.store.get = get

    def _inverse(self, spec=None, shape=None):
        spec = self.spec if spec is None else spec
        shape = self._shape if shape is None else shape

        def inv(s):
            conds = []
            w = [None] * len(shape)
            for si, sp in zip(s, spec):
                if sp[0] == 'fix':
                    conds.append(si == sp[1])
                else:
                    _, ax, off, step = sp
                    d = si - off
                    if step == 1:
                        w[ax] = z3.simplify(d)
                    elif step == -1:
                        w[ax] = z3.simplify(-d)
                    elif step > 0:
                        conds.append(d % step == 0)
                        w[ax] = z3.simplify(d / step)
                    else:
                        conds.append((-d) % (-step) == 0)
                        w[ax] = z3.simplify((-d) / (-step))
                    conds.append(w[ax] >= 0)
                    conds.append(w[ax] < lift(shape[ax]))
            w = [z3.IntVal(0) if x is None else x for x in w]
            return z3.And(conds) if conds else z3.BoolVal(True), w
        return inv

    def _write_view(self, spec, shape, val):
        if isinstance(val, np.ndarray):
            val = SArr.from_np(val)
        if isinstance(val, (list, tuple)):
            val = SArr.from_np(np.array(val, dtype=object))
        old = self.store.get
        inv = self._inverse(spec, shape)
        srt = self.sort
        if isinstance(val, SArr) and val.ndim > 0:
            if val.ndim > len(shape):
                extra = val.ndim - len(shape)
                if not all(z3.is_int_value(z3.simplify(lift(d))) and z3.simplify(lift(d)).as_long() == 1 for d in val._shape[:extra]):
                    raise PyRaise(ValueError('could not broadcast input array'))
                val = val[(0,) * extra]
                if not isinstance(val, SArr):
                    return self._write_view(spec, shape, val)
            f = val.snapshot()
            k = len(shape) - val.ndim
            m = bmap(val._shape, shape[k:])

            def get(*s):
                ok, w = inv(s)
                return z3.If(ok, coerce(f(*m(w[k:])), srt), old(*s))
        else:
            if isinstance(val, SArr):
                val = val.at()
            v = coerce(lift(val), srt)

            def get(*s):
                ok, w = inv(s)
                return z3.If(ok, v, old(*s))
        WRITE_LOG.append((self.store, old))
        self.store.get = get

    # ---- arithmetic
    def _el(self, o, f, swap=False):
        return elementwise(f, o if swap else self, self if swap else o)

    def __add__(self, o): return self._el(o, lambda a, b: a + b)
    def __radd__(self, o): return self._el(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._el(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._el(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._el(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._el(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._el(o, rdiv)
    def __rtruediv__(self, o): return self._el(o, rdiv, True)
    def __floordiv__(self, o): return self._el(o, lambda a, b: a / b if z3.is_int(a) else z3.ToReal(z3.ToInt(a / b)))
    def __mod__(self, o): return self._el(o, lambda a, b: a % b)
    def __pow__(self, o):
        from .core import _pow
        return self._el(o, _pow)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __abs__(self): return elementwise(lambda a: z3.If(a >= 0, a, -a), self)
    def __lt__(self, o): return self._el(o, lambda a, b: a < b)
    def __le__(self, o): return self._el(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._el(o, lambda a, b: a > b)
    def __ge__(self, o): return self._el(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._el(o, lambda a, b: a == b)
    def __ne__(self, o): return self._el(o, lambda a, b: a != b)
    def __and__(self, o): return elementwise(lambda a, b: z3.And(a, b), self, o, boolean=True)
    def __or__(self, o): return elementwise(lambda a, b: z3.Or(a, b), self, o, boolean=True)
    def __invert__(self): return elementwise(lambda a: z3.Not(a), self, boolean=True)

    def _inplace(self, r):
        self._write_view(self.spec, self._shape, r)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at())
        raise Unsupported('truth value of symbolic array')

    def __len__(self):
        n = z3.simplify(lift(self._shape[0]))
        if z3.is_int_value(n):
            return n.as_long()
        raise Unsupported('len() of symbolic array by native code')

    def __iter__(self):
        n = z3.simplify(lift(self._shape[0]))
        if z3.is_int_value(n):
            return iter([self[k] for k in range(n.as_long())])
        raise Unsupported('iteration over symbolic array by native code')

    # ---- reductions
    def dot(self, o):
        from .linalg import Mx, frozen
        if self.ndim == 2:
            return Mx('dot', frozen(self), frozen(o) if isinstance(o, SArr) else o)
        raise Unsupported('dot')

    def sum(self, axis=None, **k): return reduce_('sum', self, axis)
    def mean(self, axis=None, **k): return reduce_('mean', self, axis)
    def var(self, axis=None, **k): return reduce_('var', self, axis)
    def std(self, axis=None, **k): return reduce_('std', self, axis)
    def max(self, axis=None, **k): return reduce_('max', self, axis)
    def min(self, axis=None, **k): return reduce_('min', self, axis)
    def any(self, axis=None): return any_(self)
    def all(self, axis=None): return all_(self)

    def flatten(self, order='C'):
        if order == 'F':
            return reshape(self.T, (-1,))
        if order != 'C':
            raise Unsupported('flatten order')
        return reshape(self, (-1,))

    ravel = flatten

    def reshape(self, *shp):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        return reshape(self, shp)

    view = reshape

    def squeeze(self, *a):
        ix = []
        for d in self._shape:
            s = z3.simplify(lift(d))
            ix.append(0 if z3.is_int_value(s) and s.as_long() == 1 else slice(None))
        return self[tuple(ix)]

    def unsqueeze(self, ax):
        ix = [slice(None)] * self.ndim
        ix.insert(ax % (self.ndim + 1), None)
        return self[tuple(ix)]


def rdiv(a, b):
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    return a / b


def step_value(s):
    t = z3.simplify(s.t)
    if z3.is_int_value(t):
        return t.as_long()
    raise Unsupported('symbolic slice step')


def sort_from_dtype(t):
    if t is None:
        return 'real'
    if t in (float, np.float64, np.float32) or str(t) in ('float64', 'float32', 'torch.float32', 'torch.float64', 'float'):
        return 'real'
    if t in (bool, np.bool_) or str(t) in ('bool',):
        return 'bool'
    if t in (int, np.int64, np.int32) or str(t) in ('int32', 'int64', 'int'):
        return 'int'
    if t in (complex, np.complex64, np.complex128) or str(t).startswith('complex'):
        return 'real'      # complex arithmetic of real data: imaginary part identically zero
    try:
        k = np.dtype(t).kind
        return {'f': 'real', 'i': 'int', 'u': 'int', 'b': 'bool', 'c': 'real'}[k]
    except Exception:
        raise Unsupported(f'dtype {t}')


def is1(d):
    s = z3.simplify(lift(d)) if not isinstance(d, int) else z3.IntVal(d)
    return z3.is_int_value(s) and s.as_long() == 1


def bmap(src, dst):
    """index map for broadcasting src shape into dst shape (same rank or lower)."""
    k = len(dst) - len(src)
    ones = [is1(s) and not is1(d) for s, d in zip(src, dst[k:])]
    c = cur()
    for s, d, o in zip(src, dst[k:], ones):
        if not o:
            e = z3.simplify(lift(s) == lift(d))
            if not z3.is_true(e) and c is not None and not c.entails(e):
                if c.decide(z3.Not(e)):
                    raise PyRaise(ValueError('operands could not be broadcast together'))

    def m(v):
        v = list(v)[k:]
        return [z3.IntVal(0) if o else x for x, o in zip(v, ones)]
    return m


def elementwise(f, *args, boolean=False):
    args = [SArr.from_np(a) if isinstance(a, np.ndarray) and a.ndim > 0 else
            (SArr.from_np(np.array(a, dtype=object)) if isinstance(a, (list, tuple)) else
             (a.item() if isinstance(a, np.ndarray) else a)) for a in args]
    arrs = [a for a in args if isinstance(a, SArr)]
    nd = max(a.ndim for a in arrs)
    shape = [z3.IntVal(1)] * nd
    for a in arrs:
        k = nd - a.ndim
        for j, d in enumerate(a._shape):
            if is1(shape[k + j]):
                shape[k + j] = lift(d)
    gs = []
    for a in args:
        if isinstance(a, SArr):
            g, m, k = a.snapshot(), bmap(a._shape, shape[nd - a.ndim:]), nd - a.ndim
            gs.append(lambda v, g=g, m=m, k=k: g(*m(v[k:])))
        else:
            t = lift(a)
            gs.append(lambda v, t=t: t)

    def get(*v):
        ts = [g(v) for g in gs]
        if boolean:
            ts = [coerce(t, 'bool') for t in ts]
        elif len(ts) == 2 and ts[0].sort() != ts[1].sort():
            ts = list(num2(*ts))
        elif any(z3.is_bool(t) for t in ts):
            # numpy arithmetic on booleans: + is logical or, * logical and
            if len(ts) == 2 and all(z3.is_bool(t) for t in ts):
                try:
                    probe = f(z3.Int('pp'), z3.Int('qq'))
                    sx = probe.sexpr()
                    if sx == '(+ pp qq)':
                        return z3.Or(ts)
                    if sx == '(* pp qq)':
                        return z3.And(ts)
                except Exception:
                    pass
            ts = [coerce(t, 'int') if z3.is_bool(t) else t for t in ts]
        return f(*ts)
    probe = get(*[z3.Int('probe%d' % k) for k in range(nd)])
    if nd == 0:
        return wrap(get())
    return SArr.make(shape, sort_of(probe), get)


_AGG = {}


def _agg_key(op, a):
    v = [z3.Int('agg%d' % k) for k in range(a.ndim)]
    return (op, z3.simplify(a.term(*v)).sexpr(), tuple(str(z3.simplify(lift(d))) for d in a._shape))


def reduce_(op, a, axis=None):
    """Full reductions are opaque but functionally consistent values with sign axioms."""
    if isinstance(a, np.ndarray):
        a = SArr.from_np(a)
    c = cur_or_fail()
    spec = getattr(c, op + '_spec', None)       # ghost name for a reduction (claims proved by the harness)
    if spec is not None:
        r = spec(a, axis)
        if r is not None:
            return r
    if axis is not None and a.ndim > 1:
        ax = axis % a.ndim
        n = z3.simplify(lift(a._shape[ax]))
        if z3.is_int_value(n) and op in ('sum', 'mean'):
            f = a.snapshot()
            shape = [d for k, d in enumerate(a._shape) if k != ax]
            N = n.as_long()

            def get(*v):
                r = None
                for k in range(N):
                    t = f(*v[:ax], z3.IntVal(k), *v[ax:])
                    t = coerce(t, 'int') if z3.is_bool(t) else t
                    r = t if r is None else r + t
                if op == 'mean':
                    r = rdiv(r, z3.IntVal(N))
                return r
            return SArr.make(shape, 'int' if a.sort != 'real' and op == 'sum' else 'real', get)
        raise Unsupported('axis reduction over symbolic dimension')
    ns = [z3.simplify(lift(d)) for d in a._shape]
    if all(z3.is_int_value(n) for n in ns) and op in ('sum', 'mean', 'max', 'min'):
        ts = [coerce(a.term(*ix), 'int') if a.sort == 'bool' else a.term(*ix)
              for ix in np.ndindex(*[n.as_long() for n in ns])]
        if op in ('sum', 'mean'):
            r = ts[0]
            for t in ts[1:]:
                r = r + t
            return wrap(rdiv(r, z3.IntVal(len(ts))) if op == 'mean' else r)
        r = ts[0]
        for t in ts[1:]:
            r = z3.If((t > r) if op == 'max' else (t < r), t, r)
        return wrap(r)
    key = _agg_key(op, a)
    if key not in _AGG:
        srt = z3.IntSort() if a.sort != 'real' and op in ('sum', 'max', 'min') else z3.RealSort()
        _AGG[key] = z3.Const(fresh_name(op), srt)
    r = _AGG[key]
    v = [z3.Int('aggq%d' % k) for k in range(a.ndim)]
    rng = z3.And([z3.And(x >= 0, x < lift(d)) for x, d in zip(v, a._shape)])
    el = a.term(*v)
    if op in ('var', 'std'):
        c.assume_axiom(r >= 0)
    elif op in ('sum', 'mean'):
        e0 = coerce(el, 'int') if z3.is_bool(el) else el
        if a.sort == 'bool' or syntactically_nonneg(e0):
            c.assume_axiom(r >= 0)
    elif op in ('max', 'min'):
        ok = (el <= r) if op == 'max' else (el >= r)
        c.assume_axiom(z3.ForAll(v, z3.Implies(rng, ok)))
        wit = [z3.Int(fresh_name('wit')) for _ in v]
        c.assume_axiom(z3.And([z3.And(x >= 0, x < lift(d)) for x, d in zip(wit, a._shape)] + [a.term(*wit) == r]))
    return wrap(r)


def syntactically_nonneg(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
    if t.decl().kind() == z3.Z3_OP_POWER:
        e = t.arg(1)
        return (z3.is_int_value(e) or z3.is_rational_value(e)) and str(e) in ('2', '4')
    if t.decl().kind() == z3.Z3_OP_MUL:
        ch = t.children()
        from collections import Counter
        cnt = Counter(c.sexpr() for c in ch)
        rest = [c for c in ch if cnt[c.sexpr()] % 2]
        return all(syntactically_nonneg(c) for c in rest)
    if t.decl().kind() == z3.Z3_OP_ADD:
        return all(syntactically_nonneg(c) for c in t.children())
    if t.decl().kind() == z3.Z3_OP_ITE:
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(t < 0)
        return s.check() == z3.unsat
    return False


def _bound(a):
    v = [z3.Int(fresh_name('q')) for _ in range(a.ndim)]
    return v, z3.And([z3.And(x >= 0, x < lift(d)) for x, d in zip(v, a._shape)])


def exists_(ndim, body):
    """exists i1..in. body(i...). With instantiation terms declared on the path: skolem witness + ground instances (no quantifier)."""
    c = cur()
    inst = getattr(c, 'inst', None) if c is not None else None
    if inst:
        import itertools
        b = z3.Bool(fresh_name('ex'))
        w = [z3.Int(fresh_name('w')) for _ in range(ndim)]
        c.assume_axiom(z3.Implies(b, body(*w)))
        for t in itertools.product(inst, repeat=ndim):
            c.assume_axiom(z3.Implies(body(*t), b))
        return b
    v = [z3.Int(fresh_name('q')) for _ in range(ndim)]
    return z3.Exists(v, body(*v))


def _inrange(a, v):
    return [z3.And(x >= 0, x < lift(d)) for x, d in zip(v, a._shape)]


def any_(a):
    f = a.snapshot()
    return wrap(exists_(a.ndim, lambda *v: z3.And(*_inrange(a, v), coerce(f(*v), 'bool'))))


def all_(a):
    f = a.snapshot()
    return wrap(z3.Not(exists_(a.ndim, lambda *v: z3.And(*_inrange(a, v), z3.Not(coerce(f(*v), 'bool'))))))


def member(a):
    """z3 predicate 'x is an element of 1-d array a'."""
    if hasattr(a, 'member_pred'):
        return a.member_pred
    f = a.snapshot()
    n = z3.simplify(lift(a._shape[0]))
    if z3.is_int_value(n):
        ts = [f(z3.IntVal(k)) for k in range(n.as_long())]
        return lambda x: z3.Or([num2(x, t)[0] == num2(x, t)[1] for t in ts]) if ts else z3.BoolVal(False)
    return lambda x: exists_(1, lambda k: z3.And(k >= 0, k < n, f(k) == x))


class FlatMap:
    """Row-major (or column-major) numbering of a grid as a ghost bijection: digits(i) <-> flat(d...). Stands for div/mod."""

    def __init__(self, dims, order):
        self.dims, self.order = dims, order
        n = fresh_name('grid')
        I = z3.IntSort()
        self.D = [z3.Function(f'{n}_d{k}', I, I) for k in range(len(dims))]
        self.R = z3.Function(f'{n}_at', *([I] * len(dims)), I)
        t = None
        for d in dims:
            t = d if t is None else t * d
        self.total = z3.simplify(t)
        c = cur()
        if getattr(c, 'flat_opaque', False) and len(dims) > 1:     # the product as an unknown number, at least each factor when none is zero
            self.product, self.total = self.total, z3.Int(n + '_total')
            c.assume_axiom(z3.And(self.total >= 0, z3.Implies(z3.And([d >= 1 for d in dims]), z3.And([self.total >= d for d in dims]))))

    def digits(self, i):
        i = lift(i)
        ds = [D(i) for D in self.D]
        c = cur()
        if c is not None:
            c.assume_axiom(z3.Implies(z3.And(i >= 0, i < self.total), z3.And([z3.And(t >= 0, t < d) for t, d in zip(ds, self.dims)] + [self.R(*ds) == i])))
        return ds

    def flat(self, *ds):
        ds = [lift(d) for d in ds]
        r = self.R(*ds)
        c = cur()
        if c is not None:
            c.assume_axiom(z3.Implies(z3.And([z3.And(t >= 0, t < d) for t, d in zip(ds, self.dims)]),
                                      z3.And([r >= 0, r < self.total] + [D(r) == t for D, t in zip(self.D, ds)])))
        return r


def flat_map(dims, order='C'):
    c = cur_or_fail()
    tab = c.__dict__.setdefault('flat_maps', [])
    dims = [z3.simplify(lift(d)) for d in dims]
    for m in tab:
        if m.order == order and len(m.dims) == len(dims) and all(c.entails(x == y) for x, y in zip(m.dims, dims)):
            return m
    m = FlatMap(dims, order)
    tab.append(m)
    return m


def selection(mask):
    """positions of a 1-D boolean array where it holds, in increasing order (np.flatnonzero)"""
    c = cur_or_fail()
    f, n = mask.snapshot(), lift(mask._shape[0])
    q = z3.Int(fresh_name('q'))
    for g, m, r in c.__dict__.setdefault('selections', []):
        if c.entails(m == n) and c.entails(z3.Implies(z3.And(q >= 0, q < n), g(q) == f(q))):
            return r
    K = z3.Int(fresh_name('count'))
    S = z3.Function(fresh_name('sel'), z3.IntSort(), z3.IntSort())
    rank = z3.Function(fresh_name('rank'), z3.IntSort(), z3.IntSort())
    c.assume_axiom(z3.And(K >= 0, K <= n))

    def get(k):
        cc = cur()
        if cc is not None:
            t = S(k)
            cc.assume_axiom(z3.Implies(z3.And(k >= 0, k < K), z3.And(t >= 0, t < n, f(t), rank(t) == k)))
        return S(k)
    r = SArr.make([K], 'int', get)
    r.nonneg = True
    r.func, r.rank = S, rank
    r.complete = lambda i: z3.Implies(z3.And(i >= 0, i < n, f(i)), z3.And(rank(i) >= 0, rank(i) < K, S(rank(i)) == i))
    c.selections.append((f, n, r))
    return r


def reshape(a, shp):
    shp = list(shp)
    cs = [z3.simplify(lift(d)) for d in a._shape]
    # drop/insert singleton axes only, or fully concrete reshapes
    nz = [(k, d) for k, d in enumerate(cs) if not (z3.is_int_value(d) and d.as_long() == 1)]
    neg = [k for k, s in enumerate(shp) if isinstance(s, int) and s == -1]
    if all(z3.is_int_value(d) for d in cs):
        dimsc = [d.as_long() for d in cs]
        total = int(np.prod(dimsc)) if dimsc else 1
        out = np.empty(total, dtype=object).reshape([s if not isinstance(s, Sym) else -1 for s in shp]).shape
        f = a.snapshot()
        strides = [int(np.prod(dimsc[k + 1:])) for k in range(len(dimsc))]
        ostr = [int(np.prod(out[k + 1:])) for k in range(len(out))]

        def get(*v):
            flat = sum((x * s for x, s in zip(v, ostr)), z3.IntVal(0))
            return f(*[z3.simplify((flat / s) % d) for s, d in zip(strides, dimsc)])
        return SArr.make(out, a.sort, get)
    want = []
    for s in shp:
        want.append(lift(s))
    ones = [isinstance(s, int) and s == 1 for s in shp]
    rest = [k for k, o in enumerate(ones) if not o]
    if len(rest) == len(nz) and not (getattr(cur(), 'flat_ghost', False) and len(neg) + sum(1 for r, (k, d) in zip(rest, nz) if r not in neg and cur().entails(want[r] == d)) < len(rest)):
        f = a.snapshot()
        shape = [z3.IntVal(1)] * len(shp)
        c = cur_or_fail()
        for r, (k, d) in zip(rest, nz):
            if r not in neg and not c.entails(want[r] == d):
                raise Unsupported('reshape of symbolic dims')
            shape[r] = d

        def get(*v):
            ix = [z3.IntVal(0)] * len(cs)
            for r, (k, d) in zip(rest, nz):
                ix[k] = v[r]
            return f(*ix)
        return SArr.make(shape, a.sort, get)
    # general row-major flattening of symbolic dims
    if len(shp) == 1 and len(nz) >= 2 and getattr(cur(), 'flat_ghost', False):
        fm = flat_map([d for k, d in nz])
        f = a.snapshot()

        def get(i):
            ix = [z3.IntVal(0)] * len(cs)
            for (k, d), t in zip(nz, fm.digits(i)):
                ix[k] = t
            return f(*ix)
        return SArr.make([fm.total], a.sort, get)
    if len(shp) == 1 and len(nz) >= 2:
        total = None
        for k, d in nz:
            total = d if total is None else total * d
        f = a.snapshot()
        r = SArr.make([total], a.sort, None)

        def get(i):
            ix = [z3.IntVal(0)] * len(cs)
            rem = i
            for (k, d) in reversed(nz[1:]):
                ix[k] = rem % d
                rem = rem / d
            ix[nz[0][0]] = rem
            return f(*ix)
        r.store.get = get
        return r
    if getattr(cur(), 'flat_ghost', False):
        return regroup(a, cs, shp)
    raise Unsupported('reshape')


def regroup(a, cs, shp):
    """row-major reshape that merges runs of axes into one and splits axes into runs (ghost numbering instead of div/mod)"""
    c = cur_or_fail()

    def eq(x, y):
        return c.entails(x == y)

    def prod(ds):
        ds = [d for d in ds if not is1(d)]
        if getattr(c, 'flat_opaque', False) and len(ds) > 1:
            return flat_map(ds).total
        t = z3.IntVal(1)
        for d in ds:
            t = t * d
        return z3.simplify(t)
    want = [None if isinstance(s, int) and s == -1 else lift(s) for s in shp]
    if want.count(None) == 1:
        k = want.index(None)
        # the unknown length: drop what the other lengths account for from both ends
        lo, hi, pre, post = 0, len(cs), 0, len(want)
        while pre < k and lo < hi and eq(want[pre], cs[lo]):
            lo, pre = lo + 1, pre + 1
        while post - 1 > k and hi > lo and eq(want[post - 1], cs[hi - 1]):
            hi, post = hi - 1, post - 1
        rest = [w for j, w in enumerate(want[pre:post]) if pre + j != k]
        if any(not (z3.is_int_value(z3.simplify(w)) and z3.simplify(w).as_long() == 1) for w in rest):
            raise Unsupported('reshape')
        want[k] = prod(cs[lo:hi])
    f = a.snapshot()
    src, dst = [], []                                        # per run: axes of the array, axes of the result
    i = j = 0
    while i < len(cs) or j < len(want):
        if i < len(cs) and j < len(want) and eq(cs[i], want[j]):
            src.append([i])
            dst.append([j])
            i, j = i + 1, j + 1
            continue
        for n in range(1, len(cs) - i + 1):
            if j < len(want) and n > 1 and eq(prod(cs[i:i + n]), want[j]):
                src.append(list(range(i, i + n)))
                dst.append([j])
                i, j = i + n, j + 1
                break
        else:
            for n in range(2, len(want) - j + 1):
                if i < len(cs) and eq(cs[i], prod(want[j:j + n])):
                    src.append([i])
                    dst.append(list(range(j, j + n)))
                    i, j = i + 1, j + n
                    break
            else:
                if j < len(want) and eq(want[j], z3.IntVal(1)):
                    j += 1
                elif i < len(cs) and eq(cs[i], z3.IntVal(1)):
                    i += 1
                else:
                    raise Unsupported('reshape')
    maps = [flat_map([cs[q] for q in s]) if len(s) > 1 else flat_map([want[q] for q in d]) if len(d) > 1 else None for s, d in zip(src, dst)]

    def get(*v):
        ix = [z3.IntVal(0)] * len(cs)
        for s, d, m in zip(src, dst, maps):
            if m is None:
                ix[s[0]] = v[d[0]]
            elif len(s) > 1:
                for q, t in zip(s, m.digits(v[d[0]])):
                    ix[q] = t
            else:
                ix[s[0]] = m.flat(*[v[q] for q in d])
        return f(*ix)
    return SArr.make(want, a.sort, get)
