"""C34: merging duplicates keeps one candidate, the shortest, of every distinct value."""
import ast, builtins, random
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq, seq_of
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C34'
LEVEL = 'proof'
BUDGET = {'quick': 20, 'thorough': 400}
RULE = 'all lists of up to 4 candidates with up to 3 values and up to 3 lengths, then random longer lists of programs and terms (numbers and arrays as values); non-trivial when two candidates have the same value'
GA = 'kd.model.discover.ga_utils'
ASSUMPTIONS = ['having the same value is unambiguous: sums of values closer than 1e-5 form classes (no chains of almost equal values)',
               'np.sum of a difference of arrays is the difference of their sums']
I, R = z3.IntSort(), z3.RealSort()


class World:
    """n inputs; input a has the value V(a) (its sum), the length LEN(a) and the class CL(a)"""


class Prog:
    def __init__(self, W, a):
        self.W, self.a = W, a

    @property
    def len_traversal(self):
        return wrap(self.W.LEN(self.a))


class Term(list):
    def __init__(self, W, a):
        self.W, self.a = W, a

    def __symlen__(self):
        return wrap(self.W.LEN(self.a))


class Val:
    """value of an input, or a difference / sum of such values"""

    def __init__(self, W, t, a=None):
        self.W, self.t, self.a = W, t, a

    def __sub__(self, o):
        return Val(self.W, self.t - o.t)

    def __add__(self, o):
        return Val(self.W, self.t + o.t)

    def __neg__(self):
        return Val(self.W, -self.t)


class L(SSeq):
    """list of symbolic length; at(k) is the input at position k"""

    def __init__(self, W, kind, n, at):
        self.W, self.kind, self.n, self.at = W, kind, lift(n), at

    def length(self): return self.n
    def __symlen__(self): return wrap(z3.simplify(self.n))
    def __bool__(self): return cur().decide(self.n > 0)

    def elem(self, k):
        W, a = self.W, z3.simplify(self.at(lift(k)))
        if self.kind == 'len':
            return wrap(W.LEN(a))
        return Val(W, W.V(a), a) if self.kind == 'val' else W.tok(a)

    def pos(self, i):
        t = z3.simplify(lift(i))
        if cur().decide(t < 0):
            t = t + self.n
        cur().prove('merging: list positions are inside the lists', z3.And(t >= 0, t < self.n))
        return t

    def get(self, i):
        return self.elem(self.pos(i))

    def set(self, i, v):
        t, a, old = self.pos(i), input_of(self, v), self.at
        self.at = lambda q: z3.If(q == t, a, old(q))

    def cut(self, a, b):
        lo = z3.IntVal(0) if a is None else lift(a)
        hi = self.n if b is None else lift(b)
        cur().prove('merging: slice bounds are not negative', z3.And(lo >= 0, hi >= 0))
        hi = z3.If(hi > self.n, self.n, hi)
        at = self.at
        return L(self.W, self.kind, z3.simplify(z3.If(hi > lo, hi - lo, 0)), lambda q: at(z3.simplify(q + lo)))

    def index(self, v):
        c = cur()
        if self.kind != 'len':
            raise Unsupported('index of an object')
        p, q, at, LEN = z3.Int(fresh_name('first')), z3.Int('q'), self.at, self.W.LEN
        c.assume(z3.And(p >= 0, p < self.n, LEN(at(p)) == lift(v)), check=False)
        c.assume_axiom(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < p), LEN(at(q)) != lift(v))))
        return wrap(p)

    def copy(self):
        return L(self.W, self.kind, self.n, self.at)


class Out:
    """list being returned, seen at one arbitrary position m0: input there; n entries; how many of the class looked at, and the last such"""

    def __init__(self, W, name, n, at0, count, one):
        self.W, self.name, self.n, self.at0, self.count, self.one = W, name, n, at0, count, one

    def append(self, v):
        W = self.W
        kind = 'tok' if isinstance(v, (Prog, Term)) else 'val' if isinstance(v, Val) else None
        if kind is None:
            raise Unsupported('other result')
        if v.a is None:
            raise Unsupported('computed value')
        W.kinds.setdefault(self.name, set()).add(kind)
        a, mine = v.a, W.CL(v.a) == W.CL(W.w)
        self.at0 = z3.If(self.n == W.m0, a, self.at0)
        self.count = z3.simplify(z3.If(mine, self.count + 1, self.count))
        self.one = z3.If(mine, a, self.one)
        self.n = z3.simplify(self.n + 1)

    def __symlen__(self): return wrap(self.n)


def input_of(lst, v):
    """the input an element stands for"""
    if lst.kind == 'len':
        t = lift(v)
        if z3.is_app(t) and t.decl() == lst.W.LEN:
            return t.arg(0)
        raise Unsupported('computed length')
    if isinstance(v, (Prog, Term)) and lst.kind == 'tok' or isinstance(v, Val) and v.a is not None and lst.kind == 'val':
        return v.a
    raise Unsupported('other element')


class Ip(Interp):
    pick = staticmethod(lambda fr, node: None)

    def loop_template(self, fr, node):
        return self.pick(fr, node)

    def getitem(self, o, i, *a):
        if isinstance(o, L):
            if isinstance(i, slice):
                if i.step is not None:
                    raise Unsupported('list slice step')
                return o.cut(i.start, i.stop)
            return o.get(i)
        return super().getitem(o, i, *a)

    def setitem(self, o, i, v):
        if isinstance(o, L):
            return o.set(i, v)
        return super().setitem(o, i, v)

    def comp(self, e, fr, ctor):
        if len(e.generators) == 1 and not e.generators[0].ifs and ctor is list:
            it = self.eval(e.generators[0].iter, fr)
            if isinstance(it, L):
                probe, f = z3.Int(fresh_name('m')), self.subframe(fr)
                cur().assume(z3.And(probe >= 0, probe < it.n), check=False)
                self.assign(e.generators[0].target, it.elem(probe), f)
                v, src = self.eval(e.elt, f), z3.simplify(it.at(probe))
                kind = 'tok' if isinstance(v, (Prog, Term)) else 'val' if isinstance(v, Val) else 'len'
                a = input_of(L(it.W, kind, it.n, it.at), v)
                if not z3.simplify(a).eq(src):
                    raise Unsupported('computed list')
                return L(it.W, kind, it.n, it.at)
        return super().comp(e, fr, ctor)

    def e_ListComp(self, e, fr): return self.comp(e, fr, list)


def bounds(W, q):
    return z3.And(q >= 0, q < W.n)


def pools(env):
    return [v for v in env.values() if isinstance(v, L)]


def pairwise(W, env, q):
    ps = pools(env)
    return z3.And([ps[0].at(q) == p.at(q) for p in ps[1:]] or [z3.BoolVal(True)])


def covered(W, src, i):
    """what position e (the last one of the class of w) holds once the inputs before i were treated: nothing longer than x"""
    return z3.Implies(z3.And(W.e >= i, W.x < i), W.LEN(src(W.e)) <= W.LEN(W.x))


class Outer(LoopContract):
    def __init__(self, W, outs):
        self.W, self.outs = W, outs

    def out(self, info, nm):
        v = info.env[nm]
        if isinstance(v, list) and not v:
            return Out(self.W, nm, z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        if not isinstance(v, Out):
            raise Unsupported('other result list')
        return v

    def check(self, info, k, when):
        W, c = self.W, cur()
        if when == 'initiation':
            c.prove('merging: every candidate is looked at', info.n == W.n)
        os_ = [self.out(info, nm) for nm in self.outs]
        a = os_[0]
        for b in os_[1:]:
            c.prove('merging: results stay paired with their values', z3.And(a.n == b.n, z3.Implies(W.m0 < a.n, a.at0 == b.at0), a.count == b.count, z3.Implies(a.count > 0, a.one == b.one)))
        c.prove('merging: results are inputs', z3.And(a.n >= 0, z3.Implies(z3.And(W.m0 >= 0, W.m0 < a.n), bounds(W, a.at0))))
        c.prove('merging: one result of each distinct value', a.count == z3.If(W.e < k, 1, 0))
        c.prove('merging: the result of a value is one that has this value, and the shortest', z3.Implies(W.e < k, z3.And(bounds(W, a.one), W.CL(a.one) == W.CL(W.w), W.LEN(a.one) <= W.LEN(W.x))))
        src, q = pools(info.env)[0].at, z3.Int(fresh_name('q'))
        c.prove('merging: candidates stay paired with their values and lengths', z3.Implies(z3.And(bounds(W, q), q >= k), pairwise(W, info.env, q)))
        c.prove('merging: a candidate is replaced only by a shorter one of the same value', z3.Implies(z3.And(bounds(W, q), q >= k), z3.And(bounds(W, src(q)), W.CL(src(q)) == W.CL(q), W.LEN(src(q)) <= W.LEN(q))))
        c.prove('merging: the shortest of a value is passed on', covered(W, src, k))

    def havoc(self, info, k):
        W, c = self.W, cur()
        W.i = k
        n, at0, one, cnt = (z3.Int(fresh_name(x)) for x in ('results', 'at', 'one', 'count'))
        for nm in self.outs:
            info.env[nm] = Out(W, nm, n, at0, cnt, one)
        c.assume(z3.And(n >= 0, z3.Implies(W.m0 < n, bounds(W, at0)), cnt == z3.If(W.e < k, 1, 0),
                        z3.Implies(W.e < k, z3.And(bounds(W, one), W.CL(one) == W.CL(W.w), W.LEN(one) <= W.LEN(W.x)))), check=False)
        src = pool_state(W, info.env, k)
        c.assume(covered(W, src, k), check=False)


def pool_state(W, env, k):
    src, q, c = z3.Function(fresh_name('src'), I, I), z3.Int('q'), cur()
    c.assume_axiom(z3.ForAll([q], z3.Implies(z3.And(bounds(W, q), q >= k), z3.And(bounds(W, src(q)), W.CL(src(q)) == W.CL(q), W.LEN(src(q)) <= W.LEN(q))), patterns=[src(q)]))
    for p in pools(env):
        p.at = src
    return src


class Inner(LoopContract):
    """after k later candidates were compared with candidate i"""

    def __init__(self, W, flag):
        self.W, self.flag = W, flag

    def check(self, info, k, when):
        W, c, i = self.W, cur(), self.W.i
        ps = pools(info.env)
        src = ps[0].at
        if when == 'initiation':
            c.prove('merging: a candidate is compared with every later one', info.n == z3.If(W.n - i - 1 > 0, W.n - i - 1, 0))
            self.src0 = src
            self.seen = []
        else:
            self.seen = [self.dw, i + k]
        s0, q, j = self.src0, z3.Int(fresh_name('q')), i + k
        inr = z3.And(bounds(W, q), q >= i)
        c.prove('merging: candidates stay paired with their values and lengths', z3.Implies(inr, pairwise(W, info.env, q)))
        c.prove('merging: a candidate is replaced only by a shorter one of the same value', z3.Implies(inr, z3.And(bounds(W, src(q)), W.CL(src(q)) == W.CL(q), W.LEN(src(q)) <= W.LEN(q))))
        c.prove('merging: only the compared candidate is replaced', z3.Implies(z3.And(inr, z3.Or(q == i, q > j)), src(q) == s0(q)))
        c.prove('merging: the shortest of a value is passed on', z3.And(z3.Implies(z3.And(W.e >= i, W.x < i), W.LEN(src(W.e)) <= W.LEN(W.x)),
                                                                      z3.Implies(z3.And(W.e > i, W.e <= j, W.CL(i) == W.CL(W.w)), W.LEN(src(W.e)) <= W.LEN(s0(i)))))
        d = lift_bool(info.env[self.flag])
        c.prove('merging: a candidate with a later one of the same value is found', z3.Implies(z3.And(W.e > i, W.e <= j, W.CL(i) == W.CL(W.w)), d))
        c.prove('merging: only such a candidate is found', z3.Implies(d, z3.Or([z3.And(w > i, w <= j, w < W.n, W.CL(w) == W.CL(i)) for w in self.seen] or [z3.BoolVal(False)])))

    def havoc(self, info, k):
        W, c, i = self.W, cur(), self.W.i
        s0, j, q = self.src0, i + k, z3.Int('q')
        src = pool_state(W, info.env, i)
        c.assume_axiom(z3.ForAll([q], z3.Implies(z3.And(bounds(W, q), z3.Or(q == i, q > j)), src(q) == s0(q)), patterns=[src(q)]))
        c.assume(z3.And(z3.Implies(z3.And(W.e >= i, W.x < i), W.LEN(src(W.e)) <= W.LEN(W.x)),
                        z3.Implies(z3.And(W.e > i, W.e <= j, W.CL(i) == W.CL(W.w)), W.LEN(src(W.e)) <= W.LEN(s0(i)))), check=False)
        d, self.dw = z3.Bool(fresh_name('found')), z3.Int(fresh_name('same'))
        info.env[self.flag] = wrap(d)
        c.assume(z3.And(z3.Implies(z3.And(W.e > i, W.e <= j, W.CL(i) == W.CL(W.w)), d),
                        z3.Implies(d, z3.And(self.dw > i, self.dw <= j, self.dw < W.n, W.CL(self.dw) == W.CL(i)))), check=False)


def g_merge(kind):
    def g(ctx):
        f = need(GA, 'drop_duplicates')
        kinds = {}

        def run():
            c = cur()
            W = World()
            W.kinds = kinds
            W.V, W.LEN, W.CL = z3.Function('value', I, R), z3.Function('length', I, I), z3.Function('class', I, I)
            W.n, W.w, W.x, W.e, W.m0 = z3.Ints('inputs w x e m0')
            W.tok = lambda a: kind(W, a)
            q, r = z3.Ints('q r')
            c.assume(z3.And(W.n >= 0, W.m0 >= 0, bounds(W, W.w), bounds(W, W.x), bounds(W, W.e), W.CL(W.x) == W.CL(W.w), W.CL(W.e) == W.CL(W.w)))
            c.assume_axiom(z3.ForAll([q], z3.Implies(z3.And(q > W.e, q < W.n), W.CL(q) != W.CL(W.w)), patterns=[W.CL(q)]))
            c.assume_axiom(z3.ForAll([q, r], z3.And(W.V(q) - W.V(r) < z3.RealVal('1/100000'), W.V(r) - W.V(q) < z3.RealVal('1/100000')) == (W.CL(q) == W.CL(r)),
                                     patterns=[z3.MultiPattern(W.V(q), W.V(r))]))
            c.assume_axiom(z3.ForAll([q], W.LEN(q) >= 1, patterns=[W.LEN(q)]))
            ident = lambda t: t
            toks, vals = L(W, 'tok', W.n, ident), L(W, 'val', W.n, ident)
            ip = Ip(ctx.session)
            intr = ip.intrinsics
            real = {k: intr.get(k) for k in (np.sum, np.abs)}

            def npsum(v, *a, **k):
                return wrap(v.t) if isinstance(v, Val) else real[np.sum](v, *a, **k)
            intr[np.sum] = npsum
            for nat in (np.abs, np.absolute, builtins.abs):
                old = intr.get(nat)
                intr[nat] = (lambda old: lambda v, *a, **k: wrap(z3.If(v.t >= 0, v.t, -v.t)) if isinstance(v, Sym) else old(v, *a, **k))(old)

            loops = {}

            def tmpl(fr, node):
                inner = [x for x in ast.walk(node) if isinstance(x, (ast.For, ast.While)) and x is not node]
                apps = [x.func.value.id for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name)]
                if inner and apps:
                    return loops.setdefault('outer', Outer(W, sorted(set(apps))))
                flags = {x.targets[0].id for x in ast.walk(node) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Constant) and x.value.value is True}
                if not inner and len(flags) == 1 and hasattr(W, 'i'):
                    return Inner(W, flags.pop())
                raise Unsupported('loop of another form')
            ip.pick = tmpl
            res = ip.call(f, toks, vals)
            if not (isinstance(res, (tuple, list)) and len(res) == 2 and all(isinstance(x, Out) for x in res)):
                raise Unsupported('other result')
            a, b = res
            for o, kd in ((a, 'tok'), (b, 'val')):
                kinds.setdefault('result ' + kd, set()).add(o.name)
            c.prove('merging: results are inputs, each with its own value', z3.And(a.n == b.n, z3.Implies(W.m0 < a.n, z3.And(bounds(W, a.at0), a.at0 == b.at0))))
            c.prove('merging: exactly one result of the value of any input', a.count == 1)
            c.prove('merging: it has this value and is not longer than any input of this value', z3.And(bounds(W, a.one), W.CL(a.one) == W.CL(W.w), W.LEN(a.one) <= W.LEN(W.x)))
        ctx.run(run)

        def sides():
            ok = all(kinds.get(nm) == {kd} for kd in ('tok', 'val') for nm in kinds.get('result ' + kd, ()))
            cur().prove('merging: candidates are returned first, values second', z3.BoolVal(ok))
        if kinds:
            ctx.run(sides)
    return g


def groups():
    return [('programs', g_merge(Prog)), ('terms', g_merge(Term))]


# ------------------------------------------------------------------ bounded: the real function
class P:
    def __init__(self, n, k):
        self.len_traversal, self.k = n, k

    def __repr__(self): return f'p{self.k}:{self.len_traversal}'


def merge_ok(vals, lens, form, arrays=False):
    f = need(GA, 'drop_duplicates')
    toks = [P(n, k) for k, n in enumerate(lens)] if form == 'programs' else [[f't{k}'] * n for k, n in enumerate(lens)]
    vs = [np.array([v, 0.5, -0.25]) for v in vals] if arrays else list(vals)
    t0, v0 = list(toks), list(vs)
    rt, rv = f(list(toks), list(vs))
    check(len(rt) == len(rv), f'{len(rt)} candidates, {len(rv)} values')
    num = lambda v: float(np.sum(v)) - (0.25 if arrays else 0)
    got = []
    for t, v in zip(rt, rv):
        ks = [k for k, x in enumerate(t0) if x is t]
        check(len(ks) == 1 and abs(num(v) - vals[ks[0]]) < 1e-9, f'result {t} with the value {v}: not an input with its value (values {vals}, lengths {lens})')
        got.append(ks[0])
    for v in sorted(set(vals)):
        here = [k for k in got if vals[k] == v]
        check(len(here) == 1, f'value {v} is returned {len(here)} times (values {vals}, lengths {lens})')
        best = min(n for n, x in zip(lens, vals) if x == v)
        check(lens[here[0]] == best, f'value {v}: length {lens[here[0]]} kept, {best} is there (values {vals}, lengths {lens})')


def rt_small(vals, lens, form):
    merge_ok(vals, lens, form)


def rt_random(seed):
    r = random.Random(seed)
    n = r.randint(0, 14)
    pool = r.choice([[0., 1., 2.], [0., 1e-3, 2e-3, -1e-3], [5., -5., .3, .30002, 7., 8.], [2e-5 * k for k in range(6)]])
    vals = [r.choice(pool) for _ in range(n)]
    lens = [r.randint(1, r.choice([2, 4, 9])) for _ in range(n)]
    merge_ok(vals, lens, r.choice(['programs', 'terms']), arrays=r.random() < .5)


def cases(tier, rng):
    import itertools
    for n in range(1, 5):
        combos = [(v, l) for v in itertools.product((1., 5., 9.), repeat=n) for l in itertools.product((1, 2, 3), repeat=n)]
        if n == 4:
            rng.shuffle(combos)
            combos = combos[:800 if tier == 'quick' else None]
        for v, l in combos:
            yield C(rt_small), dict(vals=list(v), lens=list(l), form=rng.choice(['programs', 'terms'])), (v, l) if len(set(v)) < n else None
    while True:
        s = rng.randrange(10 ** 9)
        yield C(rt_random), dict(seed=s), s
