"""C13: genetic-search candidates are scored on their own terms."""
import ast, copy, types, inspect, builtins
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .sgatree import *
from .c12 import Levels, Ip2, C
from . import sga

ID = 'C13'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'random candidates over several grids, with zero, invalid, left-hand-side-derivative and repeated terms mixed in, scored by the code and by an independent recursive evaluator; non-trivial when the candidate text is new'
PDE = 'kd.model.sga.sgapde.pde'


class VV:
    """value of a subexpression on the grid"""

    def __init__(self, what, shift=None):
        self.what, self.shift = what, shift

    def reshape(self, *a):
        return self

    def __add__(self, o):
        return VV(('perturbed', self), o)


class Fn:
    def __init__(self, nd, st):
        self.nd, self.st = nd, st

    def __call__(self, *args):
        c, nd, st = cur(), self.nd, self.st
        kids = st.children(nd)
        c.prove('evaluate: an operator is applied while its own children are at hand', z3.BoolVal(kids is not None))
        if kids is None:
            raise PathEnd()
        if nd.child_num == 1:
            c.prove('evaluate: a unary operator gets the value of its child', z3.BoolVal(len(args) == 1 and args[0] is kids[0].val))
        elif nd.name.is_d():
            ok = len(args) == 3 and args[0] is kids[0].val
            c.prove('evaluate: a derivative gets the value of its first child', z3.BoolVal(ok))
            nm = kids[1].name
            if ok and isinstance(nm, SName):
                c.prove('evaluate: a derivative uses the spacing and the axis of its second child', z3.And(lift(args[1]) == st.DELTA(nm.t), lift(args[2]) == st.AX(nm.t), nm.t != st.lhs.t))
            else:
                c.prove('evaluate: a derivative is taken with respect to a coordinate', z3.BoolVal(False) if ok else z3.BoolVal(True))
        else:
            ok = len(args) == 2 and args[0] is kids[0].val
            b = args[1] if len(args) == 2 else None
            div = c.decide(nd.name.is_in(('/',)))
            good = b is kids[1].val or (div and isinstance(b, VV) and b.what == ('perturbed', kids[1].val) and getattr(kids[1].val, 'zero', False))
            c.prove('evaluate: a binary operator gets the values of its two children in order', z3.BoolVal(bool(ok and good)))
        return nd.val


class Done:
    """evaluated node: its cache is its value; whether it is a leaf matters only to code that looks at its name"""

    def __init__(self, T, lv, i):
        self._T, self._lv, self.i = T, lv, i
        self.val = VV((lv.tag, i.sexpr()))
        self.cache = self.val
        self.var = ('var', self.i.sexpr())
        self._n = self._m = None

    @property
    def child_num(self):
        if self._m is None:
            self._m = cur().choose(3)
            cur().assume(self._lv.CN(self.i) == self._m)
        return self._m

    @property
    def name(self):
        if self._n is None:
            self._n = SName(self._lv.NM(self.i), self._T) if self.child_num == 0 else OpName(self._T, self.child_num, self._T.all_names)
        return self._n


class ELevel(Level):
    """level of the tree of one term; done: its caches hold the values"""

    def __init__(self, T, tag, st, done):
        self.st, self.done = st, done
        Level.__init__(self, T, tag)

    def make(self, i):
        if not self.done:
            return Level.make(self, i)
        self.step(i)
        return Done(self.T, self, i)

    def adjust(self, i, nd):
        nd.val = VV((self.tag, i.sexpr()))
        nd.i = i
        nd.var = nd.val if nd.child_num == 0 else Fn(nd, self.st)
        nd.cache = nd.var


class Terms:
    """list of terms: position -> original index (after m deletions)"""

    def __init__(self, n, f, what):
        self.n, self.f, self.what = n, f, what
        self.log = ()

    def pop(self, p):
        p = lift(p)
        cur().prove(f'deletion: {self.what}: the removed position exists', z3.And(p >= 0, p < self.n))
        self.log = self.log + ((p, self.f(p)),)
        f = self.f
        self.f = lambda q: z3.If(q < p, f(q), f(q + 1))
        self.n = self.n - 1


def setup(T, st):
    st.DELTA = z3.Function('DELTA', I, z3.RealSort())
    st.AX = z3.Function('AX', I, I)
    st.INAX = z3.Function('INAX', I, z3.BoolSort())
    st.lhs = SName(z3.Int('lhs'), T)

    class Map:
        def __init__(s, fn):
            s.fn = fn

        # precondition (C12): whatever a derivative is taken with respect to is a coordinate leaf
        def __symcontains__(s, x):
            if not isinstance(x, SName):
                raise PathEnd()
            cur().assume(st.INAX(x.t))
            return True

        def get(s, x, d=None):
            return wrap(s.fn(x.t)) if s.__symcontains__(x) else d

        def __getitem__(s, x):
            if not isinstance(x, SName):
                raise PyRaise(KeyError(x))
            return wrap(s.fn(x.t))
    N = Int('rows')
    cur().assume(N.t >= 1)
    st.ut = types.SimpleNamespace(size=N, reshape=lambda *a: ('target', a))
    st.ND = Int('num_default')
    cur().assume(st.ND.t >= 0)
    st.context = types.SimpleNamespace(ut=st.ut, lhs_axis=st.lhs, axis_map=Map(st.AX), delta=Map(st.DELTA), config=types.SimpleNamespace(aic_ratio=Real('ratio')),
                                       default_terms=types.SimpleNamespace(shape=(N, st.ND)), num_default=st.ND)
    return st


class OneTree:
    def __init__(self, root):
        self.root = root

    def __symlen__(self):
        return Int('tree_depth')

    def __getitem__(self, i):
        if i != 0:
            raise Unsupported('level of an evaluated tree')
        return [self.root]


class Cols:
    __slots__ = ('st', 'n', 'f', 'written', 'deleted', 'log', 'src')

    def __init__(self, st, n):
        self.st, self.n, self.f, self.written, self.deleted = st, lift(n), (lambda q: q), {}, []

    @property
    def shape(self):
        return (self.st.ut.size, wrap(z3.simplify(self.n)))

    def set(self, k, v):
        ok = isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None)
        if ok and isinstance(k[1], slice):
            a, b = lift(k[1].start), lift(k[1].stop)
            cur().prove('evaluate: a term fills one column', b == a + 1)
        elif ok:
            a = lift(k[1])
        else:
            raise Unsupported('feature matrix assignment')
        self.written[z3.simplify(a).sexpr()] = (a, v)


def contracts(mod, st):
    def isfun(ip, x):
        return isinstance(x, Fn) and x.nd.child_num == 2 and x.nd.name.is_d()

    def allclose(ip, a, b, **k):
        cur().prove('evaluate: only a divisor is tested for vanishing', z3.BoolVal(isinstance(a, VV) and b == 0.0))
        a.zero = bool(cur().choose(2))
        return a.zero

    def zeros(ip, shape, *a, **k):
        return Cols(st, shape[1])

    def delete(ip, m, p, axis=None):
        if not isinstance(m, Cols) or axis != 1:
            raise Unsupported('np.delete')
        r = Cols(st, m.n - 1)
        p = lift(p)
        f = m.f
        cur().prove('deletion: columns: the removed position exists', z3.And(p >= 0, p < m.n))
        r.f = lambda q: z3.If(q < p, f(q), f(q + 1))
        r.log = (p, f(p))
        r.src = m
        return r

    def any_(ip, x):
        if isinstance(x, VV):
            x.nonzero = bool(cur().choose(2))
            return x.nonzero
        return builtins.any(x)

    def isfinite(ip, m):
        st.finite = bool(cur().choose(2))
        return types.SimpleNamespace(flag=st.finite)

    def hstack(ip, ms):
        ok = isinstance(ms, (tuple, list)) and len(ms) == 2 and ms[0] is st.context.default_terms and isinstance(ms[1], Cols)
        cur().prove('score: the feature matrix is the default terms followed by the columns of the terms', z3.BoolVal(ok))
        return ('features', ms[1])

    def train(ip, R, y, lam, tol, ratio=1, **k):
        c = cur()
        c.prove('score: the regression sees the assembled matrix and the left-hand side', z3.BoolVal(isinstance(R, tuple) and R[0] == 'features' and isinstance(y, tuple) and y[0] == 'target'))
        c.prove('score: the configured penalty ratio is used', lift(ratio) == st.context.config.aic_ratio.t)
        st.trained = R
        st.w = object()
        st.aic = Real('aic')
        return st.w, Real('loss'), Real('mse'), st.aic
    return {inspect.isfunction: isfun, mod.isfunction: isfun, np.allclose: allclose, np.zeros: zeros, np.delete: delete, builtins.any: any_, np.isfinite: isfinite,
            np.hstack: hstack, mod.Train: train, mod._resolve_division_strategy: lambda ip: ('guard', 'legacy')[cur().choose(2)]}


class Ip3(Ip2):
    def contains(self, c, x):
        if isinstance(c, types.SimpleNamespace) and hasattr(c, 'flag'):
            return x is False and not c.flag
        return Ip2.contains(self, c, x)

    def getitem(self, o, i):
        if isinstance(o, (ELevel, Levels3, OneTree)):
            return o[i]
        return Ip2.getitem(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Cols):
            return o.set(i, v)
        return Ip2.setitem(self, o, i, v)


class Levels3(Levels):
    def __init__(self, d, D):
        self.d, self.D = d, D

    def __symlen__(self):
        return wrap(self.D)

    def __getitem__(self, i):
        t = lift(i)
        t = z3.simplify(t)
        if cur().entails(t < 0):
            t = z3.simplify(t + self.D)
        for off, lv in self.d:
            if cur().decide(t == off):
                return lv
        if cur().entails(t == 0):
            if not hasattr(self, 'other'):
                self.other = [types.SimpleNamespace(cache=object(), var=object())]
            return self.other
        raise Unsupported('level outside the current step')


def depth_of(node):
    return max([0] + [1 + depth_of(n) for n in ast.iter_child_nodes(node) if False])


def loops_of(fr, node):
    """'terms' / 'levels' / 'nodes' / 'delete' by nesting: the loop nest with three levels evaluates, the flat loop deletes"""
    def nest(n):
        best = 0
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.For, ast.While)):
                best = max(best, 1 + nest(x))
        return best
    return nest(node)


def g_eval(ctx):
    """one term: the root ends up with the value of the tree, caches are reset"""
    mod = need(PDE)
    ev = need(PDE, 'evaluate_mse')
    real = sga.context_for(seed=0)

    def run():
        c = cur()
        T = Tables('evaluate', real)
        st = types.SimpleNamespace()
        setup(T, st)
        st.children = lambda nd: st.kids(nd)
        D = z3.Int('max_depth')
        c.assume(D >= 2)
        ip = Ip3(ctx.session, contracts=contracts(mod, st))
        st.done = None
        lv0 = Levels3([(D - 1, ELevel(T, 'bottom', st, True))], D)
        # the bottom level has leaves only, so its caches are its values
        term = types.SimpleNamespace(tree=lv0)

        def install(k):
            """k levels above the bottom are evaluated"""
            st.below = ELevel(T, 'below', st, True)
            st.here = ELevel(T, 'here', st, False)
            c_ = cur()
            c_.assume(st.below.n == st.here.S(st.here.n), check=False)
            st.cur_level = D - 2 - k
            c_.assume(z3.And(z3.Implies(D - 1 - k == 0, st.below.n == 1), z3.Implies(D - 2 - k == 0, st.here.n == 1)), check=False)
            term.tree.d = [(D - 1 - k, st.below), (D - 2 - k, st.here)]

        def kids(nd):
            if not hasattr(st, 'here') or st.here.memo.get(nd.i.sexpr()) is not nd:
                return None
            return [st.below.node(z3.simplify(st.here.S(nd.i) + j)) for j in range(nd.child_num)]
        st.kids = kids

        class LevelsC(LoopContract):
            def havoc(self, info, k):
                install(k)
                info.env['term_invalid'] = False

            def check(self, info, k, when):
                if when == 'initiation':
                    cur().prove('evaluate: evaluation starts with a valid term', z3.BoolVal(info.env.get('term_invalid') is False))
                    return
                g = z3.Int(fresh_name('g'))
                cc = cur()
                cc.assume(z3.And(g >= 0, g < st.here.n))
                st.here.step(g)
                # either every node was visited (inner loop) or the level below is empty: then only leaves are here
                if not getattr(st, 'visited', False):
                    cc.prove('evaluate: a level is skipped only when nothing hangs below it', st.here.CN(g) == 0)
                st.visited = False

        class Nodes(LoopContract):
            def havoc(self, info, k):
                st.k = k
                st.visited = True
                info.env['term_invalid'] = False

            def check(self, info, k, when):
                cc = cur()
                if when == 'initiation':
                    st.visited = False
                    return
                inv = info.env.get('term_invalid')
                nd = st.here.node(st.k)
                if inv is True:
                    return
                cc.prove('evaluate: a visited node holds the value of its subexpression', z3.BoolVal(nd.cache is nd.val))
                for j in range(nd.child_num):
                    ch = st.below.node(z3.simplify(st.here.S(st.k) + j))
                    cc.prove('evaluate: a consumed child is reset for the next evaluation', z3.BoolVal(ch.cache is ch.var))

        def pick(fr, node):
            if fr.qual.split('.')[-1] != 'evaluate_mse':
                return None
            n = loops_of(fr, node)
            if isinstance(node, ast.For) and len(ip.cuts) == 0 and n == 1 and ip.loop_stack_depth(fr, node):
                return LevelsC()
            if len(ip.cuts) == 1 and n == 0:
                return Nodes()
            return None
        ip.loop_stack_depth = lambda fr, node: True
        ip.pick = pick
        st.root_checks = 0
        res = ip.call(ev, [term], st.context, True, return_matrix=True)
        root = term.tree[0][0]
        c.prove('evaluate: the root is reset for the next evaluation', z3.BoolVal(root.cache is root.var))
        terms, w, fm = res
        m = fm[1] if isinstance(fm, tuple) else None
        if m is not None:
            zero = z3.IntVal(0).sexpr()
            wv = m.written.get(zero)
            c.prove('score: the column of a term is the value of its own tree', z3.BoolVal(len(terms) == 1 and terms[0] is term and wv is not None and wv[1] is root.val and getattr(root.val, 'nonzero', False)))
            c.prove('score: the coefficients are those of the regression', z3.BoolVal(w is st.w))
        else:
            c.prove('score: without a finite feature matrix there is no coefficient', z3.BoolVal(w == 0 if not hasattr(w, 't') else False))
    ctx.run(run)
    ctx.assume_note('operators, np.allclose, np.isfinite and Train are taken by contract (C10, C11)', 'the bottom level of a tree has leaves only and children ranges are consecutive (C12)')


def g_align(ctx, as_pde):
    """any number of terms, any of them discarded: the remaining terms and the remaining columns stay paired and none of the discarded ones remains"""
    def g(ctx):
        mod = need(PDE)
        ev = need(PDE, 'evaluate_mse')
        real = sga.context_for(seed=0)

        def run():
            c = cur()
            T = Tables('evaluate', real)
            st = types.SimpleNamespace()
            setup(T, st)
            n0 = z3.Int('terms')
            c.assume(n0 >= 1)
            DEL = z3.Function('DISCARDED', I, z3.BoolSort())
            dl = z3.Function('deleted_ix', I, I)
            ndel = z3.Int('n_deleted')
            ip = Ip3(ctx.session, contracts=contracts(mod, st))
            made = {}

            def term_at(k):
                k = z3.simplify(lift(k))
                if k.sexpr() not in made:
                    root = types.SimpleNamespace(val=VV(('root', k.sexpr())), var=object(), cache=None)
                    root.cache = root.val          # contract of the evaluation loops (group evaluate)
                    made[k.sexpr()] = types.SimpleNamespace(root=root, tree=OneTree(root), k=k)
                return made[k.sexpr()]

            class TL(Terms, SSeq):
                def __init__(self):
                    Terms.__init__(self, n0, lambda q: q, 'terms')
                    SSeq.__init__(self, None, None)

                def length(self):
                    return self.n

                def elem(self, k):
                    return term_at(k)

                def __symlen__(self):
                    return wrap(z3.simplify(self.n))
            tl = TL()
            arg = tl
            if as_pde:
                arg = types.SimpleNamespace(elements=tl, W=wrap(n0))

            class Del(SSeq):
                def __init__(self):
                    self.app = ()
                    SSeq.__init__(self, None, None)

                def append(self, x):
                    self.app = self.app + (lift(x),)

                def length(self):
                    return ndel

                def elem(self, m):
                    return wrap(dl(lift(m)))

            def facts(m):
                cc = cur()
                cc.assume_axiom(z3.And(ndel >= 0, ndel <= n0))
                for x in (m, m - 1):
                    cc.assume_axiom(z3.Implies(z3.And(x >= 0, x < ndel), z3.And(dl(x) >= x, dl(x) < n0, DEL(dl(x)))))
                cc.assume_axiom(z3.Implies(z3.And(m >= 1, m < ndel), dl(m) > dl(m - 1)))

            class EvalLoops(LoopContract):
                pass

            class TermsC(LoopContract):
                modifies = ('delete_ix',)

                def havoc(self, info, k):
                    st.k = k
                    info.env['delete_ix'] = st.dels = Del()
                    info.env['terms_values'] = st.cols = Cols(st, n0)

                def check(self, info, k, when):
                    cc = cur()
                    if when == 'initiation':
                        cc.prove('align: nothing is discarded before the first term', z3.BoolVal(info.env.get('delete_ix') == []))
                        cv = info.env.get('terms_values')
                        cc.prove('align: one column per term', cv.n == n0 if isinstance(cv, Cols) else z3.BoolVal(False))
                        return
                    t = term_at(st.k)
                    bad = st.invalid or getattr(t.root.val, 'nonzero', None) is False
                    app, wr = st.dels.app, st.cols.written
                    if bad:
                        cc.prove('align: a discarded term is listed for deletion, once', app[0] == st.k if len(app) == 1 else z3.BoolVal(False))
                    else:
                        cc.prove('align: a kept term is not listed for deletion', z3.BoolVal(not app))
                        e = list(wr.values())
                        cc.prove('align: a kept term fills its own column with its own value', z3.And(z3.BoolVal(len(e) == 1 and e[0][1] is t.root.val), e[0][0] == st.k if e else z3.BoolVal(False)))
                    for a, v in wr.values():
                        cc.prove('align: no other column is touched', a == st.k)
                    cc.prove('align: the root is reset', z3.BoolVal(t.root.cache is t.root.var))

            class Deletion(LoopContract):
                modifies = ('W',)

                def havoc(self, info, m):
                    cc = cur()
                    facts(m)
                    st.m = m
                    F = z3.Function(fresh_name('F'), I, I)

                    def f(x):
                        # loop invariant, instantiated where the lists are looked at: the tail is untouched, nothing discarded is left in front of it
                        cur().assume_axiom(z3.Implies(z3.If(m == 0, x >= 0, x >= dl(m - 1) - (m - 1)), F(x) == x + m))
                        cur().assume_axiom(z3.Implies(z3.And(m >= 1, x >= 0, x < dl(m - 1) - (m - 1)), z3.And(z3.Not(DEL(F(x))), F(x) >= 0)))
                        return F(x)
                    tl.n, tl.f, tl.log = n0 - m, f, ()
                    info.env['terms_values'] = cv = Cols(st, n0 - m)
                    cv.f = f
                    st.F, st.cv0 = F, cv
                    if as_pde:
                        arg.W = wrap(n0 - m)
                    if 'move' in info.env:
                        cc.assume(lift(info.env['move']) == m, check=False)

                def check(self, info, m, when):
                    cc = cur()
                    if 'move' in info.env:
                        cc.prove(f'deletion: the shift is the number of positions already removed [{when}]', lift(info.env['move']) == m)
                    if when == 'initiation':
                        return
                    cv = info.env['terms_values']
                    cc.prove('deletion: exactly the discarded term is removed from the list', tl.log[0][1] == dl(st.m) if len(tl.log) == 1 else z3.BoolVal(False))
                    ok = isinstance(cv, Cols) and getattr(cv, 'src', None) is st.cv0
                    cc.prove('deletion: exactly the column of the discarded term is removed', cv.log[1] == dl(st.m) if ok else z3.BoolVal(False))
                    q = z3.Int(fresh_name('q'))
                    cc.assume(q >= 0, check=False)
                    cc.prove('deletion: terms and columns stay paired', tl.f(q) == cv.f(q) if ok else z3.BoolVal(False))
                    # enumeration of the discarded indices: none between consecutive ones
                    x = tl.f(q)
                    cc.assume_axiom(z3.Implies(z3.And(DEL(st.F(q)), st.F(q) < dl(st.m), z3.If(st.m == 0, True, st.F(q) > dl(st.m - 1))), False))
                    cc.prove('deletion: the tail is the untouched rest', z3.Implies(q >= dl(st.m) - st.m, x == q + st.m + 1))
                    cc.prove('deletion: no discarded term is left behind', z3.Implies(q < dl(st.m) - st.m, z3.Not(DEL(x))))
                    if as_pde:
                        cc.prove('deletion: the width stays the number of terms', lift(arg.W) == tl.n)

            def pick(fr, node):
                if fr.qual.split('.')[-1] != 'evaluate_mse' or not isinstance(node, ast.For):
                    return None
                n = loops_of(fr, node)
                if len(ip.cuts) == 0:
                    return TermsC() if n >= 1 else Deletion()
                if len(ip.cuts) == 1 and n == 1:
                    return SKIP
                return None

            def skip(node, fr, sq, Cc):
                """contract of the evaluation loops, proved in the group 'evaluate': the root holds the value of the term, or the term is marked invalid"""
                st.invalid = bool(cur().choose(2))
                fr.env['term_invalid'] = st.invalid
            SKIP = EvalLoops()
            ip.skip = (SKIP, skip)

            class Roots:
                pass
            ip.pick = pick
            st.invalid = False
            res = ip.call(ev, arg, st.context, not as_pde, return_matrix=True)
            terms_out, w, fm = res if not as_pde else (tl, res[1], res[2])
            if isinstance(fm, tuple):
                c.prove('score: the columns scored are the ones left after deletion', z3.BoolVal(fm[1] is not None and isinstance(fm[1], Cols) and terms_out is tl and fm is st.trained))
                q = z3.Int(fresh_name('q'))
                c.prove('score: column q belongs to term q', z3.And(fm[1].n == tl.n, z3.Implies(z3.And(q >= 0, q < tl.n), fm[1].f(q) == tl.f(q))))
                x = tl.f(q)
                c.assume_axiom(z3.Implies(z3.And(DEL(x), x >= 0, x < n0), z3.And(ndel >= 1, x <= dl(ndel - 1))))      # the list enumerates all discarded terms
                c.prove('score: no discarded term is scored or reported', z3.Implies(z3.And(q >= 0, q < tl.n), z3.Not(DEL(x))))
                c.prove('score: the coefficients are those of the regression', z3.BoolVal(w is st.w))
                if as_pde:
                    c.prove('score: the score is the criterion of the regression', z3.BoolVal(res[0] is st.aic))
            elif as_pde:
                c.prove('score: a candidate without a finite feature matrix gets an infinite score', z3.BoolVal(not hasattr(res[0], 't') and res[0] == np.inf))
        ctx.run(run)
        ctx.assume_note('the list of discarded indices is the increasing enumeration of the discarded terms (proved append by append)')
    return g


class Ip4(Ip3):
    pass


def _cut(self, node, fr, sq, Cc):
    sk = getattr(self, 'skip', None)
    if sk and Cc is sk[0]:
        return sk[1](node, fr, sq, Cc)
    return Ip2.cut_contract(self, node, fr, sq, Cc)


Ip3.cut_contract = _cut
def groups():
    return [('evaluate', g_eval), ('align:terms', g_align(None, False)), ('align:candidate', g_align(None, True))]


# ------------------------------------------------------------------ run-time contracts
def build(seed, ctx, depth, width, p_var, special):
    import random
    rng = random.Random(seed)
    np.random.seed(seed % 2**32)
    p = need(PDE, 'PDE')(ctx, depth, width, p_var)
    for k, t in enumerate(p.elements):
        if special and rng.random() < 0.4:
            sga.set_leaf(t, ctx, rng, '0')
        if special and rng.random() < 0.25:
            sga.lhs_derivative(t, ctx)
        if special and k and rng.random() < 0.15:
            p.elements[k] = copy.deepcopy(p.elements[k - 1])
    return p


def expect(elements, ctx, mode):
    """(kept indices, feature columns, finite)"""
    keep, cols = [], []
    for k, t in enumerate(elements):
        with np.errstate(all='ignore'):
            try:
                v = np.asarray(sga.value(sga.nested(t), ctx, mode), dtype=float)
            except sga.Invalid:
                continue
        v = np.broadcast_to(v, ctx.ut.shape).reshape(-1)
        if not np.any(v):
            continue
        keep.append(k)
        cols.append(v)
    fin = bool(cols) and all(np.all(np.isfinite(c)) for c in cols)
    return keep, cols, fin


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-12 + 1e-9 * (np.max(np.abs(b)) if b.size else 0), equal_nan=True)


def case_score(seed, dim, depth, width, p_var, special, mode):
    import os
    ctx = sga.context_for(seed=seed % 5, dim=dim)
    ev, Train = need(PDE, 'evaluate_mse'), need('kd.model.sga.sgapde.PDE_find', 'Train')
    ext = need('kd.model.sga.sgapde.equation', 'extract_equation_details')
    p = build(seed, ctx, depth, width, p_var, special)
    vars0 = {r[0]: np.array(r[2], copy=True) for r in ctx.VARS}
    old = os.environ.get('KD_SGA_DIVIDE_MODE')
    os.environ['KD_SGA_DIVIDE_MODE'] = mode
    try:
        with np.errstate(all='ignore'):
            names = [t.preorder for t in p.elements]
            trees = [sga.nested(t) for t in p.elements]
            keep, cols, fin = expect(p.elements, ctx, mode)
            if fin and np.linalg.matrix_rank(np.column_stack([ctx.default_terms] + cols)) == 0:
                return
            q = copy.deepcopy(p)
            aic, w, fm = ev(q, ctx, return_matrix=True)
            check([sga.nested(t) for t in q.elements] == [trees[k] for k in keep], lambda: f'terms {names} (kept {keep}): candidate left with {[sga.nested(t) for t in q.elements]}')
            check(q.W == len(q.elements), f'width {q.W} for {len(q.elements)} terms')
            terms, w2, fm2 = ev(copy.deepcopy(p.elements), ctx, True, return_matrix=True)
            check([sga.nested(t) for t in terms] == [trees[k] for k in keep], lambda: 'reported terms are not the scored ones')
            if not fin:
                check(aic == np.inf and fm is None and fm2 is None, lambda: f'a candidate whose terms are {"invalid" if cols else "all discarded"} got the score {aic}')
                return
            check(np.isfinite(aic) or aic == -np.inf or np.isnan(aic), lambda: f'finite candidate got score {aic}')
            for name, m in (('scored', fm), ('reported', fm2)):
                check(m is not None and m.shape == (ctx.ut.size, ctx.num_default + len(keep)), lambda: f'{name} matrix has shape {None if m is None else m.shape}')
                check(np.array_equal(m[:, :ctx.num_default], ctx.default_terms), f'{name} matrix does not start with the default terms')
                for j, c in enumerate(cols):
                    check(close(m[:, ctx.num_default + j], c), lambda: f'{name} column {j} is not the value of its term {trees[keep[j]]}')
            R = np.column_stack([ctx.default_terms] + [fm[:, ctx.num_default + j] for j in range(len(cols))])
            rw, _, _, raic = Train(R.copy(), ctx.ut.reshape(-1, 1).copy(), 0, 1, ctx.config.aic_ratio)
            check(close(w, rw) and close(w2, rw) and close(aic, raic), lambda: f'coefficients/score are not those of the regression: {np.ravel(w)} {aic} instead of {np.ravel(rw)} {raic}')
            # scoring once more gives the same answer: nothing is left behind in the trees
            aic3, w3, fm3 = ev(q, ctx, return_matrix=True)
            check(close(fm3, fm) and close(w3, w), lambda: 'scoring a candidate a second time gave another feature matrix')
            # reported equation
            d = ext(p, ctx)
            wr = np.ravel(rw)
            want = [(ctx.default_names[i], float(wr[i]), None) for i in range(ctx.num_default) if abs(wr[i]) >= 1e-5]
            want += [(None, float(wr[ctx.num_default + j]), trees[keep[j]]) for j in range(len(keep)) if abs(wr[ctx.num_default + j]) >= 1e-5]
            got = [(t.label if t.tree is None else None, t.coefficient, None if t.tree is None else sga.nested(t.tree)) for t in d.terms]
            check(len(got) == len(want) and all(g[0] == v[0] and g[2] == v[2] and close(g[1], v[1]) for g, v in zip(got, want)), lambda: f'reported terms {got} instead of {want}')
            check(d.predicted_rhs is not None and close(np.asarray(d.predicted_rhs).reshape(-1), R.dot(rw).reshape(-1)), 'predicted right-hand side is not feature matrix times coefficients')
            small = sum(abs(wr[i]) * np.max(np.abs(R[:, i])) for i in range(len(wr)) if abs(wr[i]) < 1e-5)
            rec = sum((c_ * (R[:, list(ctx.default_names).index(l)] if t is None else np.broadcast_to(sga.value(t, ctx, mode), ctx.ut.shape).reshape(-1)) for l, c_, t in got), np.zeros(ctx.ut.size))
            ref = np.asarray(d.predicted_rhs).reshape(-1)
            check(np.max(np.abs(rec - ref)) <= small + 1e-5 * (1 + np.max(np.abs(ref)) + sum(abs(c_) * np.max(np.abs(R)) * 1e-6 for _, c_, _ in got)), lambda: 'the reported equation does not reproduce the fit that was scored')
            # concise text: one summand per coefficient of at least 1e-4
            txt = copy.deepcopy(p).concise_visualize(ctx)
            want = ''
            lab = list(ctx.default_names) + [p.elements[k].inorder for k in keep]
            for i, c_ in enumerate(wr):
                if abs(c_) >= 1e-4:
                    want += (' + ' if want else '') + str(round(float(c_), 4)) + lab[i]
            if all(abs(abs(c_) - 1e-4) > 1e-9 and abs(round(c_ * 1e4 % 1, 6) - 0.5) > 1e-5 for c_ in wr):
                check(txt == want, lambda: f'text {txt!r} instead of {want!r}')
            for r in ctx.VARS:
                check(np.array_equal(np.asarray(r[2]), vars0[r[0]], equal_nan=True), f'scoring changed the data of {r[0]}')
    finally:
        os.environ.pop('KD_SGA_DIVIDE_MODE', None) if old is None else os.environ.__setitem__('KD_SGA_DIVIDE_MODE', old)


def cases(tier, rng):
    i = 0
    while True:
        i += 1
        s = rng.randrange(10**6)
        yield C(case_score), dict(seed=s, dim=('2d', 'multi', 'y', '3d')[i % 4], depth=2 + i % 4, width=1 + i % 5, p_var=(0.2, 0.5, 0.8)[i % 3], special=i % 3 > 0, mode=('legacy', 'guard')[i % 2]), ('s', s)
