"""C32: the reinforcement search reports the best valid candidate it has seen."""
import ast, builtins, contextlib, io, random, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq, SRange, seq_of
from pyvc.arrays import SArr
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C32'
LEVEL = 'proof'
BUDGET = {'quick': 25, 'thorough': 600}
RULE = 'random histories of batches of candidates (valid, invalid, not finite, negative and tied rewards, batches without valid candidates, with and without aggregator) through the real searcher; non-trivial when the seed is new'
SE = 'kd.model.discover.searcher'
ASSUMPTIONS = ['the reward and validity of a candidate do not change during one search (C02, C08)',
               'selection for training, memory, controller and printing change neither the best candidate nor its reward (they do not get the searcher)']


class Any_:
    """a value of the training part of a step: whatever is computed from it is arbitrary too"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any_()

    def __bool__(self): raise Unsupported('decision on an arbitrary value')

    def __call__(self, *a, **k): return Any_()
    def __getitem__(self, i): return Any_()
    def __setitem__(self, i, v): pass
    def __add__(self, o): return Any_()
    def __radd__(self, o): return Any_()
    def __sub__(self, o): return Any_()
    def __mul__(self, o): return Any_()
    def __rmul__(self, o): return Any_()
    def __iter__(self): return iter([Any_()])
    def __symlen__(self): return fresh_int('len')
    def __format__(self, s): return '?'

    def __lt__(self, o): raise Unsupported('order of arbitrary values')
    __gt__ = __le__ = __ge__ = __lt__
    __hash__ = object.__hash__


def anyc(ip, *a, **k):
    return Any_()


class World:
    pass


W = World()


class Prog:
    """candidate number i of the step (the batch, then the aggregated ones; -1: the best one before the step)"""

    def __init__(self, i):
        self.i = lift(i)

    @property
    def invalid(self): return wrap(z3.Not(W.VAL(self.i)))

    @property
    def r_ridge(self): return wrap(W.R(self.i))

    @property
    def str_expression(self): return ('expression', self.i)

    def __repr__(self): return '<candidate>'

    def print_stats(self): return None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any_()


class Ip(Interp):
    def __init__(self, session):
        Interp.__init__(self, session)
        self.contracts[builtins.print] = lambda ip_, *a, **k: None
        tm = need(SE, 'time')
        self.contracts[tm.time] = anyc
        C_ = self.contracts
        C_[np.isfinite] = self.finite
        C_[np.isnan] = lambda ip_, x: self.notnum(x, 'nan')
        C_[np.isinf] = lambda ip_, x: self.notnum(x, 'inf')
        for f in (np.append, np.argsort, np.clip, np.quantile, np.concatenate):
            C_[f] = anyc
        old = self.intrinsics.get(np.array)

        def array(x, *a, **k):
            if isinstance(x, SSeq) and getattr(x, 'proj', None) is None:
                v = x.elem(z3.Int(fresh_name('e')))
                if isinstance(v, Sym) and z3.is_real(v.t):
                    return SArr.make([lift(x.length())], 'real', lambda i: lift(x.elem(i)))
                return Any_()
            if isinstance(x, Any_) or isinstance(x, list) and any(isinstance(y, (Any_, Prog)) or contains_any(y) for y in x):
                return Any_()
            return old(x, *a, **k)
        self.intrinsics[np.array] = array
        t = need(SE, 'torch')
        C_[t.tensor] = anyc

    def finite(self, ip_, x):
        if isinstance(x, Sym):
            return wrap(W.fin(x.t))
        if isinstance(x, SArr):
            return SArr.make(x._shape, 'bool', lambda *i: W.fin(lift(x.term(*i))))
        if isinstance(x, Any_):
            return Any_()
        return np.isfinite(x)

    def notnum(self, x, what):
        if isinstance(x, Sym):
            return wrap(z3.And(z3.Not(W.fin(x.t)), W.NAN(x.t) if what == 'nan' else z3.Not(W.NAN(x.t))))
        if isinstance(x, Any_):
            return Any_()
        raise Unsupported(what)

    def comp(self, e, fr, ctor):
        g = e.generators[0]
        if len(e.generators) == 1:
            it = self.eval(g.iter, fr)
            if isinstance(it, Any_):
                return Any_()
            sq = seq_of(it)
            if sq is not None and not g.ifs and not z3.is_int_value(z3.simplify(lift(sq.length()))):
                def elem(k):
                    f2 = self.subframe(fr)
                    self.assign(g.target, sq.elem(k), f2)
                    return self.eval(e.elt, f2)
                return Seq(sq.length(), elem)
        return super().comp(e, fr, ctor)

    def e_ListComp(self, e, fr): return self.comp(e, fr, list)
    def e_GeneratorExp(self, e, fr): return self.comp(e, fr, list)

    def getitem(self, o, i, *a):
        if isinstance(o, SSeq) and not isinstance(i, (slice, tuple)):
            k = lift(i)
            cur().prove('step: candidates are read inside their list', z3.And(k >= 0, k < lift(o.length())))
            return o.elem(k)
        return super().getitem(o, i, *a)

    def binop(self, op, a, b):
        if isinstance(a, list) and isinstance(b, Sym) or isinstance(a, Seq) or isinstance(b, Seq):
            return Any_()
        return super().binop(op, a, b)

    def call_value(self, f, args, kw):
        if getattr(f, '__name__', '') == 'format' and isinstance(getattr(f, '__self__', None), str):
            return '?'
        return super().call_value(f, args, kw)


def contains_any(y):
    return isinstance(y, (list, tuple)) and any(isinstance(z, (Any_, Prog)) for z in y)


class Seq(SSeq):
    """a list of symbolic length"""

    def __add__(self, o): return Any_()
    def __radd__(self, o): return Any_()

    def __bool__(self):
        return cur().decide(lift(self.length()) > 0)

    def __symlen__(self): return wrap(lift(self.length()))


def world(c):
    W.n, W.m = z3.Int('batch'), z3.Int('aggregated')
    c.assume(z3.And(W.n >= 1, W.m >= 0))
    W.R = z3.Function('reward', z3.IntSort(), z3.RealSort())
    W.VAL = z3.Function('valid', z3.IntSort(), z3.BoolSort())
    W.FIN = z3.Function('finite', z3.IntSort(), z3.BoolSort())
    W.NAN = z3.Function('nan', z3.RealSort(), z3.BoolSort())
    W.q = z3.Int('q')                          # an arbitrary candidate
    W.prev = z3.Bool('has_best')
    c.assume(z3.And(W.q >= -1, W.q < W.n + W.m, z3.Implies(W.q == -1, W.prev)))
    c.assume(z3.Implies(W.prev, W.FIN(-1)))     # invariant of the searcher
    for i in (W.q, z3.IntVal(-1)):
        c.assume_axiom(z3.And(W.R(i) > -10 ** 300, W.R(i) < 10 ** 300))


def fin(t):
    if z3.is_app(t) and t.decl().name() == 'reward':
        return W.FIN(t.arg(0))
    raise Unsupported('finiteness of a computed value')


W.fin = fin


def better(i, j):
    """candidate i is valid and j is not, or both agree and i has the larger reward"""
    vi, vj = W.VAL(i), W.VAL(j)
    return z3.Or(z3.And(vi, z3.Not(vj)), z3.And(vi == vj, W.R(i) > W.R(j)))


def inv(c, s, k, name):
    """the best candidate of the searcher is the best of the previous one and the first k"""
    p, r = s.best_p, s.r_best
    seen = z3.And(W.q < k, W.FIN(W.q))
    if p is None:
        c.prove(f'{name}: a candidate is kept once one has been evaluated', z3.Not(seen))
        c.prove(f'{name}: without a candidate there is no reward', z3.BoolVal(isinstance(r, float) and r == -np.inf))
        return
    if not isinstance(p, Prog):
        raise Unsupported('other best candidate')
    b = p.i
    c.assume_axiom(z3.And(W.R(b) > -10 ** 300, W.R(b) < 10 ** 300))
    c.prove(f'{name}: the best candidate is one that was evaluated, with a finite reward', z3.And(b >= -1, b < k, z3.Implies(b == -1, W.prev), W.FIN(b)))
    c.prove(f'{name}: the best candidate has the largest reward of the valid ones', z3.Implies(seen, z3.Not(better(W.q, b))))
    c.prove(f'{name}: the best reward is the reward of the best candidate', lift(r) == W.R(b))


def state(s, c, k, prev=False, some=False):
    """an arbitrary state satisfying inv"""
    if not some and not c.decide(z3.Bool(fresh_name('some')) if not prev else W.prev):
        c.assume(z3.Not(z3.And(W.q < k, W.FIN(W.q))), check=False)
        s.best_p, s.r_best = None, -np.inf
        return
    b = z3.IntVal(-1) if prev else z3.Int(fresh_name('best'))
    c.assume(z3.And(b >= -1, b < k, z3.Implies(b == -1, W.prev), W.FIN(b)), check=False)
    c.assume_axiom(z3.And(W.R(b) > -10 ** 300, W.R(b) < 10 ** 300))
    c.assume(z3.Implies(z3.And(W.q < k, W.FIN(W.q)), z3.Not(better(W.q, b))), check=False)
    s.best_p, s.r_best = Prog(b), wrap(W.R(b))


def writes_best(node):
    return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ('best_p', 'r_best') for x in ast.walk(node))


class Best(LoopContract):
    """after k candidates of a list starting at number `base` the searcher keeps the best seen so far"""
    modifies = ('best_p', 'r_best')

    def __init__(self, s):
        self.s = s

    def base(self, info):
        if not hasattr(self, '_b'):
            e = info.sq.elem(z3.IntVal(0))
            ps = [x for x in (e if isinstance(e, tuple) else (e,)) if isinstance(x, Prog)]
            if len(ps) != 1:
                raise Unsupported('other candidates')
            self._b = z3.simplify(ps[0].i)
        return self._b

    def check(self, info, k, when):
        inv(cur(), self.s, self.base(info) + k, f'keeping the best ({when})')
        if when == 'initiation':
            self.had = self.s.best_p is not None
        elif self.had:
            cur().prove('keeping the best: a best candidate is never dropped', z3.BoolVal(self.s.best_p is not None))
        for v in self.flags(info):             # a flag set in the loop means that there is a best candidate
            if self.s.best_p is None and (v is True or isinstance(v, SBool) and not cur().entails(z3.Not(v.t))):
                raise Unsupported('flag of the loop')

    def flags(self, info):
        names = {x.id for x in ast.walk(info.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return [info.env[n] for n in names if n in info.entry and isinstance(info.entry[n], (bool, SBool)) and n in info.env]

    def havoc(self, info, k):
        state(self.s, cur(), z3.simplify(self.base(info) + k), some=self.had)
        if self.s.best_p is None:
            for v in self.flags(info):
                if isinstance(v, SBool):
                    cur().assume(z3.Not(v.t), check=False)


def searcher(c):
    S = need(SE, 'Searcher')
    s = S.__new__(S)
    s.args = {'epsilon': 0.2, 'n_iterations': 5, 'n_samples_per_batch': 7, 'stability_selection': 0}
    s.n_iterations, s.batch_size, s.stability_selection = 5, wrap(W.n), 0
    s.total_epoch, s.nevals = 0, 0
    s.r_history, s.r_train, s.top_samples_per_batch = Any_(), Any_(), Any_()
    s.pq, s.plotter = Any_(), Any_()
    s.prev_r_best = None
    return s


class Rows:
    """the sampled token sequences"""

    def numpy(self): return self


def g_step(agg):
    def g(ctx):
        S = need(SE, 'Searcher')

        def run():
            c = cur()
            world(c)
            s = searcher(c)
            state(s, c, z3.IntVal(0), prev=True)
            if not agg:
                c.assume(W.m == 0)
            s.controller = types.SimpleNamespace(sample_episodes=lambda n: (seqrows(), Any_(), Any_(), Any_(), Any_()), max_length=10, pqt_batch_size=1, pqt_k=1,
                                                 train_step=lambda *a: None)
            ip = Ip(ctx.session)

            class Row:
                def __init__(self, i): self.i = i

            class RowSeq(Seq):
                def numpy(self): return self

            def seqrows():
                return RowSeq(W.n, lambda i: Row(lift(i)))
            ft = need(SE, 'from_tokens')
            ip.contracts[ft] = lambda ip_, a, *x, **k: Prog(a.i) if isinstance(a, Row) else (_ for _ in ()).throw(Unsupported('other tokens'))
            ip.contracts[need(SE, 'Batch')] = anyc
            aggregated = {}

            def select(ip_, actions, obs, priors, programs, r, epsilon):
                if c.decide(z3.Bool('nothing_selected')):
                    return None
                return tuple(Any_() for _ in range(10))
            ip.contracts[need(SE, 'quantile_select')] = select

            def aggregator(*a):
                aggregated['yes'] = True
                return Seq(W.m, lambda i: Prog(W.n + lift(i))), Any_(), Any_(), Any_()
            s.gp_aggregator = types.SimpleNamespace(num=3) if agg else None
            if agg:
                class Agg:
                    num = 3
                s.gp_aggregator = Agg()
                ip.contracts[Agg] = None
                Agg.__call__ = lambda self, *a: aggregator(*a)
            ip.loop_template = lambda fr, node: Best(s) if writes_best(node) else None
            ip.call(S.search_one_step, s, (0, 9)[c.choose(2)], bool(c.choose(2)))
            inv(c, s, W.n + (W.m if aggregated else 0), 'after the step')
        ctx.run(run)
    return g


class Cand:
    """a candidate with its own reward and texts"""
    STRidge = None
    invalid = False
    evaluate = {'nmse_test': 0.5}

    def __init__(self, name):
        self.name, self.r_ridge, self.str_expression = name, Real('reward_' + str(name)), f'expression of {name}'

    def execute_stability_test(self): return [.1, .2], [.3, .1]

    def __repr__(self): return f'tokens of {self.name}'


def g_search(ctx):
    """the whole search: starts from nothing unless told otherwise, keeps what the steps keep, and reports one candidate"""
    S = need(SE, 'Searcher')
    P = need(SE, 'Program')

    def run():
        c = cur()
        N = z3.Int('epochs')
        c.assume(N >= 1)
        W.n = z3.Int('batch')
        s = searcher(c)
        s.args = dict(s.args, n_iterations=wrap(N))
        s.n_iterations = wrap(N)
        s.controller = types.SimpleNamespace(pqt_k=3)
        before = [None, Cand('earlier')][c.choose(2)]
        s.best_p, s.r_best = before, -np.inf if before is None else before.r_ridge
        items = c.choose(3) if before is not None else 0
        keep, stab, verbose = bool(c.choose(2)), (0, 2)[c.choose(2)], bool(c.choose(2))
        s.stability_selection = stab
        s.args['stability_selection'] = stab
        cands = [Cand(f'kept {j}') for j in range(2)]

        class Q:
            def __len__(self): return items

            def iter_in_order(self): return [(f'<c32 {j}>', Any_()) for j in range(2)]
        s.pq = Q()
        ip = Ip(ctx.session)
        ip.contracts[need(SE, 'make_queue')] = lambda ip_, *a, **k: Q()
        ip.contracts[need(SE, 'tqdm')] = lambda ip_, it, *a, **k: it
        ip.contracts[need(SE, 'drop_duplicates')] = lambda ip_, ps, sc, *a, **k: (list(ps)[::-1][:1 + c.choose(2)], Any_())
        ip.contracts[need(SE, 'criterion')] = lambda ip_, a, b, **k: np.array(a) * np.array(b)
        st = {'best': None, 'steps': 0}

        def step(ip_, me, *a, **k):
            st['steps'] += 1
            st['best'] = s.best_p = Cand('best after a step')
            s.r_best = s.best_p.r_ridge
            return {}
        ip.contracts[S.search_one_step] = step

        class Loop(LoopContract):
            modifies = ('best_p', 'r_best')

            def check(self, info, k, when):
                if when == 'initiation':
                    fresh = s.best_p is None and s.r_best == -np.inf if s.best_p is None else False
                    c.prove('search: a new search starts without a best candidate', z3.BoolVal(bool(fresh) if not keep or before is None else s.best_p is before and s.r_best is before.r_ridge))
                    c.prove('search: all epochs are run', info.n == N)
                    return
                c.prove('search: every epoch is one step', z3.BoolVal(st['steps'] == 1))
                c.prove('search: the best candidate of the step is kept', z3.BoolVal(s.best_p is st['best'] and s.r_best is st['best'].r_ridge))

            def havoc(self, info, k):
                st['steps'] = 0
                if c.decide(k > 0):
                    st['best'] = s.best_p = Cand('best so far')
                    s.r_best = s.best_p.r_ridge
                else:
                    st['best'] = s.best_p
        lp = []

        def tmpl(fr, node):
            if any(isinstance(x, ast.Attribute) and x.attr == 'search_one_step' for x in ast.walk(node)):
                lp.append(node)
                return Loop()
        ip.loop_template = tmpl
        for j in range(2):
            P.cache[f'<c32 {j}>'] = cands[j]
        try:
            r = ip.call(S.search, s, [None, wrap(N)][c.choose(2)], verbose, keep)
        finally:
            for j in range(2):
                P.cache.pop(f'<c32 {j}>', None)
        b = s.best_p
        if stab == 0:
            c.prove('search: the best candidate of all steps is reported', z3.BoolVal(b is st['best'] and b is not None))
        else:
            c.prove('search: stability selection takes one of the kept candidates', z3.BoolVal(b in cands))
        ok = isinstance(b, Cand) and isinstance(r, dict)
        c.prove('search: reported candidate, reward and texts belong together', z3.BoolVal(ok and r.get('program') is b and r.get('r') is b.r_ridge and r.get('expression') == b.str_expression and r.get('traversal') == repr(b)))
    ctx.run(run)
    ctx.assume_note('stability selection (when enabled) is explored with two kept candidates (bounded)')


def groups():
    return [('one batch', g_step(False)), ('one batch with aggregated candidates', g_step(True)), ('whole search', g_search)]


# ------------------------------------------------------------------ bounded: real searcher, random histories
class Tok:
    arity = 0


class FakeP:
    on_policy = originally_on_policy = True
    STRidge = None

    def __init__(self, i, r, invalid):
        self.i, self.r, self.inv = i, r, invalid
        self.traversal, self.tokens = [Tok()] * 3, np.array([i, 0, 0])
        self.str, self.str_expression = f'p{i}', f'e{i}'
        self.evaluate = {'nmse_test': 1. - r if np.isfinite(r) else 1.}

    @property
    def r_ridge(self):
        return self.r

    @property
    def invalid(self):
        return self.inv

    def print_stats(self): pass

    def __repr__(self): return f't{self.i}'


def rt_history(seed):
    r = random.Random(seed)
    mod = need(SE)
    S = need(SE, 'Searcher')
    P = need(SE, 'Program')
    torch = mod.torch
    B, L = r.randint(1, 8), 6
    pool, seen = {}, []
    grid = [0.0, .25, .5, .5, .75, .9]

    def new(force=None):
        i = len(pool)
        bad = r.random() < (.85 if mode[0] == 'bad' else .3)
        v = r.choice(grid) if r.random() < .6 else r.random()
        if r.random() < .08:
            v = r.choice([float('nan'), float('inf'), -float('inf')]) if bad else -r.random()
        if mode[0] == 'negative':
            v = -r.random()
        if bad and r.random() < .6:
            v = 0.0
        pool[i] = FakeP(i, v, bad)
        return i
    mode = ['plain']
    ctrl = types.SimpleNamespace(pqt_k=r.choice([1, 5]), pqt_batch_size=1, max_length=L, train_step=lambda *a: None)

    def sample(n):
        mode[0] = r.choice(['plain', 'bad', 'negative'])
        ids = [new() if not pool or r.random() < .8 else r.choice(list(pool)) for _ in range(n)]
        seen.extend(ids)
        a = torch.zeros((n, L), dtype=torch.int64)
        a[:, 0] = torch.tensor(ids)
        return a, torch.zeros((n, 4, L)), torch.zeros((n, L, 5)), torch.full((n,), 3), None

    class Agg:
        num = 2

        def __call__(self, programs, max_length):
            mode[0] = 'plain'
            ids = [new() for _ in range(r.randint(0, 2))]
            ids = [i for i in ids if np.isfinite(pool[i].r)]
            seen.extend(ids)
            k = len(ids)
            a = np.zeros((k, L), dtype=np.int64)
            a[:, 0] = ids
            return [pool[i] for i in ids], a, np.zeros((k, 4, L)), np.zeros((k, L, 5))
    ctrl.sample_episodes = sample
    old = mod.from_tokens, dict(P.cache)
    mod.from_tokens = lambda a, *x, **k: pool[int(a[0])]

    def want():
        ok = [pool[i] for i in seen if np.isfinite(pool[i].r)]
        good = [p for p in ok if not p.inv]
        return max((p.r for p in (good or ok)), default=None), bool(good)

    def verify(where):
        w, valid = want()
        if w is None:
            check(s.best_p is None, f'{where}: a best candidate without any evaluated one', 'none')
            return
        check(s.best_p is not None, f'{where}: no best candidate', 'missing')
        check(s.best_p.inv != valid, lambda: f'{where}: the best candidate is {"in" if s.best_p.inv else ""}valid', 'validity')
        check(s.best_p.r == w, lambda: f'{where}: best candidate has reward {s.best_p.r}, the largest of the {"valid " if valid else ""}candidates is {w}', 'largest')
        check(s.r_best == w and s.best_reward == w, lambda: f'{where}: best reward {s.r_best} expected {w}', 'reward')
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            s = S(ctrl, {'n_iterations': 3, 'n_samples_per_batch': B, 'stability_selection': 0, 'epsilon': r.choice([.05, .2, .5, 1.0])}, gp_aggregator=Agg() if r.random() < .5 else None)
            for b in range(r.randint(1, 5)):
                s.search_one_step(epoch=r.choice([b, 9]), verbose=r.random() < .5)
                verify(f'batch {b}')
            for again in range(r.randint(0, 2)):
                keep = r.random() < .3
                if not keep:
                    seen.clear()
                P.cache.update({p.str: p for p in pool.values()})
                n0 = len(seen)
                orig = s.search_one_step

                def one(*a, **k):
                    out = orig(*a, **k)
                    P.cache.update({p.str: p for p in pool.values()})
                    return out
                s.search_one_step = one
                try:
                    n = r.randint(1, 3)
                    res = None
                    try:
                        res = s.search(n_epochs=n, verbose=False, keep_history=keep)
                    except AttributeError:
                        if want()[0] is not None:
                            raise
                finally:
                    del s.search_one_step
                if res is not None:
                    verify(f'search {again}')
                    p = s.best_p
                    check(res['program'] is p and res['r'] == p.r and res['expression'] == p.str_expression and res['traversal'] == repr(p), lambda: f'result {res} of candidate {p}', 'together')
    finally:
        mod.from_tokens = old[0]
        P.cache.clear()
        P.cache.update(old[1])


def cases(tier, rng):
    k = 0
    while True:
        k += 1
        yield C(rt_history), {'seed': rng.getrandbits(40)}, k
