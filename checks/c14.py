"""C14: the genetic search keeps its best candidate and a ranked population."""
import ast, copy, types, random, builtins
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq, _Break, _Continue
from pyvc.report import need, check, Fail
from . import sga
from .c12 import C

ID = 'C14'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded searches over several problems, pool sizes and probabilities, observed after construction and after every crossover and change; non-trivial when the seed is new'
SOL = 'kd.model.sga.sgapde.solver'
I, R = z3.IntSort(), z3.RealSort()


class Cand:
    """candidate equation: content id; only candidates that nobody else holds may be altered"""

    def __init__(self, W, cid, mine):
        self.W, self.cid, self.mine = W, cid, mine

    def alter(self, what):
        if not self.mine:
            cur().prove(f'{self.W.fn}: a candidate kept in the pool is never altered in place ({what})', z3.BoolVal(False))
        self.cid = z3.Int(fresh_name('cid'))

    def mutate(self, p):
        self.alter('mutate')

    def replace(self):
        self.alter('replace')

    def visualize(self):
        return Text(self)

    def concise_visualize(self, ctx):
        return Text(self)


class Text:
    def __init__(self, c):
        self.c = c

    def __format__(self, s):
        return 'text'


class Lib:
    def append(self, x):
        pass

    def __symcontains__(self, x):
        return bool(cur().choose(2))


class Box:
    __slots__ = ('memo', 'writes', 'read')


class SL(SSeq):
    """list with a symbolic length; scores (reals) or candidates (content ids)"""

    def __init__(self, W, kind, n, at, mine=False):
        self.W, self.kind, self.n, self.at, self.mine = W, kind, lift(n), at, mine
        self.box = Box()
        self.box.read = False
        self.memo, self.writes = {}, None
        SSeq.__init__(self, None, None)

    memo = property(lambda self: self.box.memo, lambda self, v: setattr(self.box, 'memo', v))
    writes = property(lambda self: self.box.writes, lambda self, v: setattr(self.box, 'writes', v))

    def length(self):
        return self.n

    def __symlen__(self):
        return wrap(z3.simplify(self.n))

    def elem(self, k):
        k = z3.simplify(lift(k))
        self.box.read = True
        if self.kind == 'm':
            return wrap(self.at(k))
        key = k.sexpr()
        if key not in self.memo:
            self.memo[key] = Cand(self.W, self.at(k), self.mine)
        return self.memo[key]

    def get(self, i):
        t = lift(i)
        if cur().decide(t < 0):
            t = t + self.n
        cur().prove(f'{self.W.fn}: list index in range', z3.And(t >= 0, t < self.n))
        return self.elem(t)

    def set(self, i, v):
        t = z3.simplify(lift(i))
        cur().prove(f'{self.W.fn}: list index in range', z3.And(t >= 0, t < self.n))
        val = lift(v) if self.kind == 'm' else v.cid
        old = self.at
        if self.writes is not None:
            self.writes.append((t, val))
            return
        self.at = lambda q: z3.If(q == t, val, old(q))
        self.memo = {}

    def append(self, v):
        val = lift(v) if self.kind == 'm' else v.cid
        if self.kind == 'e':
            v.mine = v.mine
        old, n = self.at, self.n
        self.at = lambda q: z3.If(q == n, val, old(q))
        self.n = z3.simplify(n + 1)
        self.memo = {}

    def cut(self, a, b):
        lo = z3.IntVal(0) if a is None else lift(a)
        hi = self.n if b is None else lift(b)
        c = cur()
        c.prove(f'{self.W.fn}: slice bounds are not negative', z3.And(lo >= 0, hi >= 0))
        hi = z3.If(hi > self.n, self.n, hi)
        at = self.at
        return SL(self.W, self.kind, z3.If(hi > lo, hi - lo, 0), lambda q: at(q + lo), self.mine)

    def copy(self, mine=None):
        return SL(self.W, self.kind, self.n, self.at, self.mine if mine is None else mine)


class World:
    def __init__(self, fn):
        self.fn = fn
        self.SCORE = z3.Function('SCORE', I, R)
        self.NORM = z3.Function('NORM', I, I)

    def pool(self, n, paired=True):
        """two arbitrary lists, element q of one being the score of element q of the other"""
        M, E = z3.Function(fresh_name('M'), I, R), z3.Function(fresh_name('E'), I, I)

        def fact(q):
            cur().assume_axiom(z3.Implies(z3.And(q >= 0, q < n), self.SCORE(E(q)) == M(q)))

        def m(q):
            fact(q)
            return M(q)

        def e(q):
            fact(q)
            return E(q)
        return SL(self, 'm', n, m), SL(self, 'e', n, e)


class Ip(Interp):
    cuts = ()
    pick = staticmethod(lambda fr, node: None)

    def loop_template(self, fr, node):
        return self.pick(fr, node)

    def cut_contract(self, node, fr, sq, Cc):
        old, self.cuts = self.cuts, self.cuts + (Cc,)
        try:
            if isinstance(Cc, MapLoop):
                return Cc.run(self, node, fr, sq)
            return Interp.cut_contract(self, node, fr, sq, Cc)
        finally:
            self.cuts = old

    def getitem(self, o, i):
        if isinstance(o, SL):
            if isinstance(i, slice):
                if i.step is not None:
                    raise Unsupported('list slice step')
                return o.cut(i.start, i.stop)
            return o.get(i)
        return Interp.getitem(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, SL):
            return o.set(i, v)
        return Interp.setitem(self, o, i, v)

    def comp(self, e, fr, ctor):
        if len(e.generators) == 1 and not e.generators[0].ifs and ctor is list:
            it = self.eval(e.generators[0].iter, fr)
            if isinstance(it, SL):
                W, kinds = it.W, {}
                f0 = self.subframe(fr)
                probe = z3.Int(fresh_name('m'))
                cur().assume(z3.And(probe >= 0, probe < it.n))

                def at(q, kind):
                    f2 = self.subframe(fr)
                    self.assign(e.generators[0].target, it.elem(q), f2)
                    v = self.eval(e.elt, f2)
                    return lift(v) if kind == 'm' else v.cid
                self.assign(e.generators[0].target, it.elem(probe), f0)
                v = self.eval(e.elt, f0)
                kind = 'e' if isinstance(v, Cand) else 'm'
                t = at(probe, kind)
                facts = self.facts_now()
                return SL(W, kind, it.n, lambda q: (facts(q), z3.substitute(t, (probe, q)))[1])
        return Interp.comp(self, e, fr, ctor)

    def facts_now(self):
        """the sorting permutations known so far, to be instantiated at a position"""
        known = tuple(getattr(self, 'perm_facts', ()))

        def facts(q):
            for f in known:
                f(q)
        return facts


class MapLoop(LoopContract):
    """every iteration writes only its own position of the lists (side condition checked); the state after the loop is the pointwise result"""

    def run(self, ip, node, fr, sq):
        c = cur()
        if node.orelse:
            raise Unsupported('for/else')
        k = z3.Int(fresh_name('k'))
        n = lift(sq.length())
        c.assume(z3.And(k >= 0, k < n))
        lists = {}
        for v in list(fr.env.values()) + list(vars(fr.env['self']).values()):
            if isinstance(v, SL):
                lists[id(v)] = v
        for v in lists.values():
            v.writes, v.box.read = [], False
        ip.assign(node.target, sq.elem(k), fr)
        ip.block(node.body, fr)
        res = []
        for v in lists.values():
            w, v.writes = v.writes, None
            if not w:
                continue
            if v.box.read:
                raise Unsupported('loop reads a list it rewrites')
            if len(w) != 1 or not c.entails(w[0][0] == k):
                raise Unsupported('loop does not write its own position only')
            res.append((v, w[0][1]))
        written = {id(v) for v, _ in res}
        facts = ip.facts_now()
        for v, val in res:
            old = v.at
            v.at = (lambda old, val: lambda q: (facts(q), z3.If(z3.And(q >= 0, q < n), z3.substitute(val, (k, q)), old(q)))[1])(old, val)
            v.memo = {}


def contracts(ctx, ip, W, mod):
    ip.perm_facts = []

    def argsort(ip_, a, *r, **k):
        if not isinstance(a, SL):
            raise Unsupported('argsort of something else')
        P = z3.Function(fresh_name('P'), I, I)
        at, n = a.at, a.n

        def fact(q):
            c = cur()
            for x in (q, q + 1):
                c.assume_axiom(z3.Implies(z3.And(x >= 0, x < n), z3.And(P(x) >= 0, P(x) < n)))
            c.assume_axiom(z3.Implies(z3.And(q >= 0, q + 1 < n), at(P(q)) <= at(P(q + 1))))
        ip.perm_facts.append(fact)
        W.sorted_of.append((P, at, n))
        s = SL(W, 'm', n, lambda q: (fact(q), P(q))[1])
        return s

    def argmin(ip_, a, *r, **k):
        i = z3.Int(fresh_name('argmin'))
        c = cur()
        c.assume(z3.And(i >= 0, i < a.n))
        W.argmin_of.append((i, a.at, a.n))
        return wrap(i)

    def deepcopy(ip_, x, *r):
        if isinstance(x, SL):
            return x.copy(mine=True)
        if isinstance(x, Cand):
            return Cand(W, x.cid, True)
        return x

    def shuffle(ip_, x):
        Q = z3.Function(fresh_name('Q'), I, I)
        at, n = x.at, x.n

        def f(q):
            cur().assume_axiom(z3.Implies(z3.And(q >= 0, q < n), z3.And(Q(q) >= 0, Q(q) < n)))
            return at(Q(q))
        x.at, x.memo = f, {}

    def evaluate(ip_, cand, context, *a, **k):
        c = cur()
        if not cand.mine:
            c.prove(f'{W.fn}: scoring (which drops vanishing terms) is never applied to a candidate of the pool', z3.BoolVal(False))
        cand.cid = W.NORM(cand.cid)
        return wrap(W.SCORE(cand.cid)), object()

    def randint(ip_, *a, **k):
        return Int(fresh_name('rnd'))
    # module-level stand-ins
    out = {np.argsort: argsort, np.argmin: argmin, copy.deepcopy: deepcopy, random.shuffle: shuffle, np.random.choice: lambda ip_, seq, **k: seq[cur().choose(len(seq))],
           mod.evaluate_mse: evaluate, builtins.print: lambda ip_, *a, **k: None}
    pdem = need('kd.model.sga.sgapde.pde')
    out[pdem.evaluate_mse] = evaluate
    out[pdem.PDE] = lambda ip_, *a, **k: Cand(W, z3.Int(fresh_name('new')), True)
    W.sorted_of, W.argmin_of = [], []
    return out


def min_fact(W, q):
    """nothing in a list precedes the first entry of its sorted order / the entry of its argmin"""
    c = cur()
    for P, at, n in W.sorted_of:
        c.assume_axiom(z3.Implies(z3.And(q >= 0, q < n), at(P(z3.IntVal(0))) <= at(q)))
    for i, at, n in W.argmin_of:
        c.assume_axiom(z3.Implies(z3.And(q >= 0, q < n), at(i) <= at(q)))


def ghost_pool(ip, cls, W, num):
    s = cls.__new__(cls)
    s.num, s.context, s.pde_lib, s.err_lib = num, object(), Lib(), Lib()
    s.repeat_cross, s.repeat_change, s.ratio = Int('rc'), Int('rch'), 1
    s.p_mute, s.p_cro, s.p_rep = Real('pm'), Real('pc'), Real('pr')
    cur().assume(z3.And(s.p_cro.t >= 0, s.p_cro.t <= 1))
    s.mses, s.eqs = W.pool(num.t)
    return s


def final(c, W, s, num, old_m, nm, n_old):
    """the state every generation boundary must satisfy"""
    q = z3.Int(fresh_name('q'))
    m, e = s.mses, s.eqs
    ok = isinstance(m, SL) and isinstance(e, SL) and m.kind == 'm' and e.kind == 'e'
    c.prove(f'{nm}: the pool holds scores and candidates', z3.BoolVal(ok))
    if not ok:
        return
    c.prove(f'{nm}: the pool has the configured size', z3.And(m.n == num, e.n == num))
    c.assume(z3.And(q >= 0, q < num))
    mq, eq = m.at(q), e.at(q)
    c.prove(f'{nm}: every score belongs to its candidate', W.SCORE(eq) == mq)
    m1 = m.at(q + 1)
    c.prove(f'{nm}: the pool is ranked', z3.Implies(q + 1 < num, mq <= m1))
    if old_m is not None:
        j = z3.Int(fresh_name('j'))
        c.assume(z3.And(j >= 0, j < n_old))
        min_fact(W, j)
        om = old_m(j)
        f = m.at(z3.IntVal(0))
        for x in list(W.lemma(j)):
            c.assume_axiom(x)
        c.prove(f'{nm}: the best score never gets worse', f <= om)


class Grow(LoopContract):
    """the loop only adds scored candidates behind the current pool"""
    modifies = ('mses', 'eqs', 'repeat_cross', 'repeat_change')

    def __init__(self, W, s, nm):
        self.W, self.s, self.nm = W, s, nm

    def havoc(self, info, k):
        s, W = self.s, self.W
        c = cur()
        b = self.base
        a = z3.Int(fresh_name('added'))
        c.assume(a >= 0, check=False)
        m2, e2 = W.pool(b[0] + a)
        s.mses = SL(W, 'm', b[0] + a, lambda q: z3.If(q < b[0], b[1](q), m2.at(q)))
        s.eqs = SL(W, 'e', b[0] + a, lambda q: z3.If(q < b[0], b[2](q), e2.at(q)))
        self.pre = (s.mses, s.eqs, s.mses.n, s.mses.at, s.eqs.at)
        s.repeat_cross, s.repeat_change = Int(fresh_name('rc')), Int(fresh_name('rch'))

    def check(self, info, k, when):
        s, c = self.s, cur()
        if when == 'initiation':
            self.base = (s.mses.n, s.mses.at, s.eqs.at)
            c.prove(f'{self.nm}: as many scores as candidates [{when}]', s.mses.n == s.eqs.n)
            return
        c.prove(f'{self.nm}: as many scores as candidates [{when}]', z3.And(s.mses.n == s.eqs.n, s.mses.n >= self.pre[2]))
        q = z3.Int(fresh_name('q'))
        c.assume(z3.And(q >= 0, q < s.mses.n))
        m, e = s.mses.at(q), s.eqs.at(q)
        c.prove(f'{self.nm}: every added score belongs to its candidate', z3.Implies(q >= self.base[0], self.W.SCORE(e) == m))
        c.prove(f'{self.nm}: the earlier pool is untouched while candidates are added', z3.Implies(q < self.base[0], z3.And(m == self.base[1](q), e == self.base[2](q))))


def has_append(node):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' for x in ast.walk(node))


def g_step(name):
    def g(ctx):
        mod = need(SOL)
        SGA = need(SOL, 'SGA')

        def run():
            c = cur()
            W = World(name)
            num = Int('num')
            c.assume(num.t >= 1)
            ip = Ip(ctx.session)
            ip.contracts.update(contracts(ctx, ip, W, mod))
            s = ghost_pool(ip, SGA, W, num)
            old_m = s.mses.at
            grow = Grow(W, s, name)
            W.lemma = lambda j: []

            def pick(fr, node):
                if not isinstance(node, ast.For) or ip.cuts:
                    return None
                return grow if has_append(node) else MapLoop()
            ip.pick = pick

            def cross(ifn, a, b):
                return Cand(W, z3.Int(fresh_name('child')), True), Cand(W, z3.Int(fresh_name('child')), True)
            ip.local_contracts['cross_individual'] = cross
            ip.local_contracts['cross_individual'] = cross
            # the pool as found is arbitrary (paired) when a step starts
            if name == 'cross_over':
                ip.call(SGA.cross_over, s, s.p_cro)
            else:
                ip.call(SGA.change, s, s.p_mute, s.p_rep)

            def lemma(j):
                # first sort: its first entry is the old minimum; last sort: its first entry is not above entry 0 of what it sorted
                out = []
                for P, at, n in W.sorted_of:
                    out.append(z3.Implies(n > 0, at(P(z3.IntVal(0))) <= at(z3.IntVal(0))))
                    for P2, at2, n2 in W.sorted_of:
                        x = P2(z3.IntVal(0))
                        out.append(z3.Implies(z3.And(x >= 0, x < n), at(P(z3.IntVal(0))) <= at(x)))
                return out
            W.lemma = lemma
            for f in ip.perm_facts:
                f(z3.IntVal(0))
            final(c, W, s, num.t, old_m, name, num.t)
        ctx.run(run)
        ctx.assume_note('np.argsort returns a permutation that sorts its argument; scores are totally ordered (no NaN)', 'a score depends on the content of a candidate only (C13)',
                        'random.shuffle permutes its argument', 'cross_individual returns two new candidates that share nothing with the pool (checked at run time, C12)')
    return g


def g_init(ctx):
    mod = need(SOL)
    SGA = need(SOL, 'SGA')

    def run():
        c = cur()
        W = World('init')
        num = Int('num')
        c.assume(num.t >= 1)
        ip = Ip(ctx.session)
        ip.contracts.update(contracts(ctx, ip, W, mod))
        s = SGA.__new__(SGA)
        W.lemma = lambda j: []

        class Fill(Grow):
            modifies = ('mses', 'eqs')

            def havoc(self, info, k):
                a = k
                m2, e2 = W.pool(a)
                s.mses, s.eqs = m2, e2

            def check(self, info, k, when):
                cc = cur()
                if when == 'initiation':
                    cc.prove('init: the pool starts empty', z3.BoolVal(s.mses == [] and s.eqs == []))
                    return
                cc.prove('init: one candidate and one score per round', z3.And(s.mses.n == k, s.eqs.n == k))
                q = z3.Int(fresh_name('q'))
                cc.assume(z3.And(q >= 0, q < k))
                m, e = s.mses.at(q), s.eqs.at(q)
                cc.prove('init: every score belongs to its candidate', W.SCORE(e) == m)

        class Redraw(LoopContract):
            def kinds(self, info):
                st = {x.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                cs = [n for n in st if isinstance(info.env.get(n, info.entry.get(n)), Cand)]
                ms = [n for n in st if isinstance(info.env.get(n, info.entry.get(n)), Sym) and n in info.entry]
                return cs, ms

            def havoc(self, info, k):
                cs = [n for n, v in info.entry.items() if isinstance(v, Cand) and n not in info.env]
                ms = [n for n, v in info.entry.items() if isinstance(v, Sym) and n in self.st(info)]
                if len(cs) != 1 or len(ms) != 1:
                    raise Unsupported('redraw loop')
                self.cn, self.mn = cs[0], ms[0]
                cand = Cand(W, z3.Int(fresh_name('cid')), True)
                info.env[self.cn] = cand
                info.env[self.mn] = wrap(W.SCORE(cand.cid))
                for n, v in info.entry.items():
                    if n not in info.env:
                        info.env[n] = object()

            def st(self, info):
                return {x.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

            def check(self, info, k, when):
                cs = [n for n, v in info.env.items() if isinstance(v, Cand) and n in self.st(info)]
                ms = [n for n, v in info.env.items() if isinstance(v, Sym) and n in self.st(info)]
                cur().prove(f'init: a redrawn candidate comes with its own score [{when}]', W.SCORE(info.env[cs[0]].cid) == lift(info.env[ms[0]]) if len(cs) == 1 and len(ms) == 1 else z3.BoolVal(False))
        fill, redraw = Fill(W, s, 'init'), Redraw()

        def pick(fr, node):
            if isinstance(node, ast.While):
                return redraw
            if isinstance(node, ast.For) and not ip.cuts:
                return fill if has_append(node) else MapLoop()
            return None
        ip.pick = pick
        ip.run_function(SGA.__init__, [s, object(), num, Int('depth'), Int('width'), Real('pv'), Real('pm'), Real('pr'), Real('pc'), Lib(), Lib()], {})
        for f in ip.perm_facts:
            f(z3.IntVal(0))
        final(c, W, s, num.t, None, 'init', num.t)
    ctx.run(run)


def g_run(ctx):
    mod = need(SOL)
    SGA = need(SOL, 'SGA')

    def run():
        c = cur()
        W = World('run')
        num, gen = Int('num'), Int('generations')
        c.assume(num.t >= 1)
        ip = Ip(ctx.session)
        ip.contracts.update(contracts(ctx, ip, W, mod))
        s = ghost_pool(ip, SGA, W, num)
        W.lemma = lambda j: []
        first = s.mses.at
        best0 = first(z3.IntVal(0))
        rank = []

        def step(ip_, self, *a, **k):
            cc = cur()
            b = self.mses.at(z3.IntVal(0))
            self.mses, self.eqs = W.pool(num.t)
            cc.assume(self.mses.at(z3.IntVal(0)) <= b, check=False)

        ip.contracts[SGA.cross_over] = step
        ip.contracts[SGA.change] = step
        ip.contracts[mod.print_obj_profile] = lambda ip_: None

        class Gens(LoopContract):
            modifies = ('mses', 'eqs', 'repeat_cross', 'repeat_change')

            def havoc(self, info, k):
                s.mses, s.eqs = W.pool(num.t)
                cur().assume(s.mses.at(z3.IntVal(0)) <= best0, check=False)

            def check(self, info, k, when):
                cur().prove(f'run: the best score never gets worse [{when}]', s.mses.at(z3.IntVal(0)) <= best0)
        ip.pick = lambda fr, node: Gens() if not ip.cuts and isinstance(node, ast.For) else None
        eq, m = ip.call(SGA.run, s, gen)
        min_fact(W, z3.IntVal(0))
        q = z3.Int(fresh_name('q'))
        c.assume(z3.And(q >= 0, q < num.t))
        min_fact(W, q)
        fq = s.mses.at(q)
        c.prove('run: the reported score is that of the reported candidate', W.SCORE(eq.cid) == lift(m))
        c.prove('run: nothing in the final population is better than what is reported', lift(m) <= fq)
        c.prove('run: the reported score is not worse than that of the first population', lift(m) <= best0)
    ctx.run(run)


def g_report(ctx):
    """the solver returns the text, score and details of the candidate the search returned"""
    mod = need(SOL)
    Solver = need(SOL, 'SGAPDE_Solver')

    def run():
        c = cur()
        best = Cand(World('solver'), z3.Int('best'), True)
        best.visualize = lambda: ('text of', best)
        score = Real('score')
        seen = {}
        names = ('num', 'depth', 'width', 'p_var', 'p_mute', 'p_rep', 'p_cro', 'sga_run')
        cfg = types.SimpleNamespace(**{n: Real(n) for n in names})
        ip = Ip(ctx.session)

        class S:
            pass

        def mk(ip_, *a, **k):
            seen.update(k)
            seen['args'] = a
            o = S()
            o.run = lambda g: (seen.__setitem__('gen', g), (best, score))[1]
            return o
        ip.contracts[mod.SGA] = mk
        ip.contracts[mod.extract_equation_details] = lambda ip_, e, x, **k: ('details', e, x)
        s = Solver.__new__(Solver)
        s.config, s.pde_lib, s.err_lib, s.best_equation_details_ = cfg, [], [], None
        ctxo = object()
        r = ip.call(Solver.run, s, ctxo)
        c.prove('solver: the search gets the configured parameters', z3.BoolVal(not seen['args'] and all(seen.get(n) is getattr(cfg, n) for n in names if n != 'sga_run') and seen.get('context') is ctxo and seen['gen'] is cfg.sga_run))
        c.prove('solver: text and score of the best candidate are returned', z3.BoolVal(isinstance(r, tuple) and r[0] == ('text of', best) and r[1] is score))
        c.prove('solver: the equation details are those of the best candidate', z3.BoolVal(s.best_equation_details_ == ('details', best, ctxo)))
    ctx.run(run)


def groups():
    return [('cross_over', g_step('cross_over')), ('change', g_step('change')), ('init', g_init), ('run', g_run), ('solver', g_report)]


# ------------------------------------------------------------------ observed searches
def pool_state(s, ctx, when):
    mod = need('kd.model.sga.sgapde.pde')
    check(len(s.mses) == s.num and len(s.eqs) == s.num, f'{when}: {len(s.eqs)} candidates and {len(s.mses)} scores in a pool of {s.num}')
    for a, b in zip(s.mses, s.mses[1:]):
        check(not (b < a), f'{when}: the pool is not ranked: {a} before {b}')
    st = (np.random.get_state(), random.getstate())
    for i, (m, e) in enumerate(zip(s.mses, s.eqs)):
        d = copy.deepcopy(e)
        v, _ = sga.quiet(mod.evaluate_mse, d, ctx)
        check(v == m or (np.isnan(v) and np.isnan(m)) or abs(v - m) <= 1e-9 * (1 + abs(v)), f'{when}: candidate {i} carries the score {m} but scores {v}')
    np.random.set_state(st[0])
    random.setstate(st[1])


def case_search(seed, dim, num, depth, width, p_var, p_mute, p_rep, p_cro, gens):
    ctx = sga.context_for(seed % 5, dim)
    s = sga.search(ctx, seed, num, depth, width, p_var, p_mute, p_rep, p_cro)
    pool_state(s, ctx, 'start')
    for g in range(gens):
        for nm, f in (('crossover', lambda: s.cross_over(p_cro)), ('change', lambda: s.change(p_mute, p_rep))):
            best, held = s.mses[0], [(m, sga.dump(e)) for m, e in zip(s.mses, s.eqs)]
            sga.quiet(f)
            pool_state(s, ctx, f'{nm} {g}')
            check(not (s.mses[0] > best), f'{nm} {g}: best score went from {best} to {s.mses[0]}')
            lead = [d for m, d in held if m == best]
            if s.mses[0] == best:
                check(sga.dump(s.eqs[0]) in lead or any(sga.dump(e) in lead for e, m in zip(s.eqs, s.mses) if m == best), f'{nm} {g}: the best candidate was altered')
    e, m = s.the_best()
    check(m == min(s.mses) and any(e is x and y == m for x, y in zip(s.eqs, s.mses)), 'the reported candidate is not the best of the pool')


def case_run(seed, dim, num, depth, width, gens):
    """the whole solver: reported score and text belong to one candidate, the best of the final pool"""
    mod = need(SOL)
    cfgm = need(sga.CFG, 'SolverConfig')
    ctxm = need(sga.CTX, 'ProblemContext')
    f, co, o, ex = sga.problem(seed % 5, dim)
    cfg = cfgm(fields_data=f, coords_1d=co, axis_order=o, simple_mode=True, num=num, depth=depth, width=width, sga_run=gens, seed=seed % 1000, **ex)
    ctx = sga.quiet(ctxm, cfg)
    made, seen = [], []
    S = mod.SGA

    class Spy(S):
        def __init__(self, *a, **k):
            S.__init__(self, *a, **k)
            made.append(self)
            seen.append(min(self.mses))

        def change(self, *a, **k):
            r = S.change(self, *a, **k)
            seen.append(min(self.mses))
            return r
    mod.SGA = Spy
    try:
        sol = mod.SGAPDE_Solver(cfg)
        text, score = sga.quiet(sol.run, ctx)
    finally:
        mod.SGA = S
    s = made[0]
    check((s.num, len(seen)) == (num, gens + 1), f'{len(seen) - 1} generations of {s.num} candidates instead of {gens} of {num}')
    for a, b in zip(seen, seen[1:]):
        check(not (b > a), f'best score of a generation went from {a} to {b}')
    check(score == seen[-1] == min(s.mses), f'reported score {score}, best of the final pool {min(s.mses)}')
    check(any(m == score and sga.quiet(e.visualize) == text for m, e in zip(s.mses, s.eqs)), 'the reported text is not that of the best candidate')
    d = sol.best_equation_details_
    mine = [sga.quiet(mod.extract_equation_details, copy.deepcopy(e), ctx) for m, e in zip(s.mses, s.eqs) if m == score]
    key = lambda x: (x.lhs, [(t.label, t.coefficient) for t in x.terms])
    check(d is not None and any(key(x) == key(d) for x in mine), 'the reported details are not those of the best candidate')


def cases(tier, rng):
    i = 0
    while True:
        dim = rng.choice(['2d', '2d', 'y', '3d', 'multi'])
        num = rng.choice([1, 2, 3, 4, 5, 6, 8])
        pr = dict(seed=rng.randrange(10 ** 6), dim=dim, num=num, depth=rng.choice([2, 3, 4]), width=rng.choice([1, 2, 3, 4]))
        if i % 4 == 3:
            yield C(case_run), dict(pr, gens=rng.choice([0, 1, 2, 3])), ('run', pr['seed'])
        else:
            yield C(case_search), dict(pr, p_var=rng.choice([.2, .5, .8]), p_mute=rng.choice([0., .1, .4, 1.]), p_rep=rng.choice([0., .3, 1.]), p_cro=rng.choice([0., .3, .5, .8, 1.]), gens=rng.choice([1, 2, 4])), ('search', pr['seed'])
        i += 1
