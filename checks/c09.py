"""C09: the best-candidates memory keeps exactly the best distinct candidates."""
import builtins, heapq, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C09'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded push/pop histories with ties, repeats and several capacities against a sorted reference; non-trivial when the seed is new'
MEM = 'kd.model.discover.dso.memory'
K = z3.IntSort()            # keys (item texts)


class Key:
    def __init__(self, t):
        self.t = t


class Data:
    """extra data of the item with this key"""

    def __init__(self, key, W=None):
        self.key, self.W = key, W

    @property
    def rewards(self):
        return wrap(self.W.SC(self.key)) if self.W.own else wrap(self.W.RW(self.key))

    @property
    def lengths(self):
        return wrap(self.W.LEN(self.key))


class World:
    """abstract contents: which keys are stored, with which score, under which data"""
    __slots__ = ('IN', 'U', 'n', 'cap', 'SC', 'RW', 'LEN', 'SCORE', 'DATA', 'ordered', 'own', 'log', 'OFF', 'AT', 'front')


class Heap:
    """ghost of self.heap: the stored containers"""

    def __init__(self, W):
        self.W = W

    def __symlen__(self):
        return wrap(self.W.n)

    def __bool__(self):
        return cur().decide(self.W.n > 0)


class Uniq:
    def __init__(self, W):
        self.W = W

    def __symcontains__(self, k):
        return wrap(self.W.U(k.t))

    def add(self, k):
        U, t = self.W.U, k.t
        self.W.U = lambda q: z3.Or(q == t, U(q))

    def remove(self, k):
        c = cur()
        if not c.decide(self.W.U(k.t)):
            raise PyRaise(KeyError('item not recorded'))
        U, t = self.W.U, k.t
        self.W.U = lambda q: z3.And(q != t, U(q))


def put(W, con):
    k = con.item.t
    I, S, D = W.IN, W.SCORE, W.DATA
    cur().prove('an item is stored once', z3.Not(I(k)))
    sc, dk = lift(con.score) if con.score is not None else z3.RealVal(0), con.extra_data.key
    W.IN = lambda q: z3.Or(q == k, I(q))
    W.SCORE = lambda q: z3.If(q == k, sc, S(q))
    W.DATA = lambda q: z3.If(q == k, dk, D(q))
    W.n = W.n + 1


def drop(W, k):
    I = W.IN
    W.IN = lambda q: z3.And(q != k, I(q))
    W.n = W.n - 1


def least(W, what):
    """key of an arbitrary stored item with the lowest score"""
    c = cur()
    c.prove(f'{what}: works on a heap', z3.BoolVal(W.ordered))
    m, q = z3.Int(fresh_name('least')), z3.Int('q')
    S, I = W.SCORE, W.IN
    c.assume(z3.And(I(m), z3.ForAll([q], z3.Implies(I(q), S(m) <= S(q)), patterns=[W0(W, q)])), check=False)
    return m


def W0(W, q):
    return W.OFF(q)


def start(own=True):
    """arbitrary memory in a state satisfying the invariant"""
    c = cur()
    W = World()
    W.own = own
    W.log = []
    F = lambda n, *s: z3.Function(fresh_name(n), *s)
    IN, S, D, W.SC, W.RW, W.LEN, W.OFF, W.AT = F('stored', K, z3.BoolSort()), F('score', K, z3.RealSort()), F('data', K, K), F('score_of', K, z3.RealSort()), F('reward_of', K, z3.RealSort()), F('length_of', K, z3.IntSort()), F('offered', K, z3.BoolSort()), F('at', z3.IntSort(), K)
    W.IN, W.U, W.SCORE, W.DATA = IN, IN, S, D
    W.n, W.cap = z3.Int(fresh_name('stored')), z3.Int(fresh_name('capacity'))
    q = z3.Int('q')
    c.assume(z3.And(W.n >= 0, W.cap >= 1, W.n <= W.cap))
    c.assume_axiom(z3.ForAll([q], z3.Implies(IN(q), z3.And(W.n >= 1, W.OFF(q), S(q) == W.SC(q), D(q) == q)), patterns=[IN(q)]))
    W.ordered = True
    return W


def inv(W, what, keep, w):
    """the invariant after an operation, for an arbitrary key w"""
    c = cur()
    c.prove(f'{what}: never more items than the capacity', z3.And(W.n <= W.cap, W.n >= 0))
    c.prove(f'{what}: the recorded keys are those of the stored items', W.U(w) == W.IN(w))
    c.prove(f'{what}: every item keeps its own score and data', z3.Implies(W.IN(w), z3.And(W.SCORE(w) == W.SC(w), W.DATA(w) == w)))
    c.prove(f'{what}: the stored items form a heap', z3.BoolVal(W.ordered))
    if keep is not None:
        keep()


def me_of(W):
    return types.SimpleNamespace(heap=Heap(W), unique_items=Uniq(W), capacity=wrap(W.cap))


class Con(tuple):
    """a stored container: its three fields, by name or by unpacking"""
    score = property(lambda s: s[0])
    item = property(lambda s: s[1])
    extra_data = property(lambda s: s[2])


def heap_contracts(ip, W, mem):
    IC = mem.ItemContainer
    c = cur()

    def container(k):
        return Con((wrap(W.SCORE(k)), Key(k), Data(W.DATA(k), W)))

    def own(h):
        if not isinstance(h, Heap):
            raise Unsupported('heap function on something else than the stored items')

    def pushpop(ip_, h, con):
        own(h)
        c.prove('push: works on a heap', z3.BoolVal(W.ordered))
        S, I, k = W.SCORE, W.IN, con.item.t
        new = lift(con.score)
        q = z3.Int('q')
        m = z3.Int(fresh_name('least'))
        if W.n is not None and c.decide(z3.Or(W.n == 0, z3.ForAll([q], z3.Implies(I(q), new <= S(q)), patterns=[I(q)]))):
            W.log.append(('rejected', k))
            return Con((con.score, con.item, con.extra_data))
        c.assume(z3.And(I(m), z3.ForAll([q], z3.Implies(I(q), S(m) <= S(q)), patterns=[I(q)]), S(m) <= new), check=False)
        r = container(m)
        put(W, con)
        drop(W, m)
        W.log.append(('replaced', m, k))
        return r

    def push(ip_, h, con):
        own(h)
        c.prove('push: works on a heap', z3.BoolVal(W.ordered))
        put(W, con)
        W.log.append(('added', con.item.t))

    def pop(ip_, h):
        own(h)
        c.prove('pop: works on a heap', z3.BoolVal(W.ordered))
        q, m = z3.Int('q'), z3.Int(fresh_name('least'))
        S, I = W.SCORE, W.IN
        c.assume(z3.And(I(m), z3.ForAll([q], z3.Implies(I(q), S(m) <= S(q)), patterns=[I(q)])), check=False)
        r = container(m)
        drop(W, m)
        W.log.append(('popped', m))
        return r

    def extreme(best):
        def f(ip_, n, h):
            own(h)
            if n != 1:
                raise Unsupported('nlargest')
            q, m = z3.Int('q'), z3.Int(fresh_name('extreme'))
            S, I = W.SCORE, W.IN
            c.assume(z3.And(I(m), z3.ForAll([q], z3.Implies(I(q), S(m) >= S(q) if best else S(m) <= S(q)), patterns=[I(q)])), check=False)
            return [container(m)]
        return f

    def heapify(ip_, h):
        own(h)
        W.ordered = True
    ip.contracts[heapq.heappushpop] = pushpop
    ip.contracts[heapq.heappush] = push
    ip.contracts[heapq.heappop] = pop
    ip.contracts[heapq.nlargest] = extreme(True)
    ip.contracts[heapq.nsmallest] = extreme(False)
    ip.contracts[heapq.heapify] = heapify
    ip.contracts[len] = lambda ip_, x: x.__symlen__() if hasattr(x, '__symlen__') else len(x)


class Ip(Interp):
    def getitem(self, o, i):
        if isinstance(o, Heap):
            W = o.W
            if isinstance(i, int) and i == 0 and W.ordered:
                raise Unsupported('peek')
            c = cur()
            c.prove('a stored item is accessed', z3.And(lift(i) >= 0, lift(i) < W.n))
            k = W.AT(lift(i))
            c.assume(W.IN(k), check=False)
            return types.SimpleNamespace(score=wrap(W.SCORE(k)), item=Key(k), extra_data=Data(W.DATA(k), W), ghost=k)
        return Interp.getitem(self, o, i)

    def setitem(self, o, i, v):
        if isinstance(o, Heap):
            W = o.W
            k = W.AT(lift(i))
            cur().assume(W.IN(k), check=False)
            drop(W, k)
            put(W, v)
            W.ordered = False
            W.log.append(('replaced', k, v.item.t))
            return
        return Interp.setitem(self, o, i, v)


def offered(W, tag):
    """an arbitrary candidate offered to the memory"""
    k = z3.Int(fresh_name(tag))
    return Key(k), Data(k, W)


def rule(W, k, was, w, what, tol=0):
    """the best candidates stay: an offered candidate that is not stored any more is not better than any stored one"""
    c = cur()
    q = z3.Int('q')
    IN0, OUT0 = was
    c.prove(f'{what}: a candidate is only left out when the memory is full and no stored one is worse', z3.Implies(
        z3.And(W.OFF(w), z3.Not(W.IN(w))), z3.And(W.n == W.cap, z3.ForAll([q], z3.Implies(W.IN(q), W.SC(w) <= W.SC(q) + tol)))))


def g_push(ctx):
    """priority memory: one push on an arbitrary memory keeps the invariant (by induction: after any history)"""
    mem = need(MEM)
    Q = need(MEM, 'UniquePriorityQueue')

    def run():
        c = cur()
        W = start()
        item, data = offered(W, 'candidate')
        IN0, S0, n0, OFF0 = W.IN, W.SCORE, W.n, W.OFF
        q, p = z3.Int('q'), z3.Int('p')
        # invariant: what was offered and is not stored is not better than what is stored, and the memory is full
        c.assume_axiom(z3.ForAll([q, p], z3.Implies(z3.And(OFF0(q), z3.Not(IN0(q)), IN0(p)), z3.And(n0 == W.cap, W.SC(q) <= W.SC(p))), patterns=[z3.MultiPattern(OFF0(q), IN0(p))]))
        c.assume_axiom(z3.ForAll([q], z3.Implies(z3.And(OFF0(q), z3.Not(IN0(q))), n0 == W.cap), patterns=[OFF0(q)]))
        me = me_of(W)
        ip = Ip(ctx.session)
        heap_contracts(ip, W, mem)
        default = bool(c.choose(2))
        try:
            ip.call(Q.push, me, wrap(W.SC(item.t)), item, data)
        except PyRaise as e:
            c.prove('push: any candidate is accepted', z3.BoolVal(False))
            return
        W.OFF = lambda x: z3.Or(x == item.t, OFF0(x))
        w, v = z3.Int(fresh_name('any')), z3.Int(fresh_name('other'))
        c.assume_axiom(z3.And(OFF0(w) == OFF0(w), IN0(w) == IN0(w), IN0(v) == IN0(v)))
        inv(W, 'push', None, w)
        c.prove('push: a candidate is only left out when the memory is full', z3.Implies(z3.And(W.OFF(w), z3.Not(W.IN(w))), W.n == W.cap))
        c.prove('push: no stored candidate is worse than one that was left out', z3.Implies(z3.And(W.OFF(w), z3.Not(W.IN(w)), W.IN(v)), W.SC(w) <= W.SC(v)))
        c.prove('push: only offered candidates are stored', z3.Implies(W.IN(w), W.OFF(w)))
        c.prove('push: at most one candidate leaves and the number is right', z3.BoolVal(len(W.log) <= 1))
        c.prove('push: the memory itself stays in place', z3.BoolVal(isinstance(me.heap, Heap) and me.heap.W is W and isinstance(me.unique_items, Uniq) and me.unique_items.W is W and isinstance(me.capacity, Sym)))
    ctx.run(run)
    ctx.assume_note('each candidate text has one score (documented); scores are real numbers (not nan); the functions of heapq behave as documented on containers ordered by score')


def g_push_same(ctx):
    """memory that drops same-reward longer candidates"""
    mem = need(MEM)
    Q = need(MEM, 'UniquePriorityQueue')
    TOL = z3.Q(1, 100000)

    class Vec:
        def __init__(self, f, n):
            self.f, self.n = f, n

        def __sub__(self, o):
            return Vec(lambda i: self.f(i) - lift(o), self.n)

        def __lt__(self, o):
            o = z3.RealVal(repr(o)) if isinstance(o, float) else lift(o)
            return Mask(lambda i: self.f(i) < o, self.n)

        def __le__(self, o):
            o = z3.RealVal(repr(o)) if isinstance(o, float) else lift(o)
            return Mask(lambda i: self.f(i) <= o, self.n)

        def __abs__(self):
            return Vec(lambda i: z3.If(self.f(i) < 0, -self.f(i), self.f(i)), self.n)

    class Mask:
        def __init__(self, f, n):
            self.f, self.n = f, n

        def any(self):
            c = cur()
            i = z3.Int('i')
            if c.choose(2):
                self.first = z3.Int(fresh_name('same'))
                c.assume(z3.And(self.first >= 0, self.first < self.n, self.f(self.first)))
                return True
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.Not(self.f(i)))), check=False)
            return False

        def nonzero(self):
            if not hasattr(self, 'first'):
                raise Unsupported('nonzero')
            return ([wrap(self.first)],)

    def run():
        c = cur()
        W = start()
        item, data = offered(W, 'candidate')
        IN0, S0, n0, OFF0, AT = W.IN, W.SCORE, W.n, W.OFF, W.AT
        i, q = z3.Int('i'), z3.Int('q')
        c.assume_axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), IN0(AT(i))), patterns=[AT(i)]))
        me = me_of(W)
        me.get_rewards = lambda: Vec(lambda j: W.SC(AT(j)), n0)
        me.get_lengths = lambda: SSeq(wrap(n0), lambda j: wrap(W.LEN(AT(lift(j)))))
        ip = Ip(ctx.session)
        heap_contracts(ip, W, mem)
        ip.contracts[np.array] = lambda ip_, x, **k: x
        ip.contracts[np.asarray] = lambda ip_, x, **k: x
        ip.contracts[np.abs] = lambda ip_, x: abs(x)
        try:
            ip.call(Q.push_rm_same, me, wrap(W.SC(item.t)), item, data)
        except PyRaise:
            c.prove('push (same reward): any candidate is accepted', z3.BoolVal(False))
            return
        w = z3.Int(fresh_name('any'))
        c.assume_axiom(IN0(w) == IN0(w))
        inv(W, 'push (same reward)', None, w)
        k = item.t
        c.prove('push (same reward): only the offered candidate is added', z3.Implies(z3.And(W.IN(w), z3.Not(IN0(w))), w == k))
        c.prove('push (same reward): a stored candidate only leaves for a better one, or for a shorter one with the same reward', z3.Implies(z3.And(IN0(w), z3.Not(W.IN(w))), z3.And(
            n0 == W.cap, W.IN(k), z3.Or(W.SC(w) <= W.SC(k), z3.And(W.SC(w) - W.SC(k) < TOL, W.LEN(k) <= W.LEN(w))))))
        j = z3.Int('j')
        longer = z3.Exists([j], z3.And(j >= 0, j < n0, W.LEN(AT(j)) < W.LEN(k), W.SC(AT(j)) - W.SC(k) < TOL, W.SC(k) - W.SC(AT(j)) < TOL))
        c.prove('push (same reward): a candidate is only refused when it is stored, longer with the same reward, or not better than any stored one', z3.Implies(
            z3.And(z3.Not(W.IN(k))), z3.Or(longer, z3.And(n0 == W.cap, z3.Implies(IN0(w), W.SC(k) <= W.SC(w))))))
    ctx.run(run)
    ctx.assume_note('reward of the extra data is the score (established by push_sample)')


def g_pop(ctx):
    """pop and peek"""
    mem = need(MEM)
    Q = need(MEM, 'UniquePriorityQueue')

    def run():
        c = cur()
        W = start()
        IN0, n0 = W.IN, W.n
        me = me_of(W)
        ip = Ip(ctx.session)
        heap_contracts(ip, W, mem)
        which = c.choose(3)
        r = ip.call([Q.pop, Q.get_max, Q.get_min][which], me)
        w = z3.Int(fresh_name('any'))
        c.assume_axiom(IN0(w) == IN0(w))
        nm = ['pop', 'best', 'worst'][which]
        if not r:
            c.prove(f'{nm}: nothing is returned only when nothing is stored', n0 == 0)
            inv(W, nm, None, w)
            return
        c.prove(f'{nm}: a stored item with its own score and data is returned', z3.And(IN0(r[1].t), lift(r[0]) == W.SC(r[1].t), r[2].key == r[1].t))
        c.prove(f'{nm}: it is the {"best" if which == 1 else "worst"} one', z3.Implies(IN0(w), W.SC(r[1].t) >= W.SC(w) if which == 1 else W.SC(r[1].t) <= W.SC(w)))
        inv(W, nm, None, w)
        c.prove(f'{nm}: exactly the popped item leaves', W.IN(w) == (z3.And(IN0(w), w != r[1].t) if which == 0 else IN0(w)))
    ctx.run(run)


def g_fifo(ctx):
    """first-in-first-out memory: one push or pop on an arbitrary memory"""
    mem = need(MEM)
    Q = need(MEM, 'UniqueQueue')

    class List(Heap):
        def remove(self, con):
            c = cur()
            if not c.decide(self.W.IN(con.item.t)):
                raise PyRaise(ValueError('not in list'))
            drop(self.W, con.item.t)

        def append(self, con):
            put(self.W, con)
            self.W.log.append(con.item.t)

        def pop(self, i=-1):
            c = cur()
            c.prove('queue: the oldest item leaves', z3.BoolVal(i == 0))
            m = self.W.front
            c.assume(self.W.IN(m), check=False)
            k = (None, Key(m), Data(self.W.DATA(m), self.W))
            drop(self.W, m)
            return k

    def run():
        c = cur()
        W = start()
        W.front = z3.Int(fresh_name('front'))
        S = W.SCORE
        item, data = offered(W, 'candidate')
        IN0, n0 = W.IN, W.n
        c.assume(z3.Implies(n0 >= 1, IN0(W.front)), check=False)
        me = me_of(W)
        me.heap = List(W)
        ip = Ip(ctx.session)
        heap_contracts(ip, W, mem)
        me.pop = lambda: ip.call(Q.pop, me)
        try:
            ip.call(Q.push, me, wrap(W.SC(item.t)), item, data)
        except PyRaise:
            c.prove('queue: any item is accepted', z3.BoolVal(False))
            return
        w = z3.Int(fresh_name('any'))
        c.assume_axiom(IN0(w) == IN0(w))
        c.prove('queue: never more items than the capacity', z3.And(W.n <= W.cap, W.n >= 0))
        c.prove('queue: the recorded keys are those of the stored items', W.U(w) == W.IN(w))
        c.prove('queue: every item keeps its own data', z3.Implies(W.IN(w), W.DATA(w) == w))
        c.prove('queue: the pushed item is stored, as the newest', z3.And(W.IN(item.t), z3.BoolVal(len(W.log) == 1), W.log[0] == item.t if W.log else z3.BoolVal(False)))
        c.prove('queue: only the oldest item may leave, and only when full', z3.Implies(z3.And(IN0(w), z3.Not(W.IN(w))), z3.And(w == W.front, n0 == W.cap)))
    ctx.run(run)


def g_order(ctx):
    """containers are ordered by score and identified by item"""
    IC = need(MEM, 'ItemContainer')

    def run():
        c = cur()
        a, b = z3.Real(fresh_name('a')), z3.Real(fresh_name('b'))
        ip = Interp(ctx.session)
        da, db = object(), object()
        ka, kb = wrap(z3.Int(fresh_name('ka'))), wrap(z3.Int(fresh_name('kb')))
        x, y = IC.__new__(IC), IC.__new__(IC)
        ip.call(IC.__init__, x, wrap(a), ka, da)
        ip.call(IC.__init__, y, wrap(b), kb, db)
        c.prove('container: holds the given score, item and data', z3.And(lift(x.score) == a, z3.BoolVal(x.item is ka and x.extra_data is da)))
        c.prove('container: ordered by score', lift_bool(ip.call(IC.__lt__, x, y)) == (a < b))
        c.prove('container: equal when the items are equal', lift_bool(ip.call(IC.__eq__, x, y)) == (ka.t == kb.t))
        t = list(IC('s', 'i', 'd'))
        c.prove('container: unpacks into score, item, data', z3.BoolVal(t == ['s', 'i', 'd']))
    ctx.run(run)


def g_batch(ctx):
    """samples of a batch are pushed one by one, each with its own text, reward and record"""
    mem = need(MEM)
    P = need(MEM, 'ProgramQueueMixin')
    get = need(MEM, 'get_samples')
    Batch = need(MEM, 'Batch')

    class Col:
        def __init__(self, nm):
            self.nm = nm

        def __getitem__(self, i):
            return (self.nm, i.t.sexpr() if isinstance(i, Sym) else i)

    def run():
        c = cur()
        ip = Interp(ctx.session)
        b = Batch(*[Col(f) for f in Batch._fields])
        which = c.choose(4)
        k = z3.Int(fresh_name('row'))
        if which == 0:
            r = ip.call(get, b, wrap(k))
            c.prove('sample: every field is that of the same row', z3.BoolVal(isinstance(r, Batch) and all(getattr(r, f) == (f, k.sexpr()) for f in Batch._fields)))
            return
        if which == 1:
            calls = []
            rs = bool(c.choose(2))
            me = types.SimpleNamespace(remove_same=rs, push=lambda *a: calls.append(('push',) + a), push_rm_same=lambda *a: calls.append(('rm',) + a))
            s, p = Batch(*[('field', f) for f in Batch._fields]), types.SimpleNamespace(str='text of the program')
            ip.call(P.push_sample, me, s, p)
            c.prove('sample: pushed once with the text of its program, its reward and itself', z3.BoolVal(len(calls) == 1 and calls[0][0] == ('rm' if rs else 'push') and calls[0][1:3] == (('field', 'rewards'), 'text of the program') and calls[0][3] is s))
            return
        n = z3.Int(fresh_name('programs'))
        c.assume(n >= 0)
        progs = SSeq(wrap(n), lambda j: ('program', j))
        pushed = []
        st = types.SimpleNamespace(k=None)

        class L(LoopContract):
            def havoc(self, info, k):
                pushed.clear()
                st.k = k

            def check(self, info, k, when):
                if when == 'initiation':
                    c.prove('batch: every program is visited, nothing before', z3.And(info.n == n, z3.BoolVal(not pushed)))
                    return
                j = z3.simplify(k - 1)
                ok = len(pushed) == 1 and pushed[0][0][0] == 'sample' and pushed[0][1][0] == 'program'
                c.prove('batch: each program is pushed once with its own row', z3.And(lift(pushed[0][0][1]) == j, lift(pushed[0][1][1]) == j) if ok else z3.BoolVal(False))

        class I(Interp):
            def loop_template(self, fr, node):
                return L()

            def getitem(self, o, i):
                if o is progs:
                    return o.elem(lift(i))
                return Interp.getitem(self, o, i)
        ip = I(ctx.session)
        ip.contracts[get] = lambda ip_, bb, j: ('sample', j) if bb is b else None
        best = z3.Int(fresh_name('best'))
        ip.contracts[np.argmax] = lambda ip_, x: wrap(best) if isinstance(x, Col) and x.nm == 'rewards' else None
        me = types.SimpleNamespace(push_sample=lambda s, p: pushed.append((s, p)))
        if which == 2:
            ip.call(P.push_batch, me, b, progs)
            c.prove('batch: ends after the last program', z3.And(st.k >= n, z3.BoolVal(not pushed)) if st.k is not None else z3.BoolVal(False))
        else:
            ip.call(P.push_best, me, b, progs)
            ok = len(pushed) == 1
            c.prove('best of the batch: the program and the row with the highest reward are pushed', z3.And(lift(pushed[0][0][1]) == best, lift(pushed[0][1][1]) == best) if ok else z3.BoolVal(False))
    ctx.run(run)


class CompIp(Interp):
    """a comprehension over a symbolic sequence without effects is the sequence of its element expression"""

    def map_seq(self, sq, target, elt, fr):
        def elem(k):
            f2 = self.subframe(fr)
            self.assign(target, sq.elem(k), f2)
            return self.eval(elt, f2)
        return SSeq(wrap(lift(sq.length())), elem)

    def getitem(self, o, i):
        if isinstance(o, SSeq) and isinstance(i, Sym):
            cur().prove('sampling: an existing position is read', z3.And(i.t >= 0, i.t < lift(o.length())))
            return o.elem(i.t)
        return Interp.getitem(self, o, i)


def g_sample(ctx):
    """sampling"""
    Q = need(MEM, 'Queue')

    def run():
        c = cur()
        n, m = z3.Int(fresh_name('stored')), z3.Int(fresh_name('wanted'))
        c.assume(z3.And(n >= 1, m >= 0))
        D = z3.Function(fresh_name('draw'), z3.IntSort(), z3.IntSort())
        j = z3.Int('j')
        c.assume_axiom(z3.ForAll([j], z3.And(D(j) >= 0, D(j) < n), patterns=[D(j)]))
        heap = SSeq(wrap(n), lambda i: types.SimpleNamespace(item=('item', i), extra_data=('data', i)))
        drawn = []

        def choice(a, size=None, **k):
            c.prove('sampling: positions are drawn from all stored items', z3.And(lift(a) == n, lift(size) == m))
            return SSeq(wrap(m), lambda i: wrap(D(lift(i))))
        me = types.SimpleNamespace(heap=heap, rng=types.SimpleNamespace(choice=choice))
        ip = CompIp(ctx.session)
        ip.contracts[len] = lambda ip_, x: x.length() if isinstance(x, SSeq) else len(x)
        r = ip.call(Q.random_sample, me, wrap(m))
        i = z3.Int(fresh_name('i'))
        c.assume(z3.And(i >= 0, i < m))
        it, d = r.elem(i)
        c.prove('sampling: as many samples as asked for', lift(r.length()) == m)
        c.prove('sampling: each sample is a stored item with its own data', z3.And(z3.BoolVal(it[0] == 'item' and d[0] == 'data'), lift(it[1]) == D(i), lift(d[1]) == D(i)))
    ctx.run(run)


def groups():
    return [('push', g_push), ('push (same reward)', g_push_same), ('pop and peek', g_pop), ('queue', g_fifo), ('containers', g_order), ('batches', g_batch), ('sampling', g_sample)]


# ---- run-time contract -------------------------------------------------------------------------------------------------------

class Prog:
    def __init__(self, s):
        self.str = s


def row(Batch, rng, key, score, length):
    r = np.random.RandomState(rng.randrange(2 ** 31))
    return dict(actions=r.randint(0, 5, 3), obs=r.rand(2, 3), priors=r.rand(3, 4), lengths=length, rewards=score, on_policy=bool(r.randint(2)))


def contents(q):
    return {c.item: (c.score, c.extra_data) for c in q.heap}


def case_history(seed, priority, same, steps):
    import random
    rng = random.Random(seed)
    mem = need(MEM)
    Batch = mem.Batch
    cap = rng.choice([1, 2, 3, 5, 8, 20])
    q = mem.make_queue(priority=priority, capacity=cap, seed=seed % 1000, remove_same=same)
    keys = [f'e{i}' for i in range(rng.choice([3, 10, 40]))]
    score = {k: rng.choice([rng.uniform(0, 1), rng.choice([0., .25, .5, .5 + 3e-6, 1.])]) for k in keys}
    length = {k: rng.randrange(1, 9) for k in keys}
    rec = {k: row(Batch, rng, k, score[k], length[k]) for k in keys}
    offered, order = set(), []
    for _ in range(steps):
        op = rng.random()
        before = contents(q)
        if op < .08:
            r = q.pop()
            if not before:
                check(r == (), 'pop of an empty memory')
            else:
                if priority:
                    check(r[0] == min(v[0] for v in before.values()), 'pop does not return the worst item')
                else:
                    check(r[1] == order[0], 'pop does not return the oldest item')
                check(r[1] in before and r[2] is before[r[1]][1], 'pop returns an item with data of another')
                check(set(contents(q)) == set(before) - {r[1]}, 'pop removes another item')
                order = [k for k in order if k != r[1]]
                offered = set(contents(q)) if priority else offered
            offered &= set(contents(q)) | {k for k in offered if False}
            continue
        n = rng.choice([1, 1, 1, 4])
        ks = [rng.choice(keys) for _ in range(n)]
        b = Batch(**{f: np.array([rec[k][f] for k in ks]) for f in Batch._fields})
        if op < .2:
            q.push_best(b, [Prog(k) for k in ks])
            ks = [ks[int(np.argmax([score[k] for k in ks]))]]
        elif n == 1 and op < .6:
            q.push_sample(Batch(**rec[ks[0]]), Prog(ks[0]))
        else:
            q.push_batch(b, [Prog(k) for k in ks])
        now = contents(q)
        check(len(q) == len(q.heap) <= cap, f'{len(q)} items for a capacity of {cap}')
        check(len(now) == len(q.heap), 'an item is stored twice')
        check(set(now) == q.unique_items, 'recorded keys differ from the stored ones')
        for k, (s, d) in now.items():
            check(k in score and (not priority or s == score[k]), f'item {k} has the score of another')
            for f in Batch._fields:
                check(np.array_equal(getattr(d, f), rec[k][f]), f'item {k} has the {f} of another')
        if priority:
            h = q.heap
            for i in range(1, len(h)):
                check(h[(i - 1) // 2].score <= h[i].score, 'the stored items do not form a heap')
            if not same:
                offered |= set(ks)
                want = sorted((score[k] for k in offered), reverse=True)[:cap]
                check(sorted((v[0] for v in now.values()), reverse=True) == want, 'the stored items are not the best ones offered')
            else:
                gone = set(before) - set(now)
                if len(ks) == 1 and gone:
                    k = ks[0]
                    for g in gone:
                        check(k in now and len(before) == cap, 'an item left for nothing')
                        check(score[g] <= score[k] or score[g] - score[k] < 1e-5 and length[k] <= length[g], 'a better item left for a worse one')
                if len(ks) == 1 and ks[0] not in now:
                    k = ks[0]
                    check(any(abs(score[g] - score[k]) < 1e-5 and length[g] < length[k] for g in before) or len(before) == cap and all(score[g] >= score[k] for g in before), 'a candidate was refused without reason')
            if now:
                check(q.get_max()[0] == max(v[0] for v in now.values()) and q.get_min()[0] == min(v[0] for v in now.values()), 'best or worst item')
                it = list(q.iter_in_order())
                check(sorted(k for k, _ in it) == sorted(now) and all(d is now[k][1] for k, d in it), 'iteration in order misses or mixes items')
                check(all(score[a[0]] >= score[b_[0]] for a, b_ in zip(it, it[1:])), 'iteration is not in order')
        else:
            for k in ks:
                if k in order:
                    order.remove(k)
                order.append(k)
                order = order[-cap:]
            check([c.item for c in q.heap] == order, 'the queue does not hold the latest items in order')
        check(sorted(q) == sorted(now), 'iteration returns other items')
        if now:
            m = rng.randrange(1, 6)
            for k, d in q.random_sample(m):
                check(k in now and d is now[k][1], 'a sample is not a stored item with its data')
            sb = q.sample_batch(m, make_tensor=bool(rng.randrange(2)))
            for i in range(m):
                one = {f: np.asarray(getattr(sb, f)[i]) for f in Batch._fields}
                check(any(all(np.allclose(one[f], rec[k][f]) for f in Batch._fields) for k in now), 'a sampled row is not the record of a stored item')
            tb = q.to_batch()
            check(np.allclose(np.asarray(tb.rewards), [rec[c.item]['rewards'] for c in q.heap]) and np.allclose(q.get_rewards(), [score[c.item] for c in q.heap]) and list(q.get_lengths()) == [length[c.item] for c in q.heap], 'rewards or lengths')


def cases(tier, rng):
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        pr = i % 3 != 2
        yield C(case_history), dict(seed=s, priority=pr, same=pr and i % 3 == 1, steps=rng.choice([5, 20, 60])), ('s', s)
        i += 1
