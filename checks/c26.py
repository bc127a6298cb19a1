"""C26: generated sentences are sanitised; the leader board is the true top ten."""
import ast, builtins, sys, types
import numpy as np
import torch
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.arrays import SArr
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C26'
LEVEL = 'proof'
BUDGET = {'quick': 30, 'thorough': 600}
RULE = 'seeded sentences (all short ones over a small vocabulary first) and histories of batches; non-trivial when the case is new'
ALL = 'kd.model.eqgpt.continue_train_GPT_all'
KE = 'kd.model.kd_eqgpt'
TEN = 10


# ------------------------------------------------------------------ removing repeated terms
class W:
    """arbitrary sentence w(0..n-1); T(k) plus signs before k; term g is w[S(g) .. E(g)-1]"""

    def __init__(self, c, n):
        self.n = n
        self.w = z3.Function('w', z3.IntSort(), z3.IntSort())
        self.T = z3.Function('plus_before', z3.IntSort(), z3.IntSort())
        self.S = z3.Function('term_start', z3.IntSort(), z3.IntSort())
        self.E = z3.Function('term_end', z3.IntSort(), z3.IntSort())
        self.same = z3.Function('same_term', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.first = z3.Function('first_term', z3.IntSort(), z3.BoolSort())
        self.K = z3.Function('kept_before', z3.IntSort(), z3.IntSort())
        c.assume_axiom(self.T(0) == 0)
        c.assume_axiom(self.S(0) == 0)
        c.assume_axiom(self.K(0) == 0)

    def at(self, c, k):
        """definitions at position k"""
        p = self.w(k) == 2
        c.assume(self.T(k + 1) == self.T(k) + z3.If(p, 1, 0), check=False)
        c.assume(z3.Implies(p, z3.And(self.E(self.T(k)) == k, self.S(self.T(k) + 1) == k + 1)), check=False)

    def keep(self, c, g):
        c.assume(self.K(g + 1) == self.K(g) + z3.If(self.first(g), 1, 0), check=False)


class Sent(SSeq):
    """the sentence, or the sentence without its last word"""

    def __init__(self, w, n, mark=None):
        self.w, self.n = w, n

    def length(self):
        return z3.simplify(self.n)

    def elem(self, k):
        return wrap(self.w.w(lift(k)))

    def __getitem__(self, ix):
        if ix == -1:
            return wrap(self.w.w(self.n - 1))
        if ix == slice(None, -1):
            return Sent(self.w, self.n - 1)
        raise Unsupported('other part of the sentence')

    def pop(self, i=-1):
        raise Mutated()


class Mutated(Exception):
    pass


class Seg:
    """list under construction holding w[lo..hi-1]"""

    def __init__(self, w, lo, hi):
        self.w, self.lo, self.hi = w, lo, hi

    def append(self, x):
        c = cur()
        c.prove('repeated terms: words are collected in the order of the sentence', lift(x) == self.w.w(self.hi))
        self.hi = self.hi + 1


class Term:
    """the g-th term of the sentence"""

    def __init__(self, w, g):
        self.w, self.g = w, g

    def __getitem__(self, ix):
        if ix == slice(None, None, 2):
            return Part('words', self.g)
        if ix == slice(1, None, 2):
            return Part('operators', self.g)
        raise Unsupported('other part of a term')


class Part:
    def __init__(self, what, g):
        self.what, self.g = what, g

    def __radd__(self, o):
        if o == [3] and self.what == 'operators':
            return Part('* and operators', self.g)
        raise Unsupported('other list')


class Joined:
    def __init__(self, g):
        self.g = g


class Key:
    """factors of a term, sorted: equal for two terms exactly when they are the same product of words and inverses of words"""

    def __init__(self, g):
        self.g = g


class Splits(SSeq):
    """terms found so far"""

    def __init__(self, w, n):
        self.w, self.n = w, n

    def length(self):
        return self.n

    def elem(self, k):
        return Term(self.w, lift(k))

    def append(self, x):
        c = cur()
        if isinstance(x, list) and not x:
            x = Seg(self.w, self.lo0, self.lo0)
        if not isinstance(x, Seg):
            raise Unsupported('another kind of term')
        c.prove('repeated terms: a term starts after the plus sign before it', x.lo == self.w.S(self.n))
        c.assume(z3.Implies(self.n == self.w.T(self.w.n), self.w.E(self.n) == self.w.n), check=False)
        c.prove('repeated terms: a term ends before the plus sign after it', x.hi == self.w.E(self.n))
        self.n = self.n + 1


class Seen:
    """factors of the terms seen so far: those of term h for every h < n"""

    def __init__(self, w, n):
        self.w, self.n = w, n

    def __contains__(self, k):
        if not isinstance(k, Key):
            raise Unsupported('another key')
        c = cur()
        c.prove('repeated terms: a term is compared with all earlier terms', z3.And(k.g == self.n))
        # first(g): no earlier term is the same term (definition)
        return not c.decide(self.w.first(k.g))

    def append(self, k):
        if not isinstance(k, Key):
            raise Unsupported('another key')
        c = cur()
        c.prove('repeated terms: the term recorded is the current one', k.g == self.n)
        self.done = True


class Kept(SSeq):
    def __init__(self, w, n):
        self.w, self.n, self.last = w, n, None

    def length(self):
        return self.n

    def elem(self, k):
        return KeptTerm(lift(k))

    def append(self, x):
        if not isinstance(x, Term) or self.last is not None:
            raise Unsupported('another term')
        self.last = x
        self.n = self.n + 1


class Out:
    """kept terms 0..n-1, each followed by a plus sign; open: the plus sign of the last one is missing"""

    def __init__(self, w, n):
        self.w, self.n, self.open, self.end = w, n, False, None

    def extend(self, x):
        c = cur()
        if not isinstance(x, KeptTerm):
            raise Unsupported('another term')
        c.prove('repeated terms: the terms are written one after the other', z3.And(z3.BoolVal(not self.open and self.end is None), x.i == self.n))
        self.n = self.n + 1
        self.open = True

    def append(self, x):
        c = cur()
        if self.end is None and self.open:
            c.prove('repeated terms: terms are joined by a plus sign', lift(x) == 2)
            self.open = False
        elif self.end == 'cut':
            c.prove('repeated terms: the sentence is closed by the end mark', lift(x) == 1)
            self.end = 'done'
        else:
            c.prove('repeated terms: nothing else is written', z3.BoolVal(False))

    def pop(self, i=-1):
        c = cur()
        c.prove('repeated terms: only the last plus sign is removed', z3.And(z3.BoolVal(i == -1 and not self.open and self.end is None), self.n >= 1))
        self.end = 'cut'
        return 2


class KeptTerm:
    def __init__(self, i):
        self.i = i


class Dip(Interp):
    def getitem(self, o, i):
        if isinstance(o, (Sent, Term)):
            return o[i]
        return Interp.getitem(self, o, i)

    def e_Compare(self, e, fr):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            b = self.eval(e.comparators[0], fr)
            if isinstance(b, Seen):
                r = b.__contains__(self.eval(e.left, fr))
                return r if isinstance(e.ops[0], ast.In) else not r
        return Interp.e_Compare(self, e, fr)


def g_duplicates(ctx):
    F = need(ALL, 'delete_duplicate')

    def run():
        try:
            body()
        except Mutated:
            cur().prove('repeated terms: the sentence given is left as it was', z3.BoolVal(False))

    def body():
        c = cur()
        n = z3.Int('n_words')
        c.assume(n >= 1)
        w = W(c, n)
        sent = Sent(w, n)
        ended = w.w(n - 1) == 1
        m = z3.If(ended, n - 1, n)
        w.n = z3.simplify(m)
        G = w.T(m) + 1                       # number of terms
        c.assume(w.T(m) >= 0)
        ip = Dip(ctx.session)
        ip.contracts[builtins.zip] = lambda ip_, a, b, **k: Joined(a.g) if isinstance(a, Part) and isinstance(b, Part) and a.what == '* and operators' and b.what == 'words' and a.g is b.g else unsupported()
        ip.contracts[builtins.sorted] = lambda ip_, a, **k: Key(a.g) if isinstance(a, Joined) and not k else unsupported()
        ip.contracts[builtins.list] = lambda ip_, a=(), **k: a if isinstance(a, (Sent, Joined, Part)) else list(a)

        class Words(LoopContract):
            """before word k: the finished terms are terms 0..T(k)-1, the open one holds w[S(T(k))..k-1]"""

            def roles(self, info):
                ap = [x.func.value.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name)]
                ls = [k for k in dict.fromkeys(ap) if isinstance(info.entry.get(k), list)]
                if len(ls) != 2:
                    raise Unsupported('other word loop')
                return [k for k in ls if reassigned(info.node, k)], [k for k in ls if not reassigned(info.node, k)]

            def check(self, info, k, when):
                a, b = self.roles(info)
                if not (len(a) == len(b) == 1):
                    raise Unsupported('other word loop')
                if when == 'initiation':
                    c.prove('repeated terms: nothing is collected before the first word', z3.BoolVal(info.env[a[0]] == [] and info.env[b[0]] == []))
                    return
                all_, tmp = info.env[b[0]], info.env[a[0]]
                if isinstance(tmp, list) and not tmp:
                    tmp = Seg(w, z3.simplify(k), z3.simplify(k))
                if not (isinstance(all_, Splits) and isinstance(tmp, Seg)):
                    raise Unsupported('other word loop')
                c.prove('repeated terms: the sentence is cut at the plus signs', all_.n == w.T(k))
                c.prove('repeated terms: no word is lost or written twice', z3.And(tmp.lo == w.S(w.T(k)), tmp.hi == k))

            def havoc(self, info, k):
                a, b = self.roles(info)
                w.at(c, k)
                c.assume(z3.And(w.T(k) >= 0, w.S(w.T(k)) <= k), check=False)
                info.env[b[0]] = Splits(w, w.T(k))
                info.env[b[0]].lo0 = k
                info.env[a[0]] = Seg(w, w.S(w.T(k)), k)

        class Terms(LoopContract):
            def roles(self, info):
                ap = [x.func.value.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name)]
                tested = {x.comparators[0].id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Compare) and isinstance(x.comparators[0], ast.Name)}
                ls = [k for k in dict.fromkeys(ap) if isinstance(info.entry.get(k), list)]
                seen, kept = [k for k in ls if k in tested], [k for k in ls if k not in tested]
                if not (len(seen) == len(kept) == 1):
                    raise Unsupported('other term loop')
                return seen[0], kept[0]

            def check(self, info, k, when):
                s, t = self.roles(info)
                if when == 'initiation':
                    c.prove('repeated terms: nothing is kept before the first term', z3.BoolVal(info.env[s] == [] and info.env[t] == []))
                    return
                g = self.g
                S, T = info.env[s], info.env[t]
                if not (isinstance(S, Seen) and isinstance(T, Kept)):
                    raise Unsupported('other term loop')
                c.prove('repeated terms: a term is kept exactly when no earlier term is the same', T.n == w.K(g + 1))
                if T.last is not None:
                    c.prove('repeated terms: the term kept is the current one', T.last.g == g)
                # a term whose factors are not recorded was seen already
                c.prove('repeated terms: every kept term is recorded', z3.Implies(w.first(g), z3.BoolVal(getattr(S, 'done', False))))

            def havoc(self, info, k):
                s, t = self.roles(info)
                self.g = k
                w.keep(c, k)
                c.assume(w.K(k) >= 0, check=False)
                c.assume(z3.Implies(k >= 1, w.K(k) >= 1), check=False)      # K(1) = 1: the first term has no earlier one
                info.env[s], info.env[t] = Seen(w, k), Kept(w, w.K(k))

        class Write(LoopContract):
            def check(self, info, k, when):
                nm = self.role(info)
                if when == 'initiation':
                    c.prove('repeated terms: the result starts empty', z3.BoolVal(info.env[nm] == []))
                    return
                o = info.env[nm]
                if not isinstance(o, Out):
                    raise Unsupported('other result loop')
                c.prove('repeated terms: every kept term is written once with its plus sign', z3.And(o.n == k, z3.BoolVal(not o.open and o.end is None)))

            def role(self, info):
                ls = [k for k in dict.fromkeys(x.func.value.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend') and isinstance(x.func.value, ast.Name)) if isinstance(info.entry.get(k), list)]
                if len(ls) != 1:
                    raise Unsupported('other result loop')
                return ls[0]

            def havoc(self, info, k):
                info.env[self.role(info)] = Out(w, k)
        loops = [Words(), Terms(), Write()]

        def pick(fr, node):
            o = fr.loop_no.get(id(node))
            if fr.qual.split('.')[-1] != 'delete_duplicate' or o is None or o >= 3:
                raise Unsupported('another loop')
            return loops[o]
        ip.loop_template = pick
        r = ip.call(F, sent)
        ok = isinstance(r, Out) and r.end == 'done'
        c.prove('repeated terms: the result is a closed sentence', z3.BoolVal(ok))
        if ok:
            c.prove('repeated terms: the result holds every kept term', r.n == w.K(G))
    ctx.run(run)
    ctx.assume_note('first(g): no earlier term of the sentence has the same factors (word, operator that joins it; the first word is multiplied), the meaning of "repeated term"',
                    'sorted(zip(operators, words)) lists of two terms are equal exactly when the terms have the same factors (Python comparison of lists of pairs)')


def reassigned(node, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(ast.Module(body=node.body, type_ignores=[])))


def unsupported():
    raise Unsupported('other form')


# ------------------------------------------------------------------ ten best of a batch
class Top:
    """values or indices of topk over the whole batch, in descending order of the values"""

    def __init__(self, n, f):
        self.n, self.f = n, f
        self.data = self

    def numpy(self): return self
    def cpu(self): return self
    def detach(self): return self

    def tolist(self):
        return SSeq(self.n, lambda k: wrap(self.f(lift(k))))


def g_batch(ctx):
    F = need(ALL, 'find_min_no_repeat')

    def run():
        c = cur()
        n = z3.Int('samples')
        c.assume(n >= 1)
        R = z3.Function('reward', z3.IntSort(), z3.RealSort())
        P = z3.Function('order', z3.IntSort(), z3.IntSort())          # index of the k-th best
        rank = z3.Function('rank', z3.IntSort(), z3.IntSort())
        batch = object()
        k_, l_ = z3.Int('k_'), z3.Int('l_')

        def topk(ip_, x, k, *a, **kw):
            if x is not batch or a or kw:
                raise Unsupported('another selection')
            c.prove('batch: all of the batch is ranked', lift(k) == n)
            return types.SimpleNamespace(indices=Top(n, P), values=Top(n, lambda t: R(P(t))))
        c.assume_axiom(z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < n), z3.And(P(k_) >= 0, P(k_) < n)), patterns=[P(k_)]))
        q = z3.Int('q')                      # arbitrary member of the batch
        c.assume(z3.And(q >= 0, q < n))
        c.assume(z3.And(rank(q) >= 0, rank(q) < n, P(rank(q)) == q))
        ip = Interp(ctx.session)
        ip.contracts[torch.topk] = topk
        rk = rank(q)
        st = {}

        class L(LoopContract):
            """before candidate k: m < 10 rewards listed, strictly descending, all of them of the batch and not below candidate k;
            every earlier candidate's reward is listed"""
            modifies = ()

            def roles(self, info):
                ls = [x for x in dict.fromkeys(x.func.value.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name))]
                tested = {x.comparators[0].id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Compare) and isinstance(x.comparators[0], ast.Name)}
                a, b = [x for x in ls if x in tested], [x for x in ls if x not in tested]
                if not (len(a) == len(b) == 1):
                    raise Unsupported('other selection loop')
                self.modifies = (a[0], b[0])
                return a[0], b[0]

            def check(self, info, k, when):
                a, b = self.roles(info)
                A, B = info.env[a], info.env[b]
                if when == 'initiation':
                    c.prove('batch: nothing is listed before the first candidate', z3.BoolVal(A == [] and B == []))
                    return
                kk = self.k
                c.prove('batch: fewer than ten are listed while candidates remain to be looked at', z3.BoolVal(len(A) < TEN and len(A) == len(B)))
                inv(A, B, 'batch')
                if A:
                    c.prove('batch: listed rewards are not below the candidates to come', lift(A[-1]) >= R(P(kk)))
                c.prove('batch: the reward of every candidate looked at is listed', z3.Implies(rk <= kk, z3.Or([lift(x) == R(q) for x in A] + [z3.BoolVal(False)])))

            def havoc(self, info, k):
                a, b = self.roles(info)
                self.k = k
                m = c.choose(TEN)
                A, B = [fresh_real('a') for _ in range(m)], [fresh_int('i') for _ in range(m)]
                for i in range(m):
                    c.assume(z3.And(B[i].t >= 0, B[i].t < n, R(B[i].t) == A[i].t), check=False)
                    if i:
                        c.assume(A[i - 1].t > A[i].t, check=False)
                # descending order of topk at the positions used
                c.assume(z3.Implies(rk >= k, R(P(rk)) <= R(P(k))), check=False)
                if m:
                    c.assume(z3.Implies(k < n, A[-1].t >= R(P(k))), check=False)   # it was not below the candidate before
                else:
                    c.assume(k == 0, check=False)
                c.assume(z3.Implies(rk < k, z3.Or([x.t == R(q) for x in A] + [z3.BoolVal(False)])), check=False)
                info.env[a], info.env[b] = A, B

        def inv(A, B, lab):
            for i in range(min(len(A), len(B))):
                c.prove(f'{lab}: every listed sentence comes with its own reward', z3.And(lift(B[i]) >= 0, lift(B[i]) < n, R(lift(B[i])) == lift(A[i])))
                if i:
                    c.prove(f'{lab}: rewards are listed in strictly descending order', lift(A[i - 1]) > lift(A[i]))
        ip.loop_template = lambda fr, node: L()
        r = ip.call(F, batch, wrap(n))
        ok = isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, list) for x in r)
        c.prove('batch: indices and rewards are returned', z3.BoolVal(ok))
        if not ok:
            return
        B, A = r
        c.prove('batch: at most ten, one index per reward', z3.BoolVal(len(A) == len(B) <= TEN))
        inv(A, B, 'batch')
        c.prove('batch: every reward of the batch is listed, or ten better ones are', z3.Or([lift(x) == R(q) for x in A] + ([lift(A[-1]) > R(q)] if len(A) == TEN else []) + [z3.BoolVal(False)]))
    ctx.run(run)
    ctx.assume_note('torch.topk over the whole batch: a permutation of the batch in descending order of the values (rewards are finite numbers)',
                    'descending order is used between the current candidate and the last listed one, and between the current candidate and an arbitrary one')


# ------------------------------------------------------------------ leader board
class Token:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def selection_contracts(ip, c):
    def where(ip_, m, *a):
        if a or not isinstance(m, SArr) or m.ndim != 1:
            raise Unsupported('other selection')
        k = z3.simplify(lift(m._shape[0])).as_long()
        return (np.array([i for i in range(k) if c.decide(lift_bool(m[i]))], dtype=int),)
    ip.contracts[np.where] = where
    ip.contracts[np.nonzero] = where
    ip.contracts[np.flatnonzero] = lambda ip_, m: where(ip_, m)[0]

    def isin(ip_, x, arr, **k):
        if not isinstance(arr, SArr):
            raise Unsupported('other membership')
        n = z3.simplify(lift(arr._shape[0])).as_long()
        return wrap(z3.Or([lift(arr[i]) == lift(x) for i in range(n)] + [z3.BoolVal(False)]))
    ip.contracts[np.isin] = isin


def covered(A, r):
    """r is on the board or ten better ones are"""
    return z3.Or([lift(y) == r for y in A] + ([lift(A[-1]) > r] if len(A) == TEN else []) + [z3.BoolVal(False)])


def board(c, size, own, lab):
    A, S = [fresh_real(lab) for _ in range(size)], [Token(f'{lab}{i}') for i in range(size)]
    for i in range(size):
        own[id(S[i])] = A[i].t
        c.keep = getattr(c, 'keep', []) + [S[i]]
        if i:
            c.assume(A[i - 1].t > A[i].t, check=False)
    return A, S


OWN = {}         # reward of every sentence on the path


class Batch(SSeq):
    """sentences of the batch; the k-th listed one belongs to the k-th listed reward"""

    def length(self):
        return z3.Int('batch_size')

    def elem(self, k):
        raise Unsupported('sentence of another number')


class Ref:
    """index of the k-th listed candidate"""

    def __init__(self, k):
        self.k = k


class Bip(Interp):
    def getitem(self, o, i):
        if isinstance(o, Batch):
            if not isinstance(i, Ref):
                raise Unsupported('sentence of another number')
            t = Token('candidate')
            cur().keep = getattr(cur(), 'keep', []) + [t]
            OWN[id(t)] = o.reward(i.k)
            return t
        return Interp.getitem(self, o, i)


def merge_group(sizes):
    """one step of the merge from an arbitrary board, any number of candidates"""
    def g(ctx):
        K = need(KE, 'KD_EqGPT')

        def run():
            c = cur()
            own = OWN
            own.clear()
            n2 = z3.Int('candidates')
            c.assume(z3.And(n2 >= 0, n2 <= TEN))
            bw = z3.Function('listed', z3.IntSort(), z3.RealSort())
            rewards, r, rank = Token('rewards'), z3.Real('any_reward'), z3.Int('any_position')
            size = sizes[c.choose(len(sizes))]
            A0, S0 = board(c, size, own, 'old')
            # r: an arbitrary reward, covered by the old board or listed at some position of the batch
            old = z3.Bool('r_seen_before')
            c.assume(z3.Implies(old, covered(A0, r)), check=False)
            c.assume(z3.Implies(z3.Not(old), z3.And(rank >= 0, rank < n2, bw(rank) == r)), check=False)
            batch = Batch(0, None)
            batch.reward = bw
            ip = Bip(ctx.session)
            selection_contracts(ip, c)
            asked = []

            def best(x, samples=400):
                asked.append((x, samples))
                return SSeq(n2, lambda k: Ref(lift(k))), SSeq(n2, lambda k: wrap(bw(lift(k))))

            def inv(A, S, seen):
                ok = isinstance(A, list) and isinstance(S, list)
                if not ok:
                    raise Unsupported('board of another kind')
                c.prove('board: as many sentences as rewards, at most ten', z3.BoolVal(1 <= len(A) == len(S) <= TEN))
                m = min(len(A), len(S))
                o = [own.get(id(S[i])) for i in range(m)]
                c.prove('board: every entry was seen and has its own reward', z3.And([z3.BoolVal(False) if o[i] is None else lift(A[i]) == o[i] for i in range(m)]))
                c.prove('board: descending order, no equation twice', z3.And([lift(A[i - 1]) > lift(A[i]) for i in range(1, m)]))
                c.prove('board: every equation seen is on the board, or ten better ones are', z3.Implies(seen, covered(A, r)))

            class L(LoopContract):
                def roles(self, info):
                    a = [k for k, v in info.entry.items() if v is A0]
                    s = [k for k, v in info.entry.items() if v is S0]
                    if not (len(a) == len(s) == 1):
                        raise Unsupported('other merge loop')
                    self.modifies = (a[0], s[0])
                    return a[0], s[0]

                def check(self, info, k, when):
                    a, s = self.roles(info)
                    inv(info.env[a], info.env[s], z3.Or(old, rank < k))

                def havoc(self, info, k):
                    a, s = self.roles(info)
                    if size != sizes[0]:
                        raise PathEnd()          # the state before the step does not depend on the board the merge started from
                    A, S = board(c, sizes[c.choose(len(sizes))], own, 'now')
                    c.assume(z3.Implies(z3.Or(old, rank < k), covered(A, r)), check=False)
                    info.env[a], info.env[s] = A, S
            ip.loop_template = lambda fr, node: L()
            e = Int('epoch')
            c.assume(e.t >= 1)
            r_ = ip.call(K._update_top10, e, rewards, batch, A0, S0, best, 400)
            ok = isinstance(r_, tuple) and len(r_) == 2
            c.prove('board: the batch is ranked as a whole', z3.BoolVal(all(x is rewards and s == 400 for x, s in asked) and len(asked) == 1))
            c.prove('board: rewards and sentences', z3.BoolVal(ok))
            if ok:
                inv(r_[0], r_[1], z3.Or(old, rank < n2))
        ctx.run(run)
        ctx.assume_note('equations are told apart by their reward (a function of the equation and the data), as the code does: equations of equal reward count once')
    return g


def g_first(ctx):
    """the first batch: the board is the listing of the batch"""
    K = need(KE, 'KD_EqGPT')

    def run():
        c = cur()
        n = c.choose(4)
        A = [Real(f'b{i}') for i in range(n)]
        sents = [Token(f't{i}') for i in range(6)]
        ix = [5, 0, 3][:n]
        rewards = Token('rewards')
        asked = []

        def best(x, samples=400):
            asked.append((x, samples))
            return list(ix), list(A)
        which = c.choose(2)
        r = Interp(ctx.session).call(K._update_top10, 0 if which == 0 else Int('epoch'), rewards, list(sents), None, None, best, 400)
        ok = isinstance(r, tuple) and len(r) == 2 and len(r[0]) == len(r[1]) == n
        c.prove('first batch: the board is the listing of the batch', z3.BoolVal(ok and asked == [(rewards, 400)] and all(r[0][i] is A[i] for i in range(n)) and all(r[1][i] is sents[ix[i]] for i in range(n))))
    ctx.run(run)


def g_lemma(ctx):
    """what the batch listing and the board step establish is the top ten of the history"""
    def run():
        c = cur()
        B = [z3.Real(f'board{i}') for i in range(TEN)]
        L = [z3.Real(f'list{i}') for i in range(TEN)]
        nb, nl = z3.Int('nb'), z3.Int('nl')
        r = z3.Real('r')
        c.assume(z3.And(nb >= 0, nb <= TEN, nl >= 1, nl <= TEN))
        on = lambda X, n, v: z3.Or([z3.And(i < n, X[i] == v) for i in range(TEN)])
        below = lambda X, n, v: z3.And(n == TEN, *[v < x for x in X])
        for X, n in ((B, nb), (L, nl)):
            for i in range(1, TEN):
                c.assume(z3.Implies(i < n, X[i - 1] > X[i]), check=False)
        for i in range(TEN):
            c.assume(z3.Implies(i < nl, z3.Or(on(B, nb, L[i]), below(B, nb, L[i]))), check=False)
        # r: any reward of the batch
        c.assume(z3.Or(on(L, nl, r), below(L, nl, r)), check=False)
        c.prove('board: every reward of the batch is on the board or ten better ones are', z3.Or(on(B, nb, r), below(B, nb, r)))
        # r: any reward seen before the step; the old board's entries are covered by the new board
        O = [z3.Real(f'old{i}') for i in range(TEN)]
        no, s = z3.Int('no'), z3.Real('s')
        c.assume(z3.And(no >= 0, no <= TEN))
        for i in range(1, TEN):
            c.assume(z3.Implies(i < no, O[i - 1] > O[i]), check=False)
        for i in range(TEN):
            c.assume(z3.Implies(i < no, z3.Or(on(B, nb, O[i]), below(B, nb, O[i]))), check=False)
        c.assume(z3.Or(on(O, no, s), below(O, no, s)), check=False)
        c.prove('board: every reward seen earlier is on the board or ten better ones are', z3.Or(on(B, nb, s), below(B, nb, s)))
    ctx.run(run)


def g_format(ctx):
    """the result lists the board in its order, each equation with its own reward"""
    K = need(KE, 'KD_EqGPT')

    def run():
        c = cur()
        n = c.choose(3)
        i2w = ['<pad>', 'E', '+', '*', '/', 'S', 'ut', 'u', 'ux', 'uxx']
        w2i = {w: i for i, w in enumerate(i2w)}
        A = [Real(f'a{i}') for i in range(n)]
        S = [[6, 2, 7, 3, 8, 1], [6, 2, 9]][:n]
        given = [list(x) for x in S]
        ip = Interp(ctx.session)
        clean = lambda s: (s[:-1] if s[-1] == 1 else list(s)) + [1]
        r = ip.call(K._format_results, S, list(A), i2w, clean, w2i)
        ok = isinstance(r, tuple) and len(r) == 2 and len(r[0]) == len(r[1]) == n
        c.prove('result: one equation and one reward per entry', z3.BoolVal(ok))
        if not ok:
            return
        for i in range(n):
            c.prove('result: the equation is the sentence of the entry', z3.BoolVal(r[0][i] == ['ut+u*ux', 'ut+uxx'][i]))
            c.prove('result: the reward is that of the entry', lift(r[1][i]) == A[i].t)
        c.prove('result: the board is left as it was', z3.BoolVal(S == given))
    ctx.run(run)


def groups():
    return [('removing repeated terms', g_duplicates), ('ten best of a batch', g_batch),
            ('first batch', g_first), ('leader board', merge_group(list(range(1, TEN + 1)))),
            ('lemma', g_lemma), ('result', g_format)]


# ------------------------------------------------------------------ run-time contracts
def spec_clean(s):
    s = list(s)
    if s and s[-1] == 1:
        s = s[:-1]
    terms, t = [], []
    for w in s:
        if w == 2:
            terms.append(t)
            t = []
        else:
            t.append(w)
    terms.append(t)
    seen, keep = [], []
    for t in terms:
        num = sorted(t[i] for i in range(0, len(t), 2) if i == 0 or t[i - 1] == 3)
        rest = sorted((t[i - 1], t[i]) for i in range(2, len(t), 2) if t[i - 1] != 3)
        if (num, rest) not in seen:
            seen.append((num, rest))
            keep.append(t)
    out = []
    for t in keep:
        out += ([2] if out or t is not keep[0] else []) + t
    return out + [1]


def rt_clean(sent):
    F = need(ALL, 'delete_duplicate')
    s = list(sent)
    got = F(s)
    check(list(got) == spec_clean(sent), f'{sent} became {got} instead of {spec_clean(sent)}', 'clean')
    check(s == list(sent), f'the sentence {sent} was changed to {s}', 'mutated')
    check(list(F(list(got))) == list(got), f'{got} changes when cleaned again', 'idempotent')


def sentence(r):
    n = r.randint(1, 7)
    voc = r.sample(range(6, 57), r.randint(1, 3))
    out = []
    for i in range(n):
        out += [r.choice(voc), r.choice([2, 2, 3, 4])]
    return out[:-1] + ([1] if r.random() < .7 else [])


def top(pairs):
    out = []
    for k, v in sorted(pairs, key=lambda p: -p[0]):
        if not any(k == o[0] for o in out):
            out.append((k, v))
    return out[:TEN]


def rt_board(seed):
    import random
    r = random.Random(seed)
    K = need(KE, 'KD_EqGPT')
    F = need(ALL, 'find_min_no_repeat')
    award = sent = None
    seen = []
    pool = [round(r.uniform(-1, 1), 2) for _ in range(r.randint(1, 40))]
    nb = r.randint(1, 14)
    for ep in range(r.randint(1, 6)):
        rew = [r.choice(pool) for _ in range(nb)]
        sents = [[6, 2, int(round(x * 100)) + 1000, 1] for x in rew]
        tr = torch.tensor(rew)
        award, sent = K._update_top10(ep, tr, [list(s) for s in sents], award, sent, F, nb)
        seen += [(float(tr[i]), sents[i]) for i in range(nb)]
        want = top(seen)
        check([float(a) for a in award] == [w[0] for w in want], f'after {ep + 1} batches the board holds {award} instead of {[w[0] for w in want]}', 'board')
        check([list(s) for s in sent] == [w[1] for w in want], 'sentences of other rewards', 'sentences')


def rt_history(seed):
    """the whole search with a stand-in generator and reward"""
    import random, tempfile, os, json
    from pathlib import Path
    r = random.Random(seed)
    M = need(KE)
    gm, tr = need('kd.model.eqgpt.gpt_model'), need(ALL)
    dev = need('kd.model.eqgpt._device')
    hist = []
    ops = r.random() < .5

    class G(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.zeros(1))

        def load_state_dict(self, *a, **k):
            return None

        def step(self, sentence, mask):
            if len(sentence) % 2 == 1:
                return np.int64(r.choice([7, 8, 9, 14, 15])), None
            return np.int64(r.choice([1, 2, 2, 3, 4])), None

        def forward(self, x):
            raise AssertionError

    def reward(sentence, nets, dbs, w2v, mask, variables, nx, nt):
        cl = [int(x) for x in tr.delete_duplicate([int(x) for x in sentence])]
        v = float(torch.tensor(((hash(tuple(sorted(cl))) % 9973) / 9973.0 if r0 else (len(cl) % 7) / 7.0)))
        hist.append((float(np.float32(v)), cl))
        return v, w2v, mask
    r0 = r.random() < .7
    old = [(gm, 'GPT', gm.GPT), (tr, 'calculate_reward', tr.calculate_reward), (tr, 'train_step', tr.train_step), (dev, 'load_checkpoint', dev.load_checkpoint), (M, '_DATA_DIR', M._DATA_DIR)]
    K = need(KE, 'KD_EqGPT')
    old.append((K, '_load_surrogates', K._load_surrogates))
    with tempfile.TemporaryDirectory() as d:
        try:
            import pickle
            os.makedirs(os.path.join(d, 'gpt_model'))
            open(os.path.join(d, 'gpt_model', 'PDEGPT_wave_breaking.pt'), 'wb').close()
            pickle.dump({}, open(os.path.join(d, 'wave_breaking_data.pkl'), 'wb'))
            gm.GPT, tr.calculate_reward, tr.train_step = G, reward, lambda *a, **k: None
            dev.load_checkpoint = lambda *a, **k: {}
            M._DATA_DIR = Path(d)
            K._load_surrogates = lambda self, *a, **k: ([object()], [object()], [1], [1])
            k = K(optimize_epochs=r.randint(1, 4), samples_per_epoch=r.randint(1, 14), seed=seed % 1000)
            res = k.fit_pretrained()
        finally:
            for o, n, v in old:
                setattr(o, n, v)
    i2w = gm.id2word
    want = top(hist)
    check([float(x) for x in res['rewards']] == [w[0] for w in want], f'the result lists rewards {res["rewards"]} instead of {[w[0] for w in want]}', 'result rewards')
    for e, (v, _) in zip(res['equations'], want):
        texts = [''.join(i2w[i] for i in s[:-1]) for x, s in hist if x == v]
        check(e in texts, f'{e} is listed with reward {v}, which is that of {texts[:3]}', 'result equation')
    check(res['best_equation'] == res['equations'][0] and res['best_reward'] == res['rewards'][0], 'another best equation', 'best')


def rt_finite(seed):
    """the reward of every sentence is a finite number (nan would head every board)"""
    import random
    from . import c25
    r = random.Random(seed)
    w2i, i2w = c25.vocabulary()
    var = ['t', 'x']
    ws = [w for w in c25.words() if c25.letters(w) <= set(var)]
    pts = np.array([[r.uniform(-1.4, 1.4) for _ in var] for _ in range(r.randint(5, 20))])
    text = r.choice(c25.FIELDS + ['1+0*x*t', 'x+t', '0*x*t*y'])
    s = c25.sentence(r, ws, w2i, r.randint(1, 5))
    R = need(ALL, 'calculate_reward')
    db = torch.tensor(pts, dtype=torch.float64, requires_grad=True)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s0 = list(s)
        try:
            v = R(s, [c25.Field(text, var)], [db], {}, torch.ones(len(i2w)), var, [1], [len(pts)])[0]
        except (RuntimeError, ValueError):
            return                      # fields without the derivatives of the word
    check(np.isfinite(float(v)), f'{[i2w[i] for i in s0]} on {text} has reward {v}', 'finite')
    check(s == s0, 'the sentence was changed', 'mutated')


def cases(tier, rng):
    import itertools
    for n in range(1, 4):
        for ws in itertools.product((7, 8), repeat=n):
            for os_ in itertools.product((2, 3, 4), repeat=n - 1):
                s = [x for p in itertools.zip_longest(ws, os_) for x in p if x is not None]
                yield C(rt_clean), dict(sent=s + [1]), ('s', tuple(s), 1)
                yield C(rt_clean), dict(sent=s), ('s', tuple(s), 0)
    import random
    k = 0
    while True:
        s = rng.randrange(10 ** 9)
        if k % 5 == 4:
            yield C(rt_history), dict(seed=s), ('h', s)
        elif k % 5 == 3:
            yield C(rt_finite), dict(seed=s), ('f', s)
        elif k % 5 == 2:
            yield C(rt_board), dict(seed=s), ('b', s)
        else:
            x = sentence(random.Random(s))
            yield C(rt_clean), dict(sent=x), ('s', tuple(x))
        k += 1
