"""C02: expression cache and pickling."""
import pickle
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import disc
from .c01 import _Swap, spec_len, LIBS

ID = 'C02'
LEVEL = 'proof'
RULE = ('seeded random histories of build requests (cached / bypassing / on- and off-policy, complete and unfinished sequences) over several libraries, '
        'each followed by pickling of every program; a case is non-trivial when its history is new')
PM = 'kd.model.discover.program'


# ------------------------------------------------------------------ deductive part
def g_from_tokens(ctx):
    """from_tokens against an arbitrary cache whose every entry holds the tokens of its key (representation invariant)."""
    mod = need(PM)
    f = need(PM, 'from_tokens')

    for task_kind in ('symbolic',):
        def run():
            c = cur()
            n = Int('n')
            c.assume(n.t >= 1)
            tok = SArr.symbolic('tok', (n,), 'int')
            entry = SArr.symbolic('entry', (n,), 'int')       # tokens held by the stored program
            on0, off0 = Int('on0'), Int('off0')
            c.assume(z3.And(on0.t >= 0, off0.t >= 0))
            log = []

            class Task:
                stochastic = Bool('stochastic')

            class Pr:
                task = Task

                def __init__(self, tokens, on_policy=True):
                    log.append(('new', tokens, on_policy, self))
                    self.tokens = tokens
                    self.on_policy_count, self.off_policy_count = Int('newon'), Int('newoff')

            class Stored:
                tokens = entry
                on_policy_count, off_policy_count = on0, off0
            stored = Stored()
            c.inst = []

            class Cache:
                def __getitem__(self, k):
                    log.append(('get', k))
                    if c.choose(2):
                        q = z3.Int('q!inv')
                        c.assume(z3.And(q >= 0, q < n.t), check=False)
                        c.assume(k.same(entry, q), check=False)      # invariant of the cache instantiated at the generic position
                        return stored
                    raise KeyError(k)

                def get(self, k, d=None):
                    try:
                        return self[k]
                    except KeyError:
                        return d

                def __contains__(self, k):
                    try:
                        self[k]
                        return True
                    except KeyError:
                        return False

                def __setitem__(self, k, v):
                    log.append(('set', k, v))
            Pr.cache = Cache()
            skip, on = Bool('skip'), Bool('on')
            ip = Interp(ctx.session)
            with _Swap(mod, Program=Pr):
                p = ip.call(f, tok, skip_cache=skip, on_policy=on, finish_tokens=False)
            q = z3.Int('q!inv')
            c.assume(z3.And(q >= 0, q < n.t), check=False)
            bypass = z3.Or(skip.t, Task.stochastic.t)
            touched = [x for x in log if x[0] in ('get', 'set')]
            sets = [x for x in log if x[0] == 'set']
            news = [x for x in log if x[0] == 'new']
            c.prove('from_tokens: bypassing requests never touch the cache', z3.Implies(bypass, z3.BoolVal(not touched)))
            c.prove('from_tokens: a cached request consults the cache', z3.Implies(z3.Not(bypass), z3.BoolVal(bool(touched))))
            c.prove('from_tokens: the returned program holds exactly the requested tokens', p.tokens.term(q) == tok.term(q))
            for x in touched:
                c.prove('from_tokens: the cache is accessed under the key of the requested tokens', x[1].same(tok, q))
            if p is stored:
                c.prove('from_tokens: a hit creates no program and stores nothing', z3.BoolVal(not sets and not news))
                c.prove('from_tokens: a hit increments exactly the counter of its policy', z3.And(
                    lift(stored.on_policy_count) == on0.t + z3.If(on.t, 1, 0), lift(stored.off_policy_count) == off0.t + z3.If(on.t, 0, 1)))
                stored.on_policy_count, stored.off_policy_count = on0, off0
            else:
                c.prove('from_tokens: a miss creates one program and (unless bypassing) stores exactly it', z3.And(
                    z3.BoolVal(len(news) == 1 and news[0][3] is p and news[0][1] is tok),
                    z3.Implies(z3.Not(bypass), z3.BoolVal(len(sets) == 1 and bool(sets) and sets[0][2] is p))))
                c.prove('from_tokens: the policy of the request is recorded', lift(news[0][2]) == on.t)
        ctx.run(run)
    ctx.assume_note('cache invariant: every stored program holds the tokens whose bytes are its key (established by the insertion obligation, tokens of a program are never reassigned)',
                    'ndarray.tobytes is injective on int32 token arrays of one dtype')


class _Const:
    pass


def g_constants(ctx):
    """set_constants / get_constants: position-wise, never touching a token object shared with other programs."""
    mod = need(PM)
    Prog = need(PM, 'Program')

    def run(nc=3):
        c = cur()

        class PC:
            def __init__(self, value=None):
                self.value = value
        shared = PC(Real('old'))
        other = object()
        layouts = [[0], [1, 3], [0, 1, 2]]
        pos = layouts[c.choose(3)]
        p = Prog.__new__(Prog)
        p.traversal = [shared if i in pos else other for i in range(4)]
        p.const_pos = list(pos)
        k = c.choose(len(pos) + 1)
        vals = [Real(f'v{i}') for i in range(k)]
        ip = Interp(ctx.session)
        old = shared.value
        with _Swap(mod, PlaceholderConstant=PC):
            ip.call(Prog.set_constants, p, vals)
        c.prove('set_constants: the shared library token keeps its value', z3.BoolVal(shared.value is old))
        for j, i in enumerate(pos):
            if j < k:
                c.prove('set_constants: constant j is stored at the j-th constant position', z3.And(z3.BoolVal(p.traversal[i] is not shared), lift(p.traversal[i].value) == vals[j].t))
            else:
                c.prove('set_constants: remaining constants unchanged', z3.BoolVal(p.traversal[i] is shared))
        c.prove('set_constants: other tokens unchanged', z3.BoolVal(all(p.traversal[i] is other for i in range(4) if i not in pos) and len(p.traversal) == 4))
    ctx.run(run)
    ctx.assume_note('set_constants: layouts of up to 3 constants among 4 tokens (bounded), values symbolic')


def g_state(ctx):
    """__setstate__(__getstate__(p)): every listed attribute is restored (symbolic values, every combination of what is known)."""
    mod = need(PM)
    Prog = need(PM, 'Program')

    def run():
        c = cur()
        p = Prog.__new__(Prog)
        p.tokens = object()
        p.const_pos, p.traversal = [], []
        r, ev = Real('r'), object()
        inv = Bool('invalid')
        have_r, have_e = bool(c.choose(2)), bool(c.choose(2))
        if have_r:
            p.__dict__['r_ridge'] = r
        if have_e:
            p.__dict__['evaluate'] = ev
        p.invalid = inv
        p.error_node, p.error_type = [('exp', 'overflow'), (None, None)][c.choose(2)]
        on, off = Int('on'), Int('off')
        pol = Bool('policy')
        p.on_policy_count, p.off_policy_count, p.originally_on_policy = on, off, pol
        ip = Interp(ctx.session)
        st = ip.call(Prog.__getstate__, p)
        q = Prog.__new__(Prog)

        def init(ip_, self, tokens, on_policy=True):
            self.tokens, self.traversal, self.const_pos, self.invalid = tokens, [], [], False
            self.on_policy_count, self.off_policy_count = (1, 0)
            self.originally_on_policy = on_policy
        ip2 = Interp(ctx.session, contracts={Prog._init: init})
        ip2.call(Prog.__setstate__, q, st)
        c.prove('pickle: tokens restored', z3.BoolVal(q.tokens is p.tokens))
        c.prove('pickle: reward restored exactly when known', z3.BoolVal(('r_ridge' in q.__dict__) == have_r) if not have_r else
                (lift(q.__dict__['r_ridge']) == r.t if 'r_ridge' in q.__dict__ else z3.BoolVal(False)))
        c.prove('pickle: evaluation restored exactly when known', z3.BoolVal(('evaluate' in q.__dict__) == have_e and q.__dict__.get('evaluate') is (ev if have_e else None)))
        c.prove('pickle: validity restored', lift(q.invalid) == inv.t)
        c.prove('pickle: counters restored', z3.And(lift(q.on_policy_count) == on.t, lift(q.off_policy_count) == off.t, lift(q.originally_on_policy) == pol.t))
    ctx.run(run)


def groups():
    return [('from_tokens', g_from_tokens), ('constants', g_constants), ('state', g_state)]


# ------------------------------------------------------------------ run-time contracts (bounded)
PLIBS = dict(LIBS)
PLIBS['consts'] = [('add', 2, ''), ('mul', 2, ''), ('sin', 1, ''), ('u1', 0, 'u'), ('const', 0, 'c'), ('x1', 0, 'x')]


# wide libraries: token numbers of several digits / several bytes
PLIBS['wide'] = [(f'f{i}', 1, '') for i in range(25)] + [('add', 2, ''), ('u1', 0, 'u'), ('x1', 0, 'x')]
PLIBS['huge'] = [(f'f{i}', 1, '') for i in range(600)] + [('add', 2, ''), ('u1', 0, 'u'), ('x1', 0, 'x')]


def lookalikes(rng, L):
    """distinct complete sequences that a lossy key could confuse: same digits, same bytes modulo 256, same multiset, same sum, same prefix"""
    n = L - 3
    u, x, add = L - 2, L - 1, L - 3
    a, b = rng.randint(1, 2), rng.randint(1, 2)
    out = [[a, 10 * b + a, u], [10 * a + b, a, u], [1, 11, u], [11, 1, u], [1, 1, 1, u], [111 % n, u], [3, 5, u], [5, 3, u], [4, 4, u]]
    if L > 300:
        c = rng.randint(0, 80)
        out += [[c, u], [c + 256, u], [c + 512, u], [1, 0, u], [256, u]]
    ch = [rng.randrange(n) for _ in range(rng.randint(8, 60))]
    out += [ch + [u], ch + [x], [ch[0]] + ch + [u], ch + ch + [x], [add] + ch + [u, x], [add] + ch + [x, u], [add, u] + ch + [x]]
    return out


def setup(lib, stochastic=False):
    Prog = need(PM, 'Program')

    class Task:
        task_type = 'regression'
    Task.stochastic = stochastic
    Task.library = lib
    Prog.set_task(Task)
    Prog.n_objects, Prog.default_terms = 1, []
    Prog.clear_cache()
    Prog.set_complexity('token')
    return Prog


def case_history(p):
    ft = need(PM, 'from_tokens')
    lib = disc.make_library(PLIBS[p['lib']])
    Prog = setup(lib, p['stochastic'])
    np.random.seed(p['seed'])
    fin = need(PM, '_finish_tokens')
    model = {}          # tokens -> (program, on, off)
    others = []
    for s, skip, on, finish in p['reqs']:
        a = np.array(s, dtype=np.int32)
        if not finish:
            a = np.asarray(fin(a), dtype=np.int32)
        before = {k: (v, v.on_policy_count, v.off_policy_count) for k, v in Prog.cache.items()}
        q = ft(a, skip_cache=skip, on_policy=on, finish_tokens=finish)
        toks = tuple(int(t) for t in q.tokens)
        k, o = spec_len(list(a), lib.arities)
        check(toks[:k] == tuple(int(t) for t in a[:k]) and len(toks) == k + o, lambda: f'request {list(a)} -> {toks}')
        check([t.name for t in q.traversal] == [lib.names[t] for t in toks], lambda: f'request {list(a)} -> traversal {q.traversal}', 'traversal')
        if skip or p['stochastic']:
            check({k: (v, v.on_policy_count, v.off_policy_count) for k, v in Prog.cache.items()} == before, 'bypassing request changed the cache', 'bypass')
            check(all(q is not v for v in Prog.cache.values()) and all(q is not x for x in others), 'bypassing request returned a shared program', 'bypass-shared')
            check((q.on_policy_count, q.off_policy_count) == ((1, 0) if on else (0, 1)), 'counters of a fresh program', 'fresh-count')
            others.append(q)
        else:
            if toks in model:
                m = model[toks]
                check(q is m[0], lambda: f'request {list(a)} did not return the cached program', 'shared')
                m[1 if on else 2] += 1
            else:
                check(all(q is not m[0] for m in model.values()) and all(q is not x for x in others), 'different sequences share a program', 'aliased')
                model[toks] = [q, int(on), int(not on)]
            check(len(Prog.cache) == len(model), lambda: f'cache holds {len(Prog.cache)} programs, {len(model)} distinct sequences were built', 'cache-size')
        for t, (pr, c1, c2) in model.items():
            check((pr.on_policy_count, pr.off_policy_count) == (c1, c2), lambda: f'counters of {t}: {(pr.on_policy_count, pr.off_policy_count)} expected {(c1, c2)}', 'count')
            check(tuple(int(x) for x in pr.tokens) == t and [x.name for x in pr.traversal] == [lib.names[x] for x in t], lambda: f'cached program of {t} changed: {pr.tokens}', 'mutated')
            check(pr.originally_on_policy in (True, False), 'policy flag')


def case_pickle(p):
    ft = need(PM, 'from_tokens')
    lib = disc.make_library(PLIBS[p['lib']])
    Prog = setup(lib)
    np.random.seed(p['seed'])
    rng = np.random.RandomState(p['seed'])
    progs = []
    for s in p['seqs']:
        q = ft(np.array(s, dtype=np.int32), on_policy=p['on'])
        if any(q is x[0] for x in progs):
            continue
        vals = [float(v) for v in rng.uniform(-5, 5, len(q.const_pos))]
        q.set_constants(vals)
        progs.append([q, vals, None, None, False])
    for k, e in enumerate(progs):
        q = e[0]
        if (k + p['seed']) % 3 != 0:
            e[2] = float(rng.uniform(-1, 1))
            q.__dict__['r_ridge'] = e[2]
        if (k + p['seed']) % 4 == 1:
            e[3] = dict(a=float(rng.uniform()))
            q.__dict__['evaluate'] = e[3]
        if (k + p['seed']) % 5 == 2:
            q.invalid, q.error_node, q.error_type = True, [None, 'exp'][k % 2], ['overflow', None][k % 2]
            e[4] = True
        q.on_policy_count += k % 3
    for q, vals, r, ev, inv in progs:
        check(np.allclose(q.get_constants(), vals), lambda: f'constants of one program changed by another: {q.get_constants()} expected {vals}', 'const-isolated')
        z = pickle.loads(pickle.dumps(q))
        check(list(z.tokens) == list(q.tokens) and [t.name for t in z.traversal] == [t.name for t in q.traversal], 'expression not restored', 'expr')
        check(z.str == q.str, 'cache key not restored', 'key')
        check(list(z.get_constants()) == vals, lambda: f'constants {vals} restored as {z.get_constants()}', 'const')
        check(('r_ridge' in z.__dict__) == (r is not None) and z.__dict__.get('r_ridge') == r, lambda: f'reward {r} restored as {z.__dict__.get("r_ridge")}', 'reward')
        check(z.__dict__.get('evaluate') == ev, 'evaluation not restored', 'evaluate')
        check(bool(z.invalid) == inv, lambda: f'validity {inv} restored as {z.invalid}', 'validity')
        check((z.on_policy_count, z.off_policy_count, z.originally_on_policy) == (q.on_policy_count, q.off_policy_count, q.originally_on_policy), 'counters not restored', 'counters')
    for q in [ft(np.array(s, dtype=np.int32), skip_cache=True) for s in p['seqs'][:5]]:
        check(list(pickle.loads(pickle.dumps(q)).tokens) == list(q.tokens), 'fresh program not restored', 'fresh')
        check(all(lib.tokens[int(t)].value is None or float(lib.tokens[int(t)].value[0]) == 1.0 for t in q.tokens if lib.names[int(t)] == 'const'), 'library constant modified', 'library-const')


def cases(tier, rng):
    n = 150 if tier == 'quick' else 1500
    for it in range(n):
        lib = rng.choice(list(PLIBS))
        ar = [a for _, a, _ in PLIBS[lib]]
        if lib in ('wide', 'huge'):
            pool = lookalikes(rng, len(ar))
            reqs = [(list(s), rng.random() < 0.1, rng.random() < 0.6, rng.random() < 0.7) for s in rng.choices(pool, k=rng.randint(15, 40))]
            yield case_history, dict(lib=lib, reqs=reqs, seed=it, stochastic=False), (lib, repr(reqs))
            continue
        pool = [disc.random_expr(rng, ar, rng.randint(1, 9)) for _ in range(4)]
        pool += [rng.choices(range(len(ar)), k=rng.randint(1, 8)) for _ in range(3)]
        # near-duplicates: permutations / extensions of the same tokens
        pool += [list(reversed(pool[0])), list(pool[0]) + list(pool[1]), list(pool[1])[:-1] or [0]]
        reqs = [(list(rng.choice(pool)), rng.random() < 0.25, rng.random() < 0.6, rng.random() < 0.7) for _ in range(rng.randint(5, 30))]
        yield case_history, dict(lib=lib, reqs=reqs, seed=it, stochastic=it % 10 == 9), (lib, repr(reqs))
    for it in range(40 if tier == 'quick' else 400):
        lib = 'consts' if it % 4 else 'std'
        ar = [a for _, a, _ in PLIBS[lib]]
        seqs = [disc.random_expr(rng, ar, rng.randint(1, 12), 0.3) for _ in range(rng.randint(4, 14))]
        yield case_pickle, dict(lib=lib, seqs=seqs, seed=it, on=bool(it % 2)), (lib, repr(seqs))
