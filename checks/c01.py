"""C01: any token sequence becomes exactly one complete expression."""
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import disc

ID = 'C01'
LEVEL = 'proof'
RULE = 'every token sequence up to a bounded length over small libraries (exhaustive) plus seeded random long ones; a case is non-trivial when its sequence is new'
PM = 'kd.model.discover.program'


class _Swap:
    """temporarily replace module globals of the code under analysis by symbolic stand-ins"""

    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def g_finish(ctx):
    mod = need(PM)
    f = need(PM, '_finish_tokens')
    I = z3.IntSort()

    def run():
        c = cur()
        n, T, M = Int('n'), Int('T'), Int('M')
        c.assume(z3.And(n.t >= 1, T.t >= 1, M.t >= 1))
        tok = SArr.symbolic('tok', (n,), 'int', lambda j, t: z3.And(t >= 0, t < T.t))
        ar = SArr.symbolic('ar', (T,), 'int', lambda i, t: z3.And(t >= 0, t <= 2))
        inp = SArr.symbolic('inp', (M,), 'int', lambda i, t: z3.And(t >= 0, t < T.t))
        INP = z3.Function('is_input', I, z3.BoolSort())
        inp.member_pred = lambda x: INP(x)
        keep = tok.snapshot()
        E = z3.Int('E')                         # first index after which the expression is complete, or n
        AR = lambda k: ar.store.get(tok.store.get(k))

        def axs(i):
            out = [PS.f(0) == 0, E >= 0, E <= n.t]
            for d in (i, z3.simplify(i - 1)):
                out += [z3.Implies(z3.And(d >= 1, d <= n.t), PS.f(d) == PS.f(d - 1) + ar.term(tok.term(z3.simplify(d - 1))) - 1),
                        z3.Implies(z3.And(d >= 1, d <= n.t, PS.f(d) == -1), E <= d - 1),
                        z3.Implies(d == E + 1, z3.Implies(E < n.t, PS.f(d) == -1)),
                        # lemma (proved below by induction): before the first completion open slots are positive
                        z3.Implies(z3.And(d >= 0, d <= E), PS.f(d) >= 0)]
            return out
        PS = SpecFn('PS', ['int', 'int'], axs)  # sum of (arity-1) over the first i tokens
        c.inst = [E, n.t - 1]

        class Lib:
            arities, input_tokens = ar, inp

        class Pr:
            n_objects, library = 1, Lib

        ip = Interp(ctx.session)
        ip.cumsum_spec = lambda g, m, q: (z3.And(m == n.t, g(q) == ar.term(tok.term(q)) - 1), PS)
        with _Swap(mod, Program=Pr):
            res = ip.call(f, tok)
        m = lift(res.shape[0])
        q = z3.Int('q!post')
        c.assume(z3.And(q >= 0, q < m), check=False)
        PS(E), PS(E + 1), PS(n.t), PS(m)
        rq = res.term(q)
        c.prove('_finish_tokens: kept tokens are the original ones in order', z3.Implies(q < n.t, rq == keep(q)))
        c.prove('_finish_tokens: complete input is cut right after its completion', z3.Implies(E < n.t, m == E + 1))
        c.prove('_finish_tokens: unfinished input is closed with exactly as many leaves as open slots', z3.Implies(E == n.t, m == n.t + PS(n.t) + 1))
        c.prove('_finish_tokens: added leaves are input variables', z3.Implies(q >= n.t, INP(rq)))
        c.prove('_finish_tokens: the argument is not modified', z3.Implies(q < n.t, tok.term(q) == keep(q)))
    ctx.run(run)

    def lem_ps():
        # C(0)=PS(1), C(k)=C(k-1)+a(k), PS(k+1)=PS(k)+a(k)  =>  C(k)=PS(k+1)
        c = cur()
        C, PS, a = (z3.Function(x, I, I) for x in ('C', 'PS_', 'a'))
        k = z3.Int('k')
        c.prove('lemma: running count = PS (base)', z3.Implies(z3.And(PS(0) == 0, PS(1) == PS(0) + a(0), C(0) == a(0)), C(0) == PS(1)))
        c.prove('lemma: running count = PS (step)', z3.Implies(z3.And(k >= 0, C(k) == PS(k + 1), C(k + 1) == C(k) + a(k + 1), PS(k + 2) == PS(k + 1) + a(k + 1)), C(k + 1) == PS(k + 2)))
        # open slots stay positive before the first completion: steps are >= -1 and never reach -1
        E = z3.Int('E')
        c.prove('lemma: open slots positive before completion (base)', z3.Implies(PS(0) == 0, PS(0) >= 0))
        c.prove('lemma: open slots positive before completion (step)', z3.Implies(
            z3.And(k >= 0, z3.Implies(k <= E, PS(k) >= 0), PS(k + 1) == PS(k) + a(k), a(k) >= -1, k + 1 <= E, PS(k + 1) != -1), PS(k + 1) >= 0))
        # closing with PS(n)+1 leaves completes the expression exactly at the last added leaf
        n, m = z3.Ints('n m')
        R = z3.Function('R', I, I)      # PS of the closed sequence
        c.prove('lemma: closing leaves (step)', z3.Implies(z3.And(m >= 0, R(n + m) == PS(n) - m, R(n + m + 1) == R(n + m) - 1), R(n + m + 1) == PS(n) - (m + 1)))
        c.prove('lemma: closed sequence is complete exactly at its end', z3.Implies(
            z3.And(PS(n) >= 0, R(n + m) == PS(n) - m), z3.And(z3.Implies(m == PS(n) + 1, R(n + m) == -1), z3.Implies(z3.And(m >= 0, m <= PS(n)), R(n + m) >= 0))))
    ctx.run(lem_ps)
    ctx.assume_note('input_tokens are leaves (Library: input variables have arity 0, asserted by Token.__init__)',
                    'np.random.choice(a, size) returns size members of a; np.argmax of a boolean array returns the first True')


def g_from_tokens(ctx):
    """from_tokens: the program is built from (or looked up under) exactly the completed tokens."""
    mod = need(PM)
    f = need(PM, 'from_tokens')
    fin = need(PM, '_finish_tokens')

    def run():
        c = cur()
        n, m = Int('n'), Int('m')
        c.assume(z3.And(n.t >= 1, m.t >= 1))
        tok = SArr.symbolic('tok', (n,), 'int')
        done = SArr.symbolic('done', (m,), 'int')
        seen = []

        class Task:
            stochastic = Bool('stochastic')

        class Cache(dict):
            def __getitem__(self, k):
                raise KeyError(k)

        class Pr:
            task, cache = Task, Cache()

            def __init__(self, tokens, on_policy=True):
                seen.append(tokens)
                self.tokens = tokens
        skip = Bool('skip')
        finish = Bool('finish')
        ip = Interp(ctx.session, contracts={fin: lambda ip, t: (seen.append(('fin', t)), done)[1]})
        with _Swap(mod, Program=Pr):
            p = ip.call(f, tok, skip_cache=skip, on_policy=True, finish_tokens=finish)
        want = done if any(isinstance(x, tuple) for x in seen) else tok
        c.prove('from_tokens: the program holds the completed tokens', z3.BoolVal(p.tokens is want))
        c.prove('from_tokens: completion is applied to the requested tokens when asked', z3.And(
            z3.BoolVal(all(x[1] is tok for x in seen if isinstance(x, tuple))), finish.t == z3.BoolVal(want is done)))
    ctx.run(run)


def groups():
    return [('finish_tokens', g_finish), ('from_tokens', g_from_tokens)]


# ------------------------------------------------------------------ run-time contracts (bounded)
LIBS = {'small': disc.SMALL, 'std': disc.STD, 'bin': [('mul', 2, ''), ('u1', 0, 'u')],
        'noinput': [('mul', 2, ''), ('sin', 1, ''), ('u1', 0, 'u'), ('u2', 0, 'u')], 'two': [('add', 2, ''), ('n2', 1, ''), ('u1', 0, 'u'), ('x1', 0, 'x'), ('x2', 0, 'x')]}


def spec_len(seq, ar):
    o = 1
    for k, t in enumerate(seq):
        o += ar[t] - 1
        if o == 0:
            return k + 1, 0
    return len(seq), o


def case_finish(p):
    fin, Prog = need(PM, '_finish_tokens', 'Program')
    lib = disc.make_library(LIBS[p['lib']])
    Prog.library, Prog.n_objects = lib, 1
    np.random.seed(p.get('seed', 0))
    for s in p['seqs']:
        a = np.array(s, dtype=np.int32)
        r = fin(a)
        k, o = spec_len(s, lib.arities)
        check(list(r[:k]) == list(s[:k]), lambda: f'{s} -> {list(r)}: kept tokens changed')
        check(len(r) == k + o, lambda: f'{s} -> {list(r)}: length {len(r)}, expected {k}+{o}')
        check(all(int(t) in set(int(x) for x in lib.input_tokens) for t in r[k:]), lambda: f'{s} -> {list(r)}: closed with {list(r[k:])}')
        check(spec_len(list(r), lib.arities) == (len(r), 0), lambda: f'{s} -> {list(r)} is not one complete expression')
        check(list(a) == list(s), 'argument modified')


def case_from_tokens(p):
    ft, Prog = need(PM, 'from_tokens', 'Program')
    lib = disc.make_library(LIBS[p['lib']])

    class Task:
        stochastic, task_type = False, 'regression'
    Task.library = lib
    Prog.set_task(Task)
    Prog.n_objects, Prog.default_terms = 1, []
    Prog.cache = {}
    np.random.seed(p.get('seed', 0))
    for s in p['seqs']:
        k, o = spec_len(s, lib.arities)
        q = ft(np.array(s, dtype=np.int32), skip_cache=p['skip'], on_policy=p['on'])
        names = [t.name for t in q.traversal]
        check(names[:k] == [lib.names[t] for t in s[:k]], lambda: f'{s}: expression {names}')
        check(len(names) == k + o == len(q.tokens), lambda: f'{s}: length of {names}')
        check([lib.names[t] for t in q.tokens] == names, 'tokens and traversal differ')
        check(all(t.arity == 0 for t in q.traversal[k:]), 'closing tokens are leaves')


def all_seqs(T, n):
    import itertools
    return itertools.product(range(T), repeat=n)


def cases(tier, rng):
    mx = {'small': 5, 'std': 3, 'bin': 9, 'noinput': 5, 'two': 5} if tier == 'quick' else {'small': 7, 'std': 5, 'bin': 12, 'noinput': 7, 'two': 6}
    for lib, m in mx.items():
        T = len(LIBS[lib])
        for n in range(1, m + 1):
            ss = [list(s) for s in all_seqs(T, n)]
            for k in range(0, len(ss), 500):
                yield case_finish, dict(lib=lib, seqs=ss[k:k + 500]), (lib, n, k)
            if len(ss) > 300:
                ss = rng.sample(ss, 300)
            for skip in (False, True):
                yield case_from_tokens, dict(lib=lib, seqs=ss, skip=skip, on=bool(n % 2)), (lib, n, skip)
    for it in range(60 if tier == 'quick' else 600):
        lib = rng.choice(list(LIBS))
        T = len(LIBS[lib])
        w = [rng.random() + 0.05 for _ in range(T)]
        ss = [rng.choices(range(T), w, k=rng.randint(5, 70)) for _ in range(20)]
        yield case_finish, dict(lib=lib, seqs=ss, seed=it), (lib, repr(ss))
        yield case_from_tokens, dict(lib=lib, seqs=ss, skip=False, on=True, seed=it), (lib, repr(ss))
