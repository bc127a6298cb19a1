"""C03: parent / sibling / ancestor / open-slot bookkeeping."""
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import disc
from .spec_tokens import Rows

ID = 'C03'
LEVEL = 'proof'
RULE = ('every incomplete token sequence up to a bounded length over small libraries (exhaustive) plus seeded random long ones; '
        'a case is non-trivial when its sequence is new; the oracle builds the tree explicitly')
SUB = 'kd.model.discover.dso.subroutines'


# ------------------------------------------------------------------ deductive part
def scan_template(S, R, B=None, extra=None):
    """Candidate invariants for backward scans over a prefix of length e of row r, and for row/column loops around them."""
    def tm(info):
        out = []
        env = info.frame.env
        stack = info.interp.loop_stack
        e_ = B.t if B is not None else S.L.t
        is_row = isinstance(info.n, z3.ExprRef) and info.sq is not None
        for a in info.mod_arrays:
            ent = env[a].snapshot()
            nd = env[a].ndim
            ix = (R.t,) if nd == 1 else (R.t, e_)
            out.append((f'{a}: cell unchanged', lambda st, a=a, ent=ent, ix=ix: st.env[a].term(*ix) == ent(*ix)))
            for tgt, nm in ((R.t, 'row'), (e_, 'column')):
                out.append((f'{a}: {nm} not yet processed', lambda st, a=a, ent=ent, ix=ix, tgt=tgt: z3.Implies(lift(info.elem(st.k)) <= tgt, st.env[a].term(*ix) == ent(*ix))))
            for b in info.mod_arrays:
                if a != b and env[b].ndim == nd:
                    for tgt, nm in ((R.t, 'row'), (e_, 'column')):
                        out.append((f'{a},{b}: {nm} post', lambda st, a=a, b=b, ix=ix, tgt=tgt: z3.Implies(lift(info.elem(st.k)) > tgt, extra(st.env[a], st.env[b], ix))))
                    # inner loop of a nest: unchanged unless the outer index is the generic one
                    if stack:
                        o = lift(stack[-1][1])
                        for tgt in (R.t, e_):
                            out.append((f'{a},{b}: post once passed ({tgt})', lambda st, a=a, b=b, ix=ix, o=o, tgt=tgt:
                                        z3.Implies(z3.And(o == e_, lift(info.elem(st.k)) > tgt), extra(st.env[a], st.env[b], ix))))
                            out.append((f'{a}: untouched elsewhere ({tgt})', lambda st, a=a, ent=ent, ix=ix, o=o, tgt=tgt:
                                        z3.Implies(z3.Or(o != e_, lift(info.elem(st.k)) <= tgt), st.env[a].term(*ix) == ent(*ix))))
        if stack:
            idxs = [lift(v) for _, v in stack if v is not None]
            r = idxs[-1]
            es = [S.L.t] if B is None else [idxs[0]]
            for e in es:
                for v in info.mod_ints:
                    out.append((f'{v} = D(e, e-k)', lambda st, v=v, e=e: lift(st.env[v]) == S.D(r, e, z3.simplify(e - st.k))))
                if B is None:
                    out.append(('owner of the slot not passed', lambda st, e=e: st.k < e - S.P(r, e)))
                else:
                    out.append(('owner of the slot not passed', lambda st, e=e: z3.Implies(z3.And(e == e_, r == R.t), st.k < e - S.P(r, e))))
                for a in info.mod_arrays:
                    ent = env[a].snapshot()
                    ix = (R.t,) if env[a].ndim == 1 else (R.t, e_)
                    out.append((f'{a}: generic cell unchanged in scan', lambda st, a=a, ent=ent, ix=ix: st.env[a].term(*ix) == ent(*ix)))
        return out
    return tm


def g_parents_siblings(ctx):
    f = need(SUB, 'parents_siblings')

    def run():
        S = Rows()
        c = cur()
        S.ends = [S.L.t]
        c.assume(S.PS(S.R, S.L) >= 0)
        c.assume_rows = None
        EP, ES = Int('EP'), Int('ES')

        def post(adj, sib, ix):
            r = ix[0]
            p = S.P(r, S.L.t)
            S.PS(r, 0)
            return z3.And(adj.term(*ix) == S.pa.term(S.tok.term(r, p)),
                          z3.If(p == S.L.t - 1, sib.term(*ix) == ES.t, sib.term(*ix) == S.tok.term(r, p + 1)))
        # every row of a batch is an incomplete sequence
        S.extra.append(lambda r, i: [S.PS.f(r, S.L.t) >= 0])
        ip = Interp(ctx.session, loops={'parents_siblings': scan_template(S, S.R, None, post)})
        adj, sib = ip.call(f, S.tok, S.ar, S.pa, EP, ES)
        ok = post(adj, sib, (S.R.t,))
        c.prove('parents_siblings: parent and sibling are those of the tree', ok)
        c.prove('parents_siblings: one result per row', z3.And(lift(adj.shape[0]) == S.N.t, lift(sib.shape[0]) == S.N.t))
    ctx.run(run)
    ctx.assume_note('parents_siblings: rows are incomplete prefix sequences (open slots >= 1) over tokens of arity 0..2')


def g_at_once(ctx):
    f = need(SUB, 'jit_parents_siblings_at_once')

    def run():
        S = Rows()
        c = cur()
        B = Int('B')
        c.assume(z3.And(B.t >= 1, B.t < S.L.t))
        S.ends = [B.t]
        S.extra.append(lambda r, i: [z3.Implies(r == S.R.t, S.PS.f(r, B.t) >= 0)])
        c.assume(S.PS(S.R, B) >= 0)

        def post(adj, sib, ix):
            r = ix[0]
            p = S.P(r, B.t)
            S.PS(r, 0)
            return z3.And(adj.term(*ix) == S.pa.term(S.tok.term(r, p)),
                          z3.If(p == B.t - 1, sib.term(*ix) == S.T.t, sib.term(*ix) == S.tok.term(r, p + 1)))
        ip = Interp(ctx.session, loops={'jit_parents_siblings_at_once': scan_template(S, S.R, B, post)})
        adj, sib = ip.call(f, S.tok, S.ar, S.pa)
        c.prove('parents_siblings_at_once: parent and sibling at position B are those of the tree of the first B tokens', post(adj, sib, (S.R.t, B.t)))
    ctx.run(run)
    ctx.assume_note('parents_siblings_at_once: the first B tokens of the row are incomplete (arbitrary B)')


def member_candidates(S, name='member'):
    """ghost: IDX(v) = first index of v in a symbolic token set (or its length)."""
    n = Int('n_' + name)
    arr = SArr.symbolic('set_' + name, (n,), 'int', lambda i, t: z3.And(t >= 0, t < S.T.t))
    cur().assume(n.t >= 0)
    I = z3.IntSort()
    first = z3.Function('first_' + name, I, I)

    def isin(v):
        c = cur()
        f = first(v)
        c.assume_axiom(z3.And(f >= 0, f <= n.t, z3.Implies(f < n.t, arr.store.get(f) == v)))
        return f < n.t

    def at(v, k):
        """element k equals v => first(v) <= k"""
        cur().assume_axiom(z3.Implies(z3.And(k >= 0, k < n.t, arr.store.get(k) == v), first(v) <= k))
    arr.member_pred = isin
    return n, arr, isin, first, at


def g_ancestors(ctx):
    f = need(SUB, 'ancestors')

    def run():
        S = Rows()
        c = cur()
        n, A, isin, first, at = member_candidates(S, 'anc')
        I = z3.IntSort()
        W = z3.Function('W', I, I, I)       # outermost open ancestor-set token after i tokens, or -1
        J = Int('J')
        c.assume(z3.And(J.t >= 0, J.t < S.L.t))

        def wdef(r, i):
            out = []
            for d in (i, z3.simplify(i + 1)):
                pr = z3.simplify(d - 1)
                w = W(r, pr)
                t = S.tok.term(r, pr)
                out.append(z3.Implies(d == 0, W(r, d) == -1))
                out.append(z3.Implies(d >= 1, W(r, d) == z3.If(w >= 0, z3.If(S.PS.f(r, d) - S.PS.f(r, w) >= 0, w, z3.IntVal(-1)),
                                                               z3.If(isin(t), pr, z3.IntVal(-1)))))
                out.append(z3.Implies(isin(t), S.AR(r, pr) >= 1))     # ancestors are operators
            return out
        S.extra.append(wdef)
        Wf = lambda r, i: (S.PS(r, i), W(lift(r), lift(i)))[1]

        def tm(info):
            out = []
            env = info.frame.env
            stack = [lift(v) for _, v in info.interp.loop_stack if v is not None]
            R = S.R.t
            if not stack:
                for a in info.mod_arrays:
                    out.append((f'{a}: row not yet processed', lambda st, a=a: z3.Implies(st.k <= R, z3.Not(st.env[a].term(R)))))
                    out.append((f'{a}: row post', lambda st, a=a: z3.Implies(st.k > R, st.env[a].term(R) == (Wf(R, S.L.t) >= 0))))
            elif len(stack) == 1:
                r = stack[-1]
                for v in info.mod_ints:
                    out.append((f'{v}=PS(k)', lambda st, v=v: lift(st.env[v]) == S.PS(r, st.k)))
                for v in info.mod_opts:
                    out.append((f'{v} none iff no open ancestor', lambda st, v=v: isnone(st.env[v]) == (Wf(r, st.k) < 0)))
                    out.append((f'{v}=PS(W)-1', lambda st, v=v: z3.Implies(Wf(r, st.k) >= 0, z3.And(Wf(r, st.k) < st.k, opt(st.env[v]) == S.PS(r, W(r, st.k)) - 1))))
            else:
                r, cc = stack[-2], stack[-1]
                tt = S.tok.term(r, cc)
                for v in info.mod_opts:
                    out.append((f'{v} none in scan', lambda st, v=v: isnone(st.env[v])))
                out.append(('not found before k', lambda st: (isin(tt), at(tt, st.k), at(tt, st.k - 1), first(tt) >= st.k)[-1]))
            return out
        ip = Interp(ctx.session, loops={'ancestors': tm})
        mask = ip.call(f, S.tok, S.ar, A)
        c.prove('ancestors: flag iff an open ancestor-set token exists (W)', mask.term(S.R.t) == (Wf(S.R.t, S.L.t) >= 0))
    ctx.run(run)

    # W(c) >= 0  iff some position j < c holds a set token whose subtree is still open after c tokens
    def lemma(kind):
        def run():
            I = z3.IntSort()
            PS = z3.Function('ps', I, I)
            W = z3.Function('w', I, I)
            IN = z3.Function('in', I, z3.BoolSort())
            OP = z3.Function('open', I, I, z3.BoolSort())     # OP(j,i): subtree of token j open after i tokens (i > j)
            AR = z3.Function('arity', I, I)
            i, j = z3.Ints('i j')
            c = cur()
            step = [PS(i + 1) == PS(i) + AR(i) - 1, AR(i) >= 0, z3.Implies(IN(i), AR(i) >= 1), i >= 0,
                    W(i + 1) == z3.If(W(i) >= 0, z3.If(PS(i + 1) - PS(W(i)) >= 0, W(i), -1), z3.If(IN(i), i, -1))]
            opdef = lambda a, b: OP(a, b + 1) == z3.If(a == b, AR(b) >= 1, z3.And(OP(a, b), PS(b + 1) - PS(a) >= 0))
            for f_ in step:
                c.assume(f_, check=False)
            for a in (j, W(i), i):
                c.assume(z3.Implies(z3.And(a >= 0, a <= i), opdef(a, i)), check=False)
            if kind == 'base':
                c.prove('lemma W: base', z3.Implies(z3.And(W(0) == -1, i == 0), z3.And(z3.Not(W(0) >= 0))))
                return
            H = lambda k: z3.And(
                z3.Implies(W(k) >= 0, z3.And(W(k) < k, IN(W(k)), OP(W(k), k), PS(k) - PS(W(k)) >= 0)),
                z3.Implies(z3.And(0 <= j, j < k, IN(j), OP(j, k)), z3.And(W(k) >= 0, W(k) <= j)),
                z3.Implies(z3.And(0 <= j, j < k, OP(j, k), W(k) >= 0, W(k) <= j), PS(j) >= PS(W(k))),
                z3.Implies(z3.And(0 <= j, j < k, OP(j, k)), PS(k) >= PS(j)))
            c.assume(H(i), check=False)
            c.prove('lemma W: W(c)>=0 iff an open set token exists (step, generic j)', H(i + 1))
        return run
    ctx.run(lemma('base'))
    ctx.run(lemma('step'))
    ctx.assume_note('ancestors: the ancestor set contains operators only (RelationalConstraint.validate rejects terminal effectors)')


def isnone(v):
    if v is None:
        return z3.BoolVal(True)
    return v.isnone if isinstance(v, SOpt) else z3.BoolVal(False)


def opt(v):
    return z3.IntVal(0) if v is None else lift(v)


def g_next_obs(ctx):
    HT = need('kd.model.discover.task.task', 'HierarchicalTask')
    f_ps = need(SUB, 'parents_siblings')

    class T(HT):
        def reward_function(self, p): pass
        def evaluate(self, p): pass

    def run():
        S = Rows()
        c = cur()
        t = T.__new__(T)
        par = SArr.symbolic('par', (S.N,), 'int')
        sib = SArr.symbolic('sib', (S.N,), 'int')
        pri = SArr.symbolic('pri', (S.N, S.T), 'real')
        obs = SArr.symbolic('obs', (S.N, 4), 'real')
        o0 = obs.snapshot()
        seen = {}
        EP, ES = Int('EP'), Int('ES')

        class Lib:
            pass
        lib = Lib()
        lib.arities, lib.parent_adjust, lib.EMPTY_PARENT, lib.EMPTY_SIBLING = S.ar, S.pa, EP, ES
        t.library = lib

        def ps(ip, *args, **kw):
            a = dict(zip(['tokens', 'arities', 'parent_adjust', 'empty_parent', 'empty_sibling'], args))
            a.update(kw)
            seen['ps'] = a
            return par, sib

        def prior(actions, parent, sibling, dangling):
            seen['prior'] = (actions, parent, sibling, dangling.snapshot())
            return pri
        t.prior = prior
        ip = Interp(ctx.session, contracts={f_ps: ps})
        nxt, p = ip.call(HT.get_next_obs, t, S.tok, obs)
        r, L = S.R.t, S.L.t
        d = z3.ToReal(S.ar.term(S.tok.term(r, L - 1)) - 1) + o0(r, z3.IntVal(3))
        a = seen['ps']
        c.prove('get_next_obs: parents_siblings called with the library tables',
                z3.BoolVal(a['tokens'] is S.tok and a['arities'] is S.ar and a['parent_adjust'] is S.pa and a['empty_parent'] is EP and a['empty_sibling'] is ES))
        c.prove('get_next_obs: open slots grow by arity - 1', nxt.term(r, 3) == d)
        c.prove('get_next_obs: action, parent and sibling components', z3.And(
            nxt.term(r, 0) == z3.ToReal(S.tok.term(r, L - 1)), nxt.term(r, 1) == z3.ToReal(par.term(r)), nxt.term(r, 2) == z3.ToReal(sib.term(r))))
        c.prove('get_next_obs: the constraints see the same parent, sibling and open slots', z3.And(
            z3.BoolVal(seen['prior'][0] is S.tok and seen['prior'][1] is par and seen['prior'][2] is sib), num2(seen['prior'][3](r), d)[0] == d))
        c.prove('get_next_obs: the given observation is not modified', z3.And([obs.term(r, k) == o0(r, z3.IntVal(k)) for k in range(4)]))
    ctx.run(run)
    ctx.assume_note('get_next_obs: one object per expression (Program.n_objects == 1), the only setting the package uses')


def groups():
    return [('parents_siblings', g_parents_siblings), ('parents_siblings_at_once', g_at_once), ('ancestors', g_ancestors), ('get_next_obs', g_next_obs)]


# ------------------------------------------------------------------ run-time contracts (bounded)
LIBS = {'small': disc.SMALL, 'std': disc.STD,
        'bin': [('mul', 2, ''), ('u1', 0, 'u')], 'un': [('n2', 1, ''), ('sin', 1, ''), ('u1', 0, 'u'), ('x1', 0, 'x')]}


def case_prefix(p):
    S = need(SUB)
    lib = disc.make_library(LIBS[p['lib']])
    seqs = [tuple(s) for s in p['seqs']]
    ar = lib.arities
    tok = np.array(seqs, dtype=np.int32)
    keep = tok.copy()
    par, sib = need(SUB, 'parents_siblings')(tok, ar, lib.parent_adjust, lib.EMPTY_PARENT, lib.EMPTY_SIBLING)
    for k, s in enumerate(seqs):
        P, Sb, anc, o = disc.next_relations(s, ar)
        check(par[k] == lib.parent_adjust[P], lambda: f'parent of the slot after {s}: {par[k]} expected {lib.parent_adjust[P]}')
        check(sib[k] == (lib.EMPTY_SIBLING if Sb is None else Sb), lambda: f'sibling of the slot after {s}: {sib[k]} expected {Sb}')
    check((tok == keep).all(), 'tokens modified')
    nonterm = [t for t in range(lib.L) if ar[t] > 0]
    for setk in range(1, 2 ** min(len(nonterm), 4)):
        A = [t for n, t in enumerate(nonterm[:4]) if setk >> n & 1]
        m = need(SUB, 'ancestors')(tok, ar, np.array(A, dtype=np.int32))
        for k, s in enumerate(seqs):
            _, _, anc, _ = disc.next_relations(s, ar)
            check(bool(m[k]) == any(a in A for a in anc), lambda: f'ancestor flag of the slot after {s} for set {A}: {m[k]} (true ancestors {anc})')


def case_at_once(p):
    lib = disc.make_library(LIBS[p['lib']])
    seqs = [tuple(s) for s in p['seqs']]
    ar = lib.arities
    par, sib = need(SUB, 'jit_parents_siblings_at_once')(np.array(seqs, dtype=np.int32), ar, lib.parent_adjust)
    for k, s in enumerate(seqs):
        check(par[k, 0] == lib.EMPTY_PARENT and sib[k, 0] == lib.EMPTY_SIBLING, 'first position has no parent')
        for b in range(1, len(s)):
            P, Sb, _, _ = disc.next_relations(s[:b], ar)
            check(par[k, b] == lib.parent_adjust[P], lambda: f'at-once parent at {b} of {s}')
            check(sib[k, b] == (lib.EMPTY_SIBLING if Sb is None else Sb), lambda: f'at-once sibling at {b} of {s}')


def case_obs(p):
    HT = need('kd.model.discover.task.task', 'HierarchicalTask')
    lib = disc.make_library(LIBS[p['lib']])
    seqs = [tuple(s) for s in p['seqs']]

    class T(HT):
        def reward_function(self, p): pass
        def evaluate(self, p): pass
    t = T()
    t.library = lib
    got = []
    obs0 = t.reset_task(lambda a, b, c, d: got.append((a.copy(), b.copy(), c.copy(), np.array(d).copy())) or np.zeros((a.shape[0], lib.L)))
    check(list(obs0) == [lib.EMPTY_ACTION, lib.EMPTY_PARENT, lib.EMPTY_SIBLING, 1], f'initial observation {obs0}')
    obs = np.tile(obs0, (len(seqs), 1))
    tok = np.array(seqs, dtype=np.int32)
    for n in range(1, tok.shape[1] + 1):
        prev, keep = obs, obs.copy()
        obs, _ = t.get_next_obs(tok[:, :n].copy(), obs)
        check((prev == keep).all(), 'observation passed in was modified', key='obs-modified')
        for k, s in enumerate(seqs):
            P, Sb, _, o = disc.next_relations(s[:n], lib.arities)
            exp = [s[n - 1], lib.parent_adjust[P], lib.EMPTY_SIBLING if Sb is None else Sb, o]
            check(list(obs[k]) == exp, lambda: f'observation after {s[:n]}: {list(obs[k])} expected {exp}')
            check(got[-1][3][k] == o and got[-1][1][k] == exp[1] and got[-1][2][k] == exp[2], 'constraints see other values')


def cases(tier, rng):
    mx = {'small': 6, 'std': 3, 'bin': 9, 'un': 5} if tier == 'quick' else {'small': 7, 'std': 4, 'bin': 12, 'un': 8}
    for lib, m in mx.items():
        ar = [x[1] for x in LIBS[lib]]
        for n in range(1, m + 1):
            seqs = list(disc.incomplete_prefixes(ar, n))
            for k in range(0, len(seqs), 400):
                ch = seqs[k:k + 400]
                yield case_prefix, dict(lib=lib, seqs=ch), (lib, n, k)
                if n <= m - 1:
                    yield case_obs, dict(lib=lib, seqs=ch), (lib, n, k)
                    yield case_at_once, dict(lib=lib, seqs=ch), (lib, n, k)
    for it in range(40 if tier == 'quick' else 400):
        lib = rng.choice(list(LIBS))
        ar = [x[1] for x in LIBS[lib]]
        n = rng.randint(5, 45)
        ss = [s for s in (disc.random_prefix(rng, ar, n) for _ in range(8)) if s]
        if ss:
            yield case_prefix, dict(lib=lib, seqs=ss), (lib, tuple(ss))
            yield case_obs, dict(lib=lib, seqs=ss), (lib, tuple(ss))
            yield case_at_once, dict(lib=lib, seqs=ss), (lib, tuple(ss))
