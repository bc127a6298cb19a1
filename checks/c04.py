"""C04: sampling constraints forbid exactly the violating tokens."""
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr, coerce
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import disc
from .spec_tokens import Rows, TokSet

ID = 'C04'
LEVEL = 'proof'
RULE = ('every constraint evaluated on every reachable incomplete prefix up to a bounded length over small libraries (exhaustive) plus seeded random long ones; '
        'the oracle appends each token to an explicitly built tree; non-trivial when (constraint, prefix batch) is new')
PR = 'kd.model.discover.dso.prior'
SUB = 'kd.model.discover.dso.subroutines'


# ------------------------------------------------------------------ deductive part
class Env:
    """Arbitrary batch at an arbitrary step: generic row R, generic library token X; -inf is a symbolic negative constant M."""

    def __init__(self, names):
        c = cur()
        self.S = S = Rows()
        I = z3.IntSort()
        self.M = Real('MINF')
        c.assume(self.M.t < 0)
        self.X = z3.Int('X')
        c.assume(z3.And(self.X >= 0, self.X < S.T.t))
        self.PT = z3.Function('parent_token', I, I)
        INV = z3.Function('pa_inverse', I, I)
        # parent_adjust numbers the operators consecutively (injective), terminals get -1
        S.pa = SArr.symbolic('pa', (S.T,), 'int', lambda i, t: z3.And(t >= -1, t < S.T.t, (t >= 0) == (S.ar.store.get(i) >= 1), z3.Implies(t >= 0, INV(t) == i)))
        r = S.R.t
        self.P = self.PT(r)

        def par(q):
            c = cur()
            p = self.PT(q)
            c.assume_axiom(z3.And(p >= 0, p < S.T.t, S.ar.store.get(p) >= 1))
            return S.pa.store.get(p)
        self.parent = SArr.make((S.N,), 'int', par)
        self.sibling = SArr.symbolic('sib', (S.N,), 'int', lambda i, t: z3.And(t >= 0, t <= S.T.t))
        self.dang = SArr.symbolic('dang', (S.N,), 'int', lambda i, t: t >= 1)
        self.sib = self.sibling.term(r)
        self.d = self.dang.term(r)
        self.sets = {}
        for nm in names:
            op = nm in ('eff',)
            pred = {'una': lambda v: S.ar.store.get(v) == 1, 'bin': lambda v: S.ar.store.get(v) == 2, 'ter': lambda v: S.ar.store.get(v) == 0}.get(nm)
            self.sets[nm] = TokSet(S, nm, pred, op)
        c.inst = [ts.first(v) for ts in self.sets.values() for v in (self.P, self.X)]

        class Lib:
            pass
        lib = self.lib = Lib()
        lib.arities, lib.parent_adjust, lib.L = S.ar, S.pa, S.T
        for nm, at in (('una', 'unary_tokens'), ('bin', 'binary_tokens'), ('ter', 'terminal_tokens')):
            if nm in self.sets:
                setattr(lib, at, self.sets[nm].arr)

    def obj(self, cls, **kw):
        o = cls.__new__(cls)
        o.library, o.L, o.mask_val = self.lib, self.S.T, self.M
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def isin(self, v, nm):
        return self.sets[nm].isin(v)

    def mc(self, ip, self_, mask, tokens):
        """contract of make_constraint (proved in group make_constraint)"""
        from pyvc.arrays import member
        m, t = mask.snapshot(), member(tokens)
        return SArr.make((self.S.N, self.S.T), 'real', lambda r, x: z3.If(z3.And(m(r), t(x)), self.M.t, z3.RealVal(0)))

    def forbids(self, res):
        return res.term(self.S.R.t, self.X)

    def iff(self, c, name, res, cond):
        v = self.forbids(res)
        c.prove(name + ': forbidden exactly when it would violate', (v <= self.M.t) == cond)
        c.prove(name + ': all other tokens untouched', z3.Implies(z3.Not(cond), v == 0))


def g_make(ctx):
    Cn = need(PR, 'Constraint')

    def run():
        E = Env(['tok'])
        c = cur()
        S = E.S
        mask = SArr.symbolic('mask', (S.N,), 'bool')
        R, X = S.R.t, E.X
        ts = E.sets['tok']

        def tm(info):
            out = []
            for a in info.mod_arrays:
                def inv(st, a=a):
                    isin = ts.isin(X)
                    return st.env[a].term(R, X) == z3.If(z3.And(mask.term(R), isin, ts.first(X) < st.k), E.M.t, z3.RealVal(0))
                out.append((f'{a}: listed tokens so far', inv))
            return out
        ip = Interp(ctx.session, loops={'make_constraint': tm})
        res = ip.call(Cn.make_constraint, E.obj(Cn), mask, ts.arr)
        E.iff(c, 'make_constraint', res, z3.And(mask.term(R), E.isin(X, 'tok')))
        c.prove('make_constraint: one row per sample, one column per token', z3.And(lift(res.shape[0]) == S.N.t, lift(res.shape[1]) == S.T.t))
    ctx.run(run)


def g_rel(ctx, rel, cls='RelationalConstraint'):
    Cn, RC = need(PR, 'Constraint', cls)
    anc = need(SUB, 'ancestors')

    def run():
        E = Env(['tgt', 'eff', 'una'])
        c = cur()
        S = E.S
        ANC = z3.Function('has_ancestor_in', z3.IntSort(), z3.BoolSort())
        seen = {}

        def anc_c(ip, actions, arities, ancestor_tokens):
            seen['anc'] = actions is S.tok and arities is S.ar and ancestor_tokens is E.sets['eff'].arr
            return SArr.make((S.N,), 'bool', lambda r: ANC(r))
        IX = z3.Function('isect_index', z3.IntSort(), z3.IntSort())

        def isect(ip, a, b, **k):
            n = Int('n_isect')
            ta, tb = a.tokset, b.tokset
            c.assume_axiom(n.t >= 0)

            def inv(k, t):
                return z3.Implies(z3.And(k >= 0, k < n.t), z3.And(ta.isin(t), tb.isin(t), t >= 0, t < S.T.t))
            r = SArr.symbolic('isect', (n,), 'int', inv)
            # completeness of the intersection, instantiated at the parent token
            v = E.P
            c.assume_axiom(z3.Implies(z3.And(ta.isin(v), tb.isin(v)), z3.And(IX(v) >= 0, IX(v) < n.t, r.store.get(IX(v)) == v)))
            c.inst = list(c.inst) + [IX(v)]
            return r
        ip = Interp(ctx.session, contracts={anc: anc_c, Cn.make_constraint: E.mc, np.intersect1d: isect})
        o = E.obj(RC, targets=E.sets['tgt'].arr, effectors=E.sets['eff'].arr, relationship=rel)
        res = ip.call(RC.__call__, o, S.tok, E.parent, E.sibling, E.dang)
        R, X, P = S.R.t, E.X, E.P
        T_ = lambda v: E.isin(v, 'tgt')
        F_ = lambda v: E.isin(v, 'eff')
        s = E.sib
        cond = {
            'descendant': lambda: z3.And(ANC(R), T_(X)),
            'child': lambda: z3.And(F_(P), T_(X)),
            'sibling': lambda: z3.Or(z3.And(F_(s), T_(X)), z3.And(T_(s), F_(X))),
            'uchild': lambda: z3.And(T_(X), F_(P), z3.Or(S.ar.term(P) == 1, T_(s))),
            'lchild': lambda: z3.And(F_(P), s == S.T.t, T_(X)),
            'rchild': lambda: z3.And(F_(P), s < S.T.t, T_(X)),
        }[rel]()
        E.iff(c, f'{cls}[{rel}]', res, cond)
        if rel == 'descendant':
            c.prove(f'{cls}[{rel}]: ancestors are computed from the actions so far and the effectors', z3.BoolVal(bool(seen.get('anc'))))
    ctx.run(run)
    ctx.assume_note('relational constraints: effectors are operators for child/descendant/uchild/lchild/rchild (RelationalConstraint.validate)',
                    'parent_adjust numbers operators injectively and gives terminals -1 (Library.__init__)',
                    '-inf is represented by a symbolic negative constant M; a value <= M is -inf (sums of -inf stay <= M)')


def g_length(ctx):
    Cn, LC = need(PR, 'Constraint', 'LengthConstraint')
    Pr = need(PR, 'Prior')

    def run():
        E = Env(['una', 'bin', 'ter'])
        c = cur()
        S = E.S
        mx, mn = Int('max'), Int('min')
        has_max, has_min = c.choose(2), c.choose(2)
        if not (has_max or has_min):
            return c.prove('LengthConstraint: at least one bound (asserted by the constructor)', z3.BoolVal(True))
        n = S.L.t                                  # tokens already chosen
        c.assume(z3.And(mx.t >= 2, mn.t >= 1))
        d = E.d
        # reachable prefix: n binary tokens open at most n+1 slots; earlier steps respected the bound
        c.assume(d <= n + 1)
        if has_max:
            c.assume(d <= mx.t - n)
        o = E.obj(LC, min=mn if has_min else None, max=mx if has_max else None, n_objects=1)
        ip = Interp(ctx.session, contracts={Cn.make_constraint: E.mc})
        res = ip.call(LC.__call__, o, S.tok, E.parent, E.sibling, E.dang)
        a = S.ar.term(E.X)
        for nm in ('una', 'bin', 'ter'):
            E.isin(E.X, nm)
        # after choosing X: n+1 tokens, d+a-1 open slots, shortest completion has n+1+d+a-1 tokens; it ends now iff d+a-1 == 0
        cond = z3.Or(z3.And(z3.BoolVal(bool(has_max)), n + d + a > mx.t), z3.And(z3.BoolVal(bool(has_min)), d + a - 1 == 0, n + 1 < mn.t))
        E.iff(c, 'LengthConstraint', res, cond)
        if has_max:
            c.prove('LengthConstraint: some token is always allowed and keeps the bound reachable', z3.Implies(a == 0, z3.Implies(E.forbids(res) == 0, (d - 1) <= mx.t - (n + 1))))
    ctx.run(run)

    def run0():
        E = Env(['ter'])
        c = cur()
        ts, X = E.sets['ter'], E.X

        def tm(info):
            return [(f'{a}: listed so far', lambda st, a=a: (ts.isin(X), st.env[a].term(X) == z3.If(z3.And(ts.first(X) < ts.n.t, ts.first(X) < st.k), -INF, z3.RealVal(0)))[1]) for a in info.mod_arrays]
        ip = Interp(ctx.session, loops={'initial_prior': tm})
        res = ip.call(LC.initial_prior, E.obj(LC))
        c.assume(INF > 0)
        ts.isin(X)
        c.prove('LengthConstraint.initial_prior: exactly the terminals are forbidden as first token', z3.And(
            (res.term(X) == -INF) == (E.S.ar.term(X) == 0), z3.Or(res.term(X) == 0, res.term(X) == -INF)))
    ctx.run(run0)
    ctx.assume_note('LengthConstraint: one object per expression; tokens have arity 0, 1 or 2; max >= 2; the prefix was itself produced under the constraint')


def g_counts(ctx):
    Cn, RC, NI = need(PR, 'Constraint', 'RepeatConstraint', 'NoInputsConstraint')

    def mk(which):
        def run():
            E = Env(['tok', 'non'])
            c = cur()
            S = E.S
            CNT = z3.Function('count_so_far', z3.IntSort(), z3.IntSort())
            R = S.R.t

            def spec(x, axis):
                if axis not in (1, -1) or x.ndim != 2:
                    return None
                j = z3.Int('j!cnt')
                c.assume(z3.And(j >= 0, j < S.L.t), check=False)
                c.prove(f'{which}: occurrences of the listed tokens are counted over the tokens chosen so far', z3.And(
                    coerce(x.term(R, j), 'bool') == E.isin(S.tok.term(R, j), 'tok'), lift(x.shape[1]) == S.L.t))
                return SArr.make((S.N,), 'int', lambda r: CNT(r))
            c.assume(CNT(R) >= 0)
            ip = Interp(ctx.session, contracts={Cn.make_constraint: E.mc})
            c.sum_spec = spec
            if which == 'RepeatConstraint':
                mx = Int('max')
                o = E.obj(RC, tokens=E.sets['tok'].arr, min=None, max=mx, n_objects=1)
                c.assume(CNT(R) <= mx.t)
                res = ip.call(RC.__call__, o, S.tok, E.parent, E.sibling, E.dang)
                cond = z3.And(E.isin(E.X, 'tok'), CNT(R) + 1 > mx.t)
            else:
                E.lib.state_tokens, E.lib.non_state_tokens = E.sets['tok'].arr, E.sets['non'].arr
                o = E.obj(NI)
                res = ip.call(NI.__call__, o, S.tok, E.parent, E.sibling, E.dang)
                cond = z3.And(E.d == 1, CNT(R) == 0, E.isin(E.X, 'non'))
            E.iff(c, which, res, cond)
        return run
    ctx.run(mk('RepeatConstraint'))
    ctx.run(mk('NoInputsConstraint'))
    ctx.assume_note('np.sum(bool matrix, axis=1) counts the true entries of each row; non_state_tokens are the terminals that are not state variables (Library.__init__)')


def g_joint(ctx):
    JP = need(PR, 'JointPrior')
    IU = need(PR, 'InverseUnaryConstraint')
    Cn = need(PR, 'Constraint')

    def run():
        E = Env([])
        c = cur()
        S = E.S
        k = 1 + c.choose(4)
        seen = []

        def mk(i):
            v = SArr.symbolic(f'member{i}', (S.N, S.T), 'real', lambda r, x, t: z3.Or(t == E.M.t, z3.And(100 * t < -E.M.t, 100 * t > E.M.t)))

            def f(actions, parent, sibling, dangling):
                seen.append(actions is S.tok and parent is E.parent and sibling is E.sibling and dangling is E.dang)
                return v
            return f, v
        ms = [mk(i) for i in range(k)]
        which = c.choose(2)
        if which == 0:
            o = JP.__new__(JP)
            o.library, o.L, o.priors, o.do_count = E.lib, S.T, [m[0] for m in ms], False
            res = Interp(ctx.session).call(JP.__call__, o, S.tok, E.parent, E.sibling, E.dang)
            nm = 'JointPrior'
        else:
            o = IU.__new__(IU)
            o.library, o.L, o.priors = E.lib, S.T, [m[0] for m in ms]
            res = Interp(ctx.session).call(IU.__call__, o, S.tok, E.parent, E.sibling, E.dang)
            nm = 'InverseUnaryConstraint'
        vs = [m[1].term(S.R.t, E.X) for m in ms]
        c.prove(f'{nm}: every member is asked about the same partial expression', z3.BoolVal(len(seen) == k and all(seen)))
        c.prove(f'{nm}: forbidden exactly when some member forbids', (2 * E.forbids(res) < E.M.t) == z3.Or([v == E.M.t for v in vs]))
        c.prove(f'{nm}: logits of allowed tokens are the sum of the members', z3.Implies(z3.And([v != E.M.t for v in vs]), E.forbids(res) == z3.Sum(vs)))
    ctx.run(run)
    ctx.assume_note('JointPrior / InverseUnaryConstraint: 1..4 members (the loop over members is unrolled)')


def groups():
    gs = [('make_constraint', g_make)]
    for rel in ('descendant', 'child', 'sibling', 'uchild', 'lchild', 'rchild'):
        gs.append((f'rel_{rel}', lambda ctx, rel=rel: g_rel(ctx, rel)))
    gs.append(('diff_right', lambda ctx: g_rel(ctx, 'rchild', 'DiffConstraint_right')))
    return gs + [('length', g_length), ('counts', g_counts), ('joint', g_joint)]


# ------------------------------------------------------------------ run-time contracts (bounded)
LIBS = {
    'std': disc.STD,
    'inv': [('mul', 2, ''), ('exp', 1, ''), ('log', 1, ''), ('sqrt', 1, ''), ('n2', 1, ''), ('u1', 0, 'u'), ('x1', 0, 'x')],
    'pde': [('add', 2, ''), ('mul', 2, ''), ('diff', 2, ''), ('diff2', 2, ''), ('n2', 1, ''), ('u1', 0, 'u'), ('x1', 0, 'x'), ('const', 0, 'c')],
    'perm': [('x1', 0, 'x'), ('sin', 1, ''), ('u1', 0, 'u'), ('add', 2, ''), ('const', 0, 'c'), ('cos', 1, ''), ('mul', 2, '')],
}


def specs_for(lib):
    """[(name, constructor args, spec)] with spec = (kind, ...) for the oracle"""
    N = {n: i for i, n in enumerate(lib.names)}
    ops = [n for n in lib.names if lib.arities[N[n]] > 0]
    un = [n for n in ops if lib.arities[N[n]] == 1]
    bi = [n for n in ops if lib.arities[N[n]] == 2]
    te = [n for n in lib.names if lib.arities[N[n]] == 0]
    out = []
    for rel in ('descendant', 'child', 'uchild', 'lchild', 'rchild', 'sibling'):
        for tg, ef in (([un[0]], [bi[-1]]), (te[:1] + bi[:1], un + bi), (te[:2], bi), (un, un), ([te[-1]], [un[-1], bi[0]])):
            out.append(('RelationalConstraint', dict(targets=tg, effectors=ef, relationship=rel), ('rel', rel, [N[t] for t in tg], [N[t] for t in ef])))
    trig = [i for n, i in N.items() if n in ('sin', 'cos', 'tan') or 'diff' in n]
    out.append(('TrigConstraint', {}, ('rel', 'descendant', trig, trig)))
    if 'const' in N:
        out.append(('ConstConstraint', {}, ('rel', 'uchild', [N['const']], [N[o] for o in ops])))
    inv = {'inv': 'inv', 'neg': 'neg', 'exp': 'log', 'log': 'exp', 'sqrt': 'n2', 'n2': 'sqrt'}
    pairs = [(N[a], N[b]) for a, b in inv.items() if a in N and b in N]
    if pairs:
        out.append(('InverseUnaryConstraint', {}, ('pairs', pairs)))
    st = [i for i, t in enumerate(lib.tokens) if t.state_var is not None]
    out.append(('NoInputsConstraint', {}, ('noinput', st)))
    for toks, m in (([ops[0]], 1), (te[:2], 2), ([te[-1], un[0]], 3), ([te[0]], 0)):
        out.append(('RepeatConstraint', dict(tokens=toks, max_=m), ('repeat', [N[t] for t in toks], m)))
    for mn, mx in ((3, 6), (None, 4), (4, None), (2, 9), (5, 5), (None, 7), (1, 3), (4, 12), (None, 2), (None, 20)):
        out.append(('LengthConstraint', dict(min_=mn, max_=mx), ('length', mn, mx)))
    df = [i for n, i in N.items() if 'diff' in n]
    if df:
        leaves_l = ([N['const']] if 'const' in N else []) + [i for i, t in enumerate(lib.tokens) if t.input_var is not None]
        out.append(('DiffConstraint_left', {}, ('rel', 'lchild', leaves_l, df)))
        out.append(('DiffConstraint_left_strict', {}, ('rel', 'lchild', [i for n, i in N.items() if i not in df and i not in st], df)))
        inp = [i for i, t in enumerate(lib.tokens) if t.input_var is not None]
        out.append(('DiffConstraint_right', {}, ('rel', 'rchild', [i for i in range(lib.L) if i not in inp], df)))
        out.append(('DiffConstraint_des', {}, ('rel', 'descendant', [N[n] for n in ('add', 'sub', 'const') if n in N], df)))
        out.append(('DiffConstraint_des2', {}, ('rel', 'descendant', [N[n] for n in ("n2", "n3", "n4", "mul", "div", "exp", "log", "sin", "cos", "const") if n in N], df)))
    return out


def forbidden(spec, s, ar):
    """tokens forbidden as the next token of the non-empty incomplete prefix s, decided on the tree"""
    L = len(ar)
    P, Sb, anc, o = disc.next_relations(s, ar)
    n = len(s)
    k = spec[0]
    if k == 'rel':
        _, rel, tg, ef = spec
        if rel == 'descendant':
            return set(tg) if any(a in ef for a in anc) else set()
        if rel == 'child':
            return set(tg) if P in ef else set()
        if rel == 'lchild':
            return set(tg) if P in ef and Sb is None else set()
        if rel == 'rchild':
            return set(tg) if P in ef and Sb is not None else set()
        if rel == 'sibling':
            return (set(tg) if Sb in ef else set()) | (set(ef) if Sb in tg else set())
        if rel == 'uchild':
            return set(tg) if P in ef and (ar[P] == 1 or Sb in tg) else set()
    if k == 'pairs':
        return {t for t, e in spec[1] if P == e}
    if k == 'noinput':
        return {t for t in range(L) if ar[t] == 0 and t not in spec[1]} if o == 1 and not any(x in spec[1] for x in s) else set()
    if k == 'repeat':
        return {t for t in spec[1] if sum(x in spec[1] for x in s) + 1 > spec[2]}
    if k == 'length':
        mn, mx = spec[1:]
        bad = set()
        for t in range(L):
            oo = o + ar[t] - 1
            if mx is not None and n + 1 + oo > mx:
                bad.add(t)
            if mn is not None and oo == 0 and n + 1 < mn:
                bad.add(t)
        return bad
    raise KeyError(k)


def inputs_for(lib, seqs):
    par, sib, dang = [], [], []
    for s in seqs:
        P, Sb, anc, o = disc.next_relations(s, lib.arities)
        par.append(lib.parent_adjust[P])
        sib.append(lib.EMPTY_SIBLING if Sb is None else Sb)
        dang.append(o)
    return np.array(seqs, dtype=np.int32), np.array(par, dtype=np.int32), np.array(sib, dtype=np.int32), np.array(dang, dtype=np.int32)


def reachable(seqs, spec, ar):
    """prefixes that the constraint itself would allow to be sampled (matters for length/repeat bounds)"""
    if spec[0] not in ('length', 'repeat'):
        return seqs
    out = []
    for s in seqs:
        if spec[0] == 'length' and (ar[s[0]] == 0 or (spec[2] is not None and 1 + ar[s[0]] > spec[2])):
            continue
        if all(s[i] not in forbidden(spec, s[:i], ar) for i in range(1, len(s))) and not (spec[0] == 'repeat' and spec[2] == 0 and s[0] in spec[1]):
            out.append(s)
    return out


def build(lib, name, kw):
    cls = need(PR, name)
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    return cls(lib, **kw)


def case_constraint(p):
    lib = disc.make_library(LIBS[p['lib']])
    seqs = [tuple(s) for s in p['seqs']]
    for name, kw, spec in specs_for(lib):
        pr = build(lib, name, kw)
        ss = reachable(seqs, spec, lib.arities)
        if not ss:
            continue
        a, P, Sb, d = inputs_for(lib, ss)
        keep = [x.copy() for x in (a, P, Sb, d)]
        res = pr(a, P, Sb, d)
        check(all((x == y).all() for x, y in zip(keep, (a, P, Sb, d))), f'{name} modified its inputs', name + ':inputs')
        check(res.shape == (len(ss), lib.L), f'{name}: shape {res.shape}')
        for k, s in enumerate(ss):
            exp = forbidden(spec, s, lib.arities)
            got = {t for t in range(lib.L) if res[k, t] == -np.inf}
            check(got == exp, lambda: f'{name}{kw} after {[lib.names[t] for t in s]}: forbids {[lib.names[t] for t in sorted(got)]}, violating {[lib.names[t] for t in sorted(exp)]}', f'{name}:{kw.get("relationship", "")}')
            check(all(res[k, t] == 0 for t in range(lib.L) if t not in got), f'{name}{kw}: other tokens changed', name + ':other')


def case_initial(p):
    lib = disc.make_library(LIBS[p['lib']])
    for name, kw, spec in specs_for(lib):
        r = build(lib, name, kw).initial_prior()
        got = {t for t in range(lib.L) if r[t] == -np.inf}
        exp = {t for t in range(lib.L) if lib.arities[t] == 0} if name == 'LengthConstraint' else set()
        check(r.shape == (lib.L,) and got == exp and all(r[t] == 0 for t in range(lib.L) if t not in got), lambda: f'{name}: initially forbids {got}', name + ':initial')


def case_joint(p):
    import random, io, contextlib
    lib = disc.make_library(LIBS[p['lib']])
    rng = random.Random(p['seed'])
    pick = rng.sample(specs_for(lib), rng.randint(1, 6))
    seqs = [tuple(s) for s in p['seqs']]
    for _, _, sp in pick:
        seqs = reachable(seqs, sp, lib.arities)
    if not seqs:
        return
    JP, SL, UA = need(PR, 'JointPrior', 'SoftLengthPrior', 'UniformArityPrior')
    priors = [build(lib, n, kw) for n, kw, _ in pick]
    soft = []
    if p['seed'] % 2:
        soft = [SL(lib, loc=4, scale=5)] + ([UA(lib)] if p['seed'] % 3 else [])
    for cnt in (False, True):
        mem = priors + soft if p['seed'] % 4 < 2 else soft + priors
        j = JP(lib, list(mem), count_constraints=cnt)
        a, P, Sb, d = inputs_for(lib, seqs)
        res = j(a, P, Sb, d)
        base = sum((np.broadcast_to(x(a, P, Sb, d), (len(seqs), lib.L)) for x in soft), np.zeros((len(seqs), lib.L)))
        for k, s in enumerate(seqs):
            exp = set().union(*[forbidden(sp, s, lib.arities) for _, _, sp in pick])
            for t in range(lib.L):
                if t in exp:
                    check(res[k, t] == -np.inf, lambda: f'combined constraint allows {lib.names[t]} after {s} although a member forbids it', 'joint-allows')
                else:
                    check(np.isfinite(res[k, t]) and abs(res[k, t] - base[k, t]) < 1e-4 * (1 + abs(base[k, t])), lambda: f'combined constraint changes {lib.names[t]} after {s}', 'joint-extra')
        ini = j.initial_prior()
        exp0 = {t for t in range(lib.L) if lib.arities[t] == 0} if any(n == 'LengthConstraint' for n, _, _ in pick) else set()
        check({t for t in range(lib.L) if ini[t] == -np.inf} == exp0, 'combined initial constraint', 'joint-initial')


def case_make_prior(p):
    import copy, io, contextlib
    mp = need(PR, 'make_prior')
    lib = disc.make_library(LIBS[p['lib']])
    key = {'LengthConstraint': 'length', 'RepeatConstraint': 'repeat', 'RelationalConstraint': 'relational', 'TrigConstraint': 'trig', 'ConstConstraint': 'const',
           'NoInputsConstraint': 'no_inputs', 'InverseUnaryConstraint': 'inverse', 'DiffConstraint_left': 'diff_left', 'DiffConstraint_right': 'diff_right',
           'DiffConstraint_left_strict': 'diff_left_strict', 'DiffConstraint_des': 'diff_descedent', 'DiffConstraint_des2': 'diff_descedent2'}
    import random
    rng = random.Random(p['seed'])
    pick = rng.sample(specs_for(lib), 5)
    cfg, on = {}, []
    for n, kw, sp in pick:
        flag = rng.random() < 0.7
        cfg.setdefault(key[n], []).append(dict(kw, on=flag))
        if flag:
            on.append(sp)
    with contextlib.redirect_stdout(io.StringIO()):
        j = mp(lib, copy.deepcopy(cfg))
    seqs = [tuple(s) for s in p['seqs']]
    for sp in on:
        seqs = reachable(seqs, sp, lib.arities)
    valid = [sp for sp in on if not (sp[0] == 'rel' and (not sp[2] or not sp[3] or (sp[1] != 'sibling' and any(lib.arities[e] == 0 for e in sp[3]))))]
    if not seqs or not valid:
        return
    a, P, Sb, d = inputs_for(lib, seqs)
    res = np.broadcast_to(j(a, P, Sb, d), (len(seqs), lib.L))
    for k, s in enumerate(seqs):
        exp = set().union(*[forbidden(sp, s, lib.arities) for sp in valid])
        got = {t for t in range(lib.L) if res[k, t] == -np.inf}
        check(got == exp, lambda: f'configured constraints {cfg}: after {s} forbid {got}, expected {exp}', 'make_prior')


def cases(tier, rng):
    mx = {'std': 3, 'inv': 4, 'pde': 4, 'perm': 4} if tier == 'quick' else {'std': 4, 'inv': 5, 'pde': 5, 'perm': 5}
    for lib in LIBS:
        yield case_initial, dict(lib=lib), lib
        ar = [x[1] for x in LIBS[lib]]
        for n in range(1, mx[lib] + 1):
            seqs = list(disc.incomplete_prefixes(ar, n))
            if tier == 'quick' and len(seqs) > 800:
                seqs = rng.sample(seqs, 800)
            for k in range(0, len(seqs), 400):
                yield case_constraint, dict(lib=lib, seqs=seqs[k:k + 400]), (lib, n, k)
    for it in range(60 if tier == 'quick' else 600):
        lib = rng.choice(list(LIBS))
        ar = [x[1] for x in LIBS[lib]]
        n = rng.randint(2, 12)
        ss = [s for s in (disc.random_prefix(rng, ar, n) for _ in range(40)) if s]
        yield case_constraint, dict(lib=lib, seqs=ss), (lib, tuple(ss))
        yield case_joint, dict(lib=lib, seqs=ss, seed=it), (lib, it)
        yield case_make_prior, dict(lib=lib, seqs=ss, seed=it), (lib, it)
