"""C05: whole-expression constraint checks agree with what sampling would forbid."""
import warnings
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr, coerce
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import disc
from .spec_tokens import Rows, TokSet
from .c04 import LIBS, specs_for, build, forbidden

ID = 'C05'
LEVEL = 'proof'
RULE = ('every complete expression up to a bounded length over small libraries (exhaustive) plus seeded random long ones, for every constraint; '
        'the oracle replays the generation on explicit trees; non-trivial when (library, expression batch) is new')
PR = 'kd.model.discover.dso.prior'
SUB = 'kd.model.discover.dso.subroutines'


# ------------------------------------------------------------------ deductive part
def scan_tm(sets, extra):
    """a_in_b / a_not_in_b loops: not found so far; other loops: extra(info)"""
    def inner(info):
        out = []
        env = info.frame.env
        arr = next((v for v in env.values() if isinstance(v, SArr) and hasattr(v, 'tokset')), None)
        a = env.get('a')
        if arr is not None and a is not None:
            ts = arr.tokset
            out.append(('not found before k', lambda st: (ts.isin(a), ts.first(lift(a)) >= st.k)[1]))
        return out
    return {'a_in_b': inner, 'a_not_in_b': inner}


def g_simple(which):
    def g(ctx):
        f = need(SUB, which)

        def run():
            c = cur()
            one = Rows(N=1)
            S = one
            par = SArr.symbolic('par', (1, S.L), 'int')
            sib = SArr.symbolic('sib', (1, S.L), 'int')
            S.T_ = S.T

            class TS(TokSet):
                pass
            # sets over arbitrary integers (adjusted parents / siblings included)
            act, oth, oth2 = (free_set(S, n) for n in ('act', 'oth', 'oth2'))
            J = z3.Int('J')
            c.assume(z3.And(J >= 0, J < S.L.t))

            def viol(j):
                a, p, s = S.tok.term(0, j), par.term(0, j), sib.term(0, j)
                if which == 'jit_check_constraint_violation':
                    return z3.And(act.isin(a), oth.isin(p))
                return z3.And(act.isin(a), z3.Or(oth.isin(p), z3.And(act.isin(s), oth2.isin(p))))

            def outer(info):
                return [('no violation before k', lambda st: z3.Implies(J < st.k, z3.Not(viol(J))))]
            loops = scan_tm(None, None)
            loops[which] = outer
            ip = Interp(ctx.session, loops=loops)
            ks = []
            if which == 'jit_check_constraint_violation':
                res = ip.call(f, S.tok, act.arr, par, oth.arr)
            else:
                res = ip.call(f, S.tok, par, sib, act.arr, oth.arr, oth2.arr)
            rt = lift(res) if not isinstance(res, bool) else z3.BoolVal(res)
            c.prove(f'{which}: False only when no position violates', z3.Implies(z3.Not(rt), z3.Not(viol(J))))
            # True only with a violating witness: the position the scan stopped at
            wit = [z3.simplify(v) for v in ip_positions(ip)]
            c.prove(f'{which}: True only when some position violates', z3.Implies(rt, z3.Or([z3.And(w >= 0, w < S.L.t, viol(w)) for w in wit] or [z3.BoolVal(False)])))
        ctx.run(run)
    return g


def val(st, v):
    """value of a local that may not be assigned yet (then arbitrary)"""
    x = st.env.get(v)
    return lift(x) if x is not None and not isinstance(x, str) and is_num(x) else z3.Int(fresh_name('unassigned'))


def is_num(x):
    return isinstance(x, (int, np.integer)) or is_sym(x)


def free_set(S, name):
    return TokSetFree(S, name)


class TokSetFree(TokSet):
    """array of arbitrary integers"""

    def __init__(self, S, name):
        c = cur()
        self.S, self.n, self.pred = S, Int('n_' + name), None
        c.assume(self.n.t >= 0)
        I = z3.IntSort()
        self.first = z3.Function('first_' + name, I, I)
        self.arr = SArr.symbolic('set_' + name, (self.n,), 'int', lambda k, t: z3.Implies(z3.And(k >= 0, k < self.n.t), z3.And(self.first(t) >= 0, self.first(t) <= k)))
        self.arr.member_pred = self.isin
        self.arr.tokset = self


def ip_positions(ip):
    """integer loop indices live on this path (witness candidates)"""
    out = []
    for d in z3_consts(cur().pc):
        if str(d).startswith('k!') or str(d).startswith('k'):
            out.append(d)
    return out


def z3_consts(fs):
    seen, out, st = set(), [], list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
            out.append(t)
        st.extend(t.children())
    return out


def g_desc(which):
    """descendant scans: ghost W(i) = outermost open effector after i tokens (as in C03), violation at l iff W(l) >= 0 and tok[l] is a target."""
    def g(ctx):
        f = need(SUB, which)

        def run():
            c = cur()
            S = Rows(N=1)
            eff = TokSet(S, 'eff', None, True)
            tgt = eff if 'no_target' in which else TokSet(S, 'tgt')
            bi = TokSet(S, 'bin', lambda v: S.ar.store.get(v) == 2)
            un = TokSet(S, 'una', lambda v: S.ar.store.get(v) == 1)
            I = z3.IntSort()
            W = z3.Function('W', I, I, I)
            J = z3.Int('J')
            c.assume(z3.And(J >= 0, J < S.L.t))

            def wdef(r, i):
                out = []
                for d in (i, z3.simplify(i + 1)):
                    pr = z3.simplify(d - 1)
                    w, t = W(r, pr), S.tok.term(r, pr)
                    out.append(z3.Implies(d == 0, W(r, d) == -1))
                    out.append(z3.Implies(d >= 1, W(r, d) == z3.If(w >= 0, z3.If(S.PS.f(r, d) - S.PS.f(r, w) >= 0, w, z3.IntVal(-1)), z3.If(eff.isin(t), pr, z3.IntVal(-1)))))
                    out.append(z3.Implies(eff.isin(t), S.AR(r, pr) >= 1))
                return out
            S.extra.append(wdef)
            z = z3.IntVal(0)
            Wf = lambda i: (S.PS(z, i), W(z, lift(i)))[1]
            viol = lambda j: z3.And(Wf(j) >= 0, tgt.isin(S.tok.term(0, j)))

            def outer(info):
                out = [('no violation before k', lambda st: z3.Implies(J < st.k, z3.Not(viol(J)))),
                       ('outermost effector lies before k', lambda st: z3.Implies(Wf(st.k) >= 0, Wf(st.k) < st.k))]
                for v in info.mod_bools:
                    out.append((f'{v} iff an effector is open', lambda st, v=v: lift(st.env[v]) == (Wf(st.k) >= 0)))
                for v in info.mod_ints + info.mod_opts:
                    out.append((f'{v} = open slots of the outermost effector', lambda st, v=v: z3.Implies(Wf(st.k) >= 0, val(st, v) == S.PS(z, st.k) - S.PS(z, W(z, st.k)) + 1)))
                return out
            loops = scan_tm(None, None)
            loops[which] = outer
            ip = Interp(ctx.session, loops=loops)
            args = [S.tok] + ([tgt.arr] if tgt is not eff else []) + [eff.arr, bi.arr, un.arr]
            res = ip.call(f, *args)
            rt = lift(res) if not isinstance(res, bool) else z3.BoolVal(res)
            c.prove(f'{which}: False only when no token is a forbidden descendant', z3.Implies(z3.Not(rt), z3.Not(viol(J))))
            wit = ip_positions(ip)
            c.prove(f'{which}: True only when some token is a forbidden descendant', z3.Implies(rt, z3.Or([z3.And(w >= 0, w < S.L.t, viol(w)) for w in wit] or [z3.BoolVal(False)])))
        ctx.run(run)
        ctx.assume_note(f'{which}: effectors are operators, tokens have arity 0..2; W(i)>=0 iff an effector is an ancestor of slot i (lemma W of C03)')
    return g


def g_generic(ctx):
    """Constraint.is_violated: replays sampling step by step with the open-slot count of the expression so far."""
    Cn = need(PR, 'Constraint')

    def run():
        c = cur()
        S = Rows(N=1)
        par = SArr.symbolic('par', (1, S.L), 'int')
        sib = SArr.symbolic('sib', (1, S.L), 'int')
        I = z3.IntSort()
        F = z3.Function('forbidden_at', I, I, z3.BoolSort())     # F(t, x): the constraint forbids token x at step t
        F0 = z3.Function('forbidden_first', I, z3.BoolSort())
        J = z3.Int('J')
        c.assume(z3.And(J >= 0, J < S.L.t, INF > 0))
        z = z3.IntVal(0)
        viol = lambda j: z3.If(j == 0, F0(S.tok.term(0, 0)), F(j, S.tok.term(0, j)))
        MI = z3.RealVal(0)

        class C(Cn):
            def __init__(self): pass

            def initial_prior(self):
                return SArr.make((S.T,), 'real', lambda x: z3.If(F0(x), -INF, z3.RealVal(0)))

            def __call__(self, actions, parent, sibling, dangling):
                cc = cur()
                t = lift(actions.shape[1])
                q = z3.Int('q!')
                cc.assume(z3.And(q >= 0, q < t), check=False)
                cc.prove('Constraint.is_violated: a step sees exactly the tokens before it', z3.And(actions.term(0, q) == S.tok.term(0, q), lift(actions.shape[0]) == 1))
                cc.prove('Constraint.is_violated: a step sees the parent and sibling of its position', z3.And(parent.term(0) == par.term(0, t), sibling.term(0) == sib.term(0, t)))
                cc.prove('Constraint.is_violated: a step sees the open slots of its position', lift(dangling.term(0)) == S.PS(z, t) + 1)
                return SArr.make((1, S.T), 'real', lambda r, x: z3.If(F(t, x), -INF, z3.RealVal(0)))
        o = C()
        o.library = type('Lib', (), {})()
        o.library.arities, o.L, o.mask_val = S.ar, S.T, -np.inf

        def outer(info):
            out = [('no violation before k', lambda st: z3.Implies(J < st.k, z3.Not(viol(J)))),
                   ('no violation at first', lambda st: z3.Implies(st.k >= 1, z3.Not(viol(z))))]
            for a in info.mod_arrays:
                out.append((f'{a} = open slots before the previous token', lambda st, a=a: z3.Implies(st.k >= 1, st.env[a].term(0) == S.PS(z, z3.simplify(st.k - 1)) + 1)))
                out.append((f'{a} initially 1', lambda st, a=a: z3.Implies(st.k == 0, st.env[a].term(0) == 1)))
                out.append((f'{a} = open slots', lambda st, a=a: st.env[a].term(0) == S.PS(z, st.k) + 1))
            return out
        import inspect as _i

        class FI:
            filename, lineno = '', 0
        ip = Interp(ctx.session, loops={'is_violated': outer}, contracts={
            _i.getframeinfo: lambda ip, *a, **k: FI, _i.stack: lambda ip, *a, **k: [[None], [None]], warnings.warn: lambda ip, *a, **k: None})
        res = ip.call(Cn.is_violated, o, S.tok, par, sib)
        rt = lift(res) if not isinstance(res, bool) else z3.BoolVal(res)
        c.prove('Constraint.is_violated: False only when sampling would never have been blocked', z3.Implies(z3.Not(rt), z3.Not(viol(J))))
        wit = ip_positions(ip) + [z]
        c.prove('Constraint.is_violated: True only when some step would have been blocked', z3.Implies(rt, z3.Or([z3.And(w >= 0, w < S.L.t, viol(w)) for w in wit])))
        c.prove('Constraint.is_violated: the constraint itself is unchanged', z3.BoolVal(o.mask_val == -np.inf))
    ctx.run(run)


def g_dispatch(ctx):
    """RelationalConstraint.is_violated: every relationship is decided on the same targets/effectors that sampling uses."""
    RC = need(PR, 'RelationalConstraint')
    fs = {n: need(SUB, n) for n in ('jit_check_constraint_violation', 'jit_check_constraint_violation_uchild',
                                    'jit_check_constraint_violation_descendant_with_target_tokens')}

    for rel in ('descendant', 'child', 'sibling', 'uchild'):
        def run(rel=rel):
            c = cur()
            S = Rows(N=1)
            I = z3.IntSort()
            INV = z3.Function('pa_inverse', I, I)
            S.pa = SArr.symbolic('pa', (S.T,), 'int', lambda i, t: z3.And(t >= -1, t < S.T.t, (t >= 0) == (S.ar.store.get(i) >= 1), z3.Implies(t >= 0, INV(t) == i)))
            tgt, eff, un, bi = TokSet(S, 'tgt'), TokSet(S, 'eff', None, rel != 'sibling'), TokSet(S, 'una', lambda v: S.ar.store.get(v) == 1), TokSet(S, 'bin', lambda v: S.ar.store.get(v) == 2)
            J = z3.Int('J')
            c.assume(z3.And(J >= 0, J < S.L.t))
            PT = z3.Function('parent_token', I, I)

            def parf(r, j):
                p = PT(j)
                cur().assume_axiom(z3.And(p >= 0, p < S.T.t, S.ar.store.get(p) >= 1))
                return S.pa.store.get(p)
            par = SArr.make((1, S.L), 'int', parf)
            sib = SArr.symbolic('sib', (1, S.L), 'int', lambda i, j, t: z3.And(t >= 0, t <= S.T.t))
            c.inst = [eff.first(PT(J))]
            lib = type('Lib', (), {})()
            lib.parent_adjust, lib.unary_tokens, lib.binary_tokens, lib.L = S.pa, un.arr, bi.arr, S.T
            o = RC.__new__(RC)
            o.library, o.L, o.targets, o.effectors, o.relationship = lib, S.T, tgt.arr, eff.arr, rel
            ANY = z3.Function('any_pos', I, z3.BoolSort())
            calls = []
            from pyvc.arrays import member

            def h_simple(ip, actions, at, other, ot):
                i = len(calls)
                calls.append(('simple', actions, at, other, ot))
                b = c.choose(2)
                cond = z3.And(member(at)(actions.term(0, J)), member(ot)(other.term(0, J)))
                if b == 0:
                    c.assume(z3.Not(cond))          # contract: False => no position violates (generic J)
                    return False
                c.assume(cond)                       # contract: True => the witness position violates
                return True

            def h_uchild(ip, actions, parent, sibling, at, au, ae):
                a, p, s = actions.term(0, J), parent.term(0, J), sibling.term(0, J)
                cond = z3.And(member(at)(a), z3.Or(member(au)(p), z3.And(member(at)(s), member(ae)(p))))
                if c.choose(2) == 0:
                    c.assume(z3.Not(cond))
                    return False
                c.assume(cond)
                return True

            def h_desc(ip, actions, tt, ee, bb, uu):
                c.prove('descendant: scan is given the constraint sets and the library arities', z3.BoolVal(actions is S.tok and tt is tgt.arr and ee is eff.arr and bb is bi.arr and uu is un.arr))
                return bool(c.choose(2))
            IX = z3.Function('isect_index', I, I)

            def isect(ip, a, b, **k):
                n = Int('n_isect')
                ta, tb = a.tokset, b.tokset
                c.assume_axiom(n.t >= 0)
                r = SArr.symbolic('isect', (n,), 'int', lambda k, t: z3.Implies(z3.And(k >= 0, k < n.t), z3.And(ta.isin(t), tb.isin(t), t >= 0, t < S.T.t)))
                v = PT(J)
                c.assume_axiom(z3.Implies(z3.And(ta.isin(v), tb.isin(v)), z3.And(IX(v) >= 0, IX(v) < n.t, r.store.get(IX(v)) == v)))
                c.inst = list(c.inst) + [IX(v)]
                return r
            ip = Interp(ctx.session, contracts={fs['jit_check_constraint_violation']: h_simple, fs['jit_check_constraint_violation_uchild']: h_uchild,
                                                fs['jit_check_constraint_violation_descendant_with_target_tokens']: h_desc, np.intersect1d: isect})
            res = ip.call(RC.is_violated, o, S.tok, par, sib)
            if rel == 'descendant':
                return
            T_, F_ = tgt.isin, eff.isin
            X, P, s = S.tok.term(0, J), PT(J), sib.term(0, J)
            cond = {'child': lambda: z3.And(F_(P), T_(X)), 'sibling': lambda: z3.Or(z3.And(F_(s), T_(X)), z3.And(T_(s), F_(X))),
                    'uchild': lambda: z3.And(T_(X), F_(P), z3.Or(S.ar.term(P) == 1, T_(s)))}[rel]()
            rt = z3.BoolVal(bool(res)) if isinstance(res, (bool, np.bool_)) else lift(res)
            c.prove(f'is_violated[{rel}]: reported exactly when position J (generic / witness) is one that sampling forbids', rt == cond)
        ctx.run(run)


def g_sides(ctx):
    RC = need(PR, 'RelationalConstraint')
    RepC, NI = need(PR, 'RepeatConstraint', 'NoInputsConstraint')
    for rel in ('lchild', 'rchild'):
        def run(rel=rel):
            c = cur()
            S = Rows(N=1)
            I = z3.IntSort()
            INV = z3.Function('pa_inverse', I, I)
            S.pa = SArr.symbolic('pa', (S.T,), 'int', lambda i, t: z3.And(t >= -1, t < S.T.t, (t >= 0) == (S.ar.store.get(i) >= 1), z3.Implies(t >= 0, INV(t) == i)))
            tgt, eff = TokSet(S, 'tgt'), TokSet(S, 'eff', None, True)
            J = z3.Int('J')
            c.assume(z3.And(J >= 0, J < S.L.t))
            PT = z3.Function('parent_token', I, I)

            def parf(r, j):
                p = PT(j)
                cur().assume_axiom(z3.And(p >= 0, p < S.T.t, S.ar.store.get(p) >= 1))
                return S.pa.store.get(p)
            par = SArr.make((1, S.L), 'int', parf)
            sib = SArr.symbolic('sib', (1, S.L), 'int', lambda i, j, t: z3.And(t >= 0, t <= S.T.t))
            lib = type('Lib', (), {})()
            lib.parent_adjust, lib.L = S.pa, S.T
            o = RC.__new__(RC)
            o.library, o.L, o.targets, o.effectors, o.relationship = lib, S.T, tgt.arr, eff.arr, rel
            from pyvc import arrays
            wits = []

            def any_c(ip, a, *k, **kw):
                f = a.snapshot()
                w = z3.Int('w!any')
                if c.choose(2) == 0:
                    c.inst = [eff.first(PT(J))]
                    c.assume(z3.Not(f(z3.IntVal(0), J)))
                    return False
                c.assume(z3.And(w >= 0, w < S.L.t))
                c.inst = [eff.first(PT(w))]
                c.assume(f(z3.IntVal(0), w))
                wits.append(w)
                return True
            c.inst = [eff.first(PT(J)), eff.first(PT(z3.Int('w!any')))]
            ip = Interp(ctx.session, contracts={np.any: any_c})
            res = ip.call(RC.is_violated, o, S.tok, par, sib)

            def cond(j):
                s = sib.term(0, j)
                return z3.And(eff.isin(PT(j)), tgt.isin(S.tok.term(0, j)), (s == S.T.t) if rel == 'lchild' else (s < S.T.t))
            rt = z3.BoolVal(bool(res)) if isinstance(res, (bool, np.bool_)) else lift(res)
            c.prove(f'is_violated[{rel}]: False only when no position is one that sampling forbids', z3.Implies(z3.Not(rt), z3.Not(cond(J))))
            c.prove(f'is_violated[{rel}]: True only when a position is one that sampling forbids', z3.Implies(rt, z3.Or([cond(w) for w in wits] or [z3.BoolVal(False)])))
        ctx.run(run)

    def run_rep():
        c = cur()
        S = Rows(N=1)
        tk = TokSet(S, 'tok')
        CNT = Int('count')
        c.assume(z3.And(CNT.t >= 0))

        def spec(x, axis):
            j = z3.Int('j!cnt')
            c.assume(z3.And(j >= 0, j < S.L.t), check=False)
            ok = x.term(0, j) if x.ndim == 2 else x.term(j)
            c.prove('RepeatConstraint.is_violated: occurrences counted over the whole expression', z3.And(coerce(ok, 'bool') == tk.isin(S.tok.term(0, j))))
            return CNT
        mx = Int('max')
        o = RepC.__new__(RepC)
        o.tokens, o.min, o.max, o.n_objects = tk.arr, None, mx, 1
        ip = Interp(ctx.session)
        c.sum_spec = spec
        res = ip.call(RepC.is_violated, o, S.tok, None, None)
        c.prove('RepeatConstraint.is_violated: reported exactly when more than max occurrences', lift(res) == (CNT.t > mx.t))
    ctx.run(run_rep)


def groups():
    gs = [(n, g_simple(n)) for n in ('jit_check_constraint_violation', 'jit_check_constraint_violation_uchild')]
    gs += [(n, g_desc(n)) for n in ('jit_check_constraint_violation_descendant_no_target_tokens', 'jit_check_constraint_violation_descendant_with_target_tokens')]
    return gs + [('generic', g_generic), ('dispatch', g_dispatch), ('sides', g_sides)]


# ------------------------------------------------------------------ run-time contracts (bounded)
def at_once(lib, s):
    par, sib = [lib.EMPTY_PARENT], [lib.EMPTY_SIBLING]
    for b in range(1, len(s)):
        P, Sb, _, _ = disc.next_relations(s[:b], lib.arities)
        par.append(lib.parent_adjust[P])
        sib.append(lib.EMPTY_SIBLING if Sb is None else Sb)
    return np.array([s], dtype=np.int32), np.array([par], dtype=np.int32), np.array([sib], dtype=np.int32)


def case_expr(p):
    lib = disc.make_library(LIBS[p['lib']])
    JP = need(PR, 'JointPrior')
    RC = need(PR, 'Constraint')
    ar = lib.arities
    objs = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for name, kw, spec in specs_for(lib):
            if spec[0] == 'length':
                continue
            pr = build(lib, name, kw)
            objs.append((name, kw, spec, pr))
        pos = need(SUB, 'jit_parents_siblings_at_once')
        for s in [tuple(x) for x in p['seqs']]:
            a, P, Sb = at_once(lib, s)
            p2, s2 = pos(a, ar, lib.parent_adjust)
            truth = {}
            for name, kw, spec, pr in objs:
                steps = [i for i in range(1, len(s)) if s[i] in forbidden(spec, s[:i], ar)]
                exp = bool(steps) or (spec[0] == 'repeat' and spec[2] == 0 and s[0] in spec[1]) or (spec[0] == 'noinput' and not any(x in spec[1] for x in s))
                truth[id(pr)] = exp
                got = bool(pr.is_violated(a, P, Sb))
                check(got == exp, lambda: f'{name}{kw} on {[lib.names[t] for t in s]}: is_violated={got}, sampling blocks steps {steps}', f'{name}:{kw.get("relationship", "")}')
                check(bool(pr.is_violated(a, p2, s2)) == exp, lambda: f'{name}{kw} with whole-sequence bookkeeping', f'{name}:at-once')
                if p['generic'] and spec[0] not in ('noinput', 'repeat'):
                    g = bool(pr.test_is_violated(a, P, Sb))
                    check(g == exp, lambda: f'{name}{kw} on {[lib.names[t] for t in s]}: generic check {g}, sampling blocks steps {steps}', f'{name}:generic')
                    check(pr.mask_val == -np.inf, 'generic check changed the constraint', 'generic:mask')
            sub = [o for k, o in enumerate(objs) if (k + p['seed']) % 5 == 0]
            j = JP(lib, [o[3] for o in sub])
            check(bool(j.is_violated(a, P, Sb)) == any(truth[id(o[3])] for o in sub), lambda: f'combined check on {s}', 'joint')


def case_length(p):
    LC = need(PR, 'LengthConstraint')
    lib = disc.make_library(LIBS[p['lib']])
    for s in [tuple(x) for x in p['seqs']]:
        a, P, Sb = at_once(lib, s)
        for mn, mx in ((3, 6), (None, 4), (4, None), (5, 5)):
            got = LC(lib, min_=mn, max_=mx).is_violated(a, P, Sb)
            check(bool(got) == ((mn is not None and len(s) < mn) or (mx is not None and len(s) > mx)), f'LengthConstraint({mn},{mx}) on length {len(s)}')


def cases(tier, rng):
    mx = {'std': 4, 'inv': 4, 'pde': 4, 'perm': 4} if tier == 'quick' else {'std': 5, 'inv': 6, 'pde': 5, 'perm': 5}
    cap = 250 if tier == 'quick' else 3000
    for lib in LIBS:
        ar = [x[1] for x in LIBS[lib]]
        for n in range(2, mx[lib] + 1):
            ss = list(disc.complete_exprs(ar, n))
            if len(ss) > cap:
                ss = rng.sample(ss, cap)
            for k in range(0, len(ss), 50):
                yield case_expr, dict(lib=lib, seqs=ss[k:k + 50], seed=k // 50, generic=k % 100 == 0), (lib, n, k)
            yield case_length, dict(lib=lib, seqs=ss[:60]), (lib, n)
    for it in range(60 if tier == 'quick' else 500):
        lib = rng.choice(list(LIBS))
        ar = [x[1] for x in LIBS[lib]]
        ss = [s for s in (disc.random_expr(rng, ar, rng.randint(5, 18), 0.25) for _ in range(25)) if len(s) > 1]
        if ss:
            yield case_expr, dict(lib=lib, seqs=ss, seed=it, generic=it % 4 == 0), (lib, tuple(ss))
