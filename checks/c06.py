"""C06: evaluating a prefix expression equals recursive tree evaluation."""
import math
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from . import disc
from .spec_tree import *

ID = 'C06'
LEVEL = 'proof'
RULE = 'every expression up to a bounded size over small operator sets and seeded random larger ones, on random fields, evaluated by the token-list evaluator, the term-tree evaluator and an independent recursive evaluator; a case is non-trivial when its expression is new'
EX = 'kd.model.discover.execute'
DIFFS = ('diff', 'diff3', 'Diff', 'Diff2_3')
LAPS = ('lap', 'lap_3', 'lap_t')
PLAIN = ('mul', 'sin', 'n2')


class U_:
    """field container: u[state] is the value of a state-field leaf"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        if isinstance(i, tuple):
            raise Unsupported('field index')
        return V(self.f(lift(i)))


class UCols:
    """torch field matrix: column s:s+1 is the value of state field s"""

    def __init__(self, S):
        self.S = S

    def __getitem__(self, i):
        if not (isinstance(i, tuple) and len(i) == 2 and isinstance(i[1], slice) and isinstance(i[0], slice) and i[0] == slice(None) and i[1].step is None):
            raise Unsupported('field index')
        a, b = lift(i[1].start), lift(i[1].stop)
        cur().prove(f'{self.S.fn}: a state field is one column', b == a + 1)
        return V(self.S.UV(a))


class Tok:
    def __init__(self, S, p):
        self.S, self.p = S, S.pos(p)
        self._name = None
        c = cur()
        p = self.p
        c.assume_axiom(z3.Implies(S.KIND(p) == 0, S.VAL(p) == S.XV(S.IN(p))))
        c.assume_axiom(z3.Implies(S.KIND(p) == 1, S.VAL(p) == S.UV(S.ST(p))))
        if getattr(S, 'single', False):
            c.assume_axiom(S.ST(p) == 0)         # a bare array holds the only state field
        self.arity = wrap(S.AR(p))
        self.input_var = SOpt(S.KIND(p) != 0, S.IN(p))
        self.state_var = SOpt(S.KIND(p) != 1, S.ST(p))
        self.param_var = SOpt(S.KIND(p) != 2, S.PA(p))
        self.function = object()

    @property
    def _param_data_ref(self):
        cur().prove(f'{self.S.fn}: parameter data is read for parameter tokens only', self.S.KIND(self.p) == 2)
        return V(self.S.VAL(self.p))

    @property
    def name(self):
        if self._name is None:
            c, S = cur(), self.S
            if c.decide(S.KIND(self.p) == 4):
                self._name = DIFFS[c.choose(len(DIFFS))]
            elif c.decide(S.KIND(self.p) == 5):
                self._name = LAPS[c.choose(len(LAPS))]
            else:
                self._name = PLAIN[c.choose(len(PLAIN))]
        return self._name

    def __call__(self, *args):
        c, S, p = cur(), self.S, self.p
        nm = self.name
        k = 2 if nm in DIFFS else 1 if nm in LAPS else None
        n = len(args)
        if nm in DIFFS:
            extra = args[2:]
            if S.torch:
                c.prove(f'{S.fn}: a derivative gets its two arguments', z3.BoolVal(n == 2))
            else:
                c.prove(f'{S.fn}: a derivative gets its two arguments and the coordinate axis', z3.BoolVal(n == 3))
                if n == 3:
                    d = lift(extra[0]) if not isinstance(extra[0], V) else None
                    c.prove(f'{S.fn}: derivative axis is the coordinate given as second argument', z3.BoolVal(False) if d is None else z3.And(z3.Not(getattr(extra[0], 'isnone', z3.BoolVal(False))), d == S.IN(S.CH(p, 1)) + 1))
            args = args[:2]
        elif nm in LAPS:
            c.prove(f'{S.fn}: a Laplacian gets its argument and the coordinates', z3.BoolVal(n == 2 and args[1] is S.x))
            args = args[:1]
        c.prove(f'{S.fn}: operator applied to as many values as its arity', S.AR(p) == len(args))
        for j, a in enumerate(args):
            c.prove(f'{S.fn}: argument {j + 1} is the value of the {j + 1}. subexpression', a.t == S.VAL(S.CH(p, j)) if isinstance(a, V) else z3.BoolVal(False))
        return V(S.VAL(p))


def exec_group(fname, torch):
    def g(ctx):
        f = need(EX, fname)
        mod = need(EX)

        def run():
            c = cur()
            S = Tree()
            S.fn, S.torch = fname, torch
            S.XV, S.UV = z3.Function('XV', I, ValS), z3.Function('UV', I, ValS)
            S.x = U_(lambda i: S.XV(i))
            if torch:
                u = [UCols(S)] if c.choose(2) else V(S.UV(0))
                S.single = not isinstance(u, list)
            else:
                u = U_(lambda i: S.UV(i))
            trav = SSeq(S.n, lambda k: Tok(S, k))

            def frame(p, fn):
                return [Tok(S, p)] + [V(S.VAL(S.CH(p, j))) for j in range(fn)]

            def mk(complete_ok):
                def make(link):
                    # an arbitrary frame (p, f) whose next argument starts at link
                    cc = cur()
                    p = z3.Int(fresh_name('p'))
                    cc.assume(z3.And(p >= 0, p < link), check=False)
                    S.pos(p)
                    nf = cc.choose(2 if not complete_ok else 3)
                    cc.assume(z3.And(nf < S.AR(p) if not complete_ok else nf <= S.AR(p), S.CH(p, nf) == link))
                    return frame(p, nf), p
                return make

            def arbitrary(pos, in_while):
                """a stack satisfying the invariant; pos is where the next token is read"""
                base = z3.Int(fresh_name('depth'))
                cc = cur()
                if in_while:
                    cc.assume(base >= 0)
                    first = mk(True)
                    fr, p = first(pos)
                    s = SymStack(base, p, mk(False), None)
                    cc.assume(z3.Implies(base == 0, p == 0), check=False)
                    cc.assume(z3.Implies(base > 0, p > 0), check=False)
                    s.frames = [fr]
                    return s
                cc.assume(z3.And(base >= 0, (base == 0) == (pos == 0)))
                s = SymStack(base, pos, mk(False), None)
                if cc.decide(base >= 1):
                    s.materialise()
                return s

            def valid(s, pos, in_while, nm):
                cc = cur()
                if isinstance(s, list):
                    fs, link, base = s, z3.IntVal(0), z3.IntVal(0)
                else:
                    fs, link, base = s.frames, s.link, s.base
                cond = []
                at = link
                for m, fr in enumerate(fs):
                    if not fr or not isinstance(fr[0], Tok):
                        cond.append(z3.BoolVal(False))
                        break
                    p = fr[0].p
                    last = m == len(fs) - 1
                    cond.append(p == at)
                    for j, a in enumerate(fr[1:]):
                        cond.append(a.t == S.VAL(S.CH(p, j)) if isinstance(a, V) and j < 2 else z3.BoolVal(False))
                    nf = len(fr) - 1
                    cond.append(nf <= S.AR(p) if (last and in_while) else nf < S.AR(p))
                    at = S.CH(p, min(nf, 2))
                cond.append(at == pos)
                if in_while and not fs:
                    # the stack below is unchanged and non-empty; its top has a pending argument
                    cond.append(base >= 1)
                if not in_while:
                    cond.append((base + len(fs) == 0) == (pos == 0))
                cc.prove(f'{fname}: stack invariant ({nm})', z3.And(cond))

            # ---- outer loop over the tokens
            class Outer(LoopContract):
                modifies = ('apply_stack', 'frames')

                def havoc(self, info, k):
                    info.env['apply_stack'] = arbitrary(k, False)
                    info.env['dim_flag'] = SOpt(fresh_bool('nodim').t, z3.Int(fresh_name('dim')))

                def check(self, info, k, when):
                    valid(info.env.get('apply_stack'), k, False, 'next token, ' + when)

            # ---- inner loop: complete subexpressions are reduced
            class Inner(LoopContract):
                modifies = ('apply_stack', 'frames')

                def havoc(self, info, k):
                    kt = self.tokpos(info)
                    s = arbitrary(z3.simplify(kt + 1), True)
                    info.env['apply_stack'] = s
                    d = SOpt(fresh_bool('nodim').t, z3.Int(fresh_name('dim')))
                    p = s.frames[-1][0].p
                    cur().assume(z3.Implies(z3.And(p != kt, S.KIND(kt) == 0), z3.And(z3.Not(d.isnone), d.t == S.IN(kt) + 1)), check=False)
                    cur().assume(z3.Implies(S.KIND(kt) == 0, z3.And(S.IN(kt) >= 0)), check=False)
                    info.env['dim_flag'] = d

                def tokpos(self, info):
                    return self.node(info).p

                def node(self, info):
                    for v in info.env.values():
                        if isinstance(v, Tok) and any(v is x[1] for x in info.interp.loop_stack):
                            return v
                    raise Unsupported('loop variable')

                def check(self, info, k, when):
                    kt = self.tokpos(info)
                    s = info.env.get('apply_stack')
                    valid(s, z3.simplify(kt + 1), True, 'reduction, ' + when)
                    d = info.env.get('dim_flag')
                    if torch:
                        return
                    top = s.frames[-1] if not isinstance(s, list) and s.frames else (s[-1] if isinstance(s, list) and s else None)
                    p = top[0].p if top else s.link - 1
                    has = z3.BoolVal(False) if d is None else z3.And(z3.Not(getattr(d, 'isnone', z3.BoolVal(False))), lift(d) == S.IN(kt) + 1)
                    ran = z3.BoolVal(True) if when == 'consecution' else p != kt
                    cur().prove(f'{fname}: axis flag follows the coordinate just read ({when})', z3.Implies(z3.And(ran, S.KIND(kt) == 0), has))
            ip = Interp(ctx.session, loops={fname: {0: Outer(), 1: Inner()}})
            if torch:
                class Flag:
                    def all(self):
                        return fresh_bool('allbad')
                t = need(EX, 'torch')
                ip.contracts[t.isnan] = lambda ip, v: Flag()
                ip.contracts[t.isinf] = lambda ip, v: Flag()
            res = ip.call(f, trav, u, S.x)
            if torch and res is None:
                c.prove(f'{fname}: a result is withheld only for invalid values', z3.BoolVal(True))
                return
            c.prove(f'{fname}: the result is the value of the whole expression', res.t == S.VAL(z3.IntVal(0)) if isinstance(res, V) else z3.BoolVal(False))
        ctx.run(run)
        ctx.assume_note('second argument of a derivative token is an input-variable leaf (enforced by the sampling constraints, C04)',
                        'traversal is one complete prefix expression of operators with at most two arguments (C01)')
    return g


def groups():
    return [('python_execute', exec_group('python_execute', False)), ('python_execute_torch', exec_group('python_execute_torch', True))]


# ------------------------------------------------------------------ run-time contracts (bounded)
REF = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
    'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log, 'sqrt': np.sqrt, 'n2': lambda a: a * a, 'n3': lambda a: a * a * a,
    'n4': lambda a: a * a * a * a, 'n5': lambda a: a * a * a * a * a, 'neg': lambda a: -a, 'abs': np.abs, 'tanh': np.tanh, 'inv': lambda a: 1. / a,
    'logabs': lambda a: np.log(np.abs(a)), 'expneg': lambda a: np.exp(-a), 'sigmoid': lambda a: 1. / (1. + np.exp(-a)),
}
NUM_OPS = {'1': ['add', 'sub', 'mul', 'div', 'n2', 'n3', 'diff', 'diff2', 'diff3', 'diff4'],
           '1b': ['add', 'mul', 'sin', 'cos', 'exp', 'log', 'sqrt', 'neg', 'abs', 'tanh', 'inv', 'logabs', 'expneg', 'n4', 'n5', 'sigmoid', 'tan'],
           '2': ['add', 'sub', 'mul', 'div', 'n2', 'Diff', 'Diff2', 'lap'], '3': ['add', 'sub', 'mul', 'n3', 'Diff_3', 'Diff2_3', 'lap_3'],
           'small': ['add', 'mul', 'diff', 'n2'], 'sub': ['sub', 'diff', 'div']}


def fd(f, h, axis, order, periodic):
    """independent reference of the documented finite differences"""
    f = np.moveaxis(f, axis, 0)
    o = np.zeros(f.shape)
    for i in range(f.shape[0]):
        n = f.shape[0]
        if periodic or 0 < i < n - 1:
            a, b = f[(i + 1) % n], f[(i - 1) % n]
            o[i] = (a - b) / (2 * h) if order == 1 else (a - 2 * f[i] + b) / h ** 2
        else:
            g = f if i == 0 else f[::-1]
            s = 1 if i == 0 else -1
            o[i] = s * (-1.5 * g[0] + 2 * g[1] - .5 * g[2]) / h if order == 1 else (2 * g[0] - 5 * g[1] + 4 * g[2] - g[3]) / h ** 2
    return np.moveaxis(o, 0, axis)


def ref_diff(name, a, dim, x, ndim):
    h = (np.ravel(x[dim])[2] - np.ravel(x[dim])[1])
    if name.startswith('diff'):
        ax, per = 0, False
        orders = {'diff': (1,), 'diff2': (2,), 'diff3': (2, 1), 'diff4': (2, 2)}[name]
    else:
        ax, per = dim + 1, name in ('Diff', 'Diff2')
        orders = (2,) if name.startswith('Diff2') else (1,)
    for o in orders:
        a = fd(a, h, ax, o, per)
    return a


def tree(names, ar):
    it = iter(range(len(names)))

    def rec():
        i = next(it)
        return (i, [rec() for _ in range(ar[i])])
    return rec()


def ref_eval(t, toks, u, x, ndim):
    i, kids = t
    k = toks[i]
    if k.input_var is not None:
        return x[k.input_var]
    if k.state_var is not None:
        return u[k.state_var]
    if k.param_var is not None:
        return k._param_data_ref
    if k.name.lower().startswith('diff'):
        assert not kids[1][1] and toks[kids[1][0]].input_var is not None
        return ref_diff(k.name, ref_eval(kids[0], toks, u, x, ndim), toks[kids[1][0]].input_var, x, ndim)
    if k.name.startswith('lap'):
        a = ref_eval(kids[0], toks, u, x, ndim)
        return sum(ref_diff('Diff2' if k.name == 'lap' else 'Diff2_3', a, d, x, ndim) for d in range(ndim))
    if k.name in REF:
        return REF[k.name](*[ref_eval(q, toks, u, x, ndim) for q in kids])
    return np.asarray(k.value)               # hard-coded constant


def setting(p):
    """tokens, fields and coordinates of a synthetic problem"""
    ct = need('kd.model.discover.functions', 'create_tokens')
    ndim = p['ndim']
    rg = np.random.RandomState(p.get('seed', 0))
    toks = ct(n_input_var=ndim, function_set=list(NUM_OPS[p['ops']]) + (['2.5'] if p.get('hard') else []), protected=False, n_state_var=p.get('nu', 1), task_type='pde', n_param_var=p.get('np', 0))
    shape = {1: (9, 6), 2: (4, 7, 6), 3: (3, 5, 6, 7)}[ndim]
    u = [rg.uniform(.3, 1.5, shape) for _ in range(p.get('nu', 1))]
    n = {1: (9,), 2: (7, 6), 3: (5, 6, 7)}[ndim]
    x = [(0.3 * (k + 1) * np.arange(n[k]) + .1).reshape(-1, 1) for k in range(ndim)]
    for t in toks:
        if t.param_var is not None:
            t._param_data_ref = rg.uniform(.5, 2., shape)
    return toks, u, x


def valid_diffs(seq, toks):
    """every derivative's second argument is a coordinate, coordinates appear nowhere else (their shape is not the field's), and the first argument is no bare constant"""
    ar = [toks[t].arity for t in seq]
    try:
        tr = tree(seq, ar)
    except StopIteration:
        return False

    def ok(t, as_coord):
        k = toks[seq[t[0]]]
        if k.input_var is not None:
            return as_coord
        if as_coord:
            return False
        d = k.name.lower().startswith('diff')
        return all(ok(q, d and j == 1) for j, q in enumerate(t[1]))
    return ok(tr, False)


def same(a, b, tol=1e-9, pert=None):
    """equal up to rounding; pert = the reference on a slightly perturbed input (its deviation bounds the conditioning)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    a, b = np.broadcast_arrays(a, b) if a.shape != b.shape and (a.size == 1 or b.size == 1) else (a, b)
    if a.shape != b.shape:
        return False
    if pert is not None:
        q = np.broadcast_to(np.asarray(pert, float).reshape(b.shape) if np.size(pert) == b.size else pert, b.shape)
        m = np.isfinite(b) & np.isfinite(q)
        sc = np.max(np.abs(b[m]), initial=0)
        with np.errstate(all='ignore'):
            return bool(np.all(~(np.abs(a - b)[m] > tol * (sc + 1) + 1e5 * np.abs(b - q)[m])))
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * (1 + np.nanmax(np.abs(b[np.isfinite(b)]), initial=0)), equal_nan=True)


def wobble(u):
    rg = np.random.RandomState(5)
    return [a * (1 + 1e-13 * rg.uniform(-1, 1, a.shape)) for a in u]


def case_numpy(p):
    ex, ue = need(EX, 'python_execute'), need('kd.model.discover.stridge', 'unsafe_execute')
    toks, u, x = setting(p)
    keep = [a.copy() for a in u]
    for s in p['seqs']:
        tr = [toks[t] for t in s]
        with np.errstate(all='ignore'):
            want = ref_eval(tree(s, [t.arity for t in tr]), tr, u, x, p['ndim'])
            got = ex(list(tr), u, x)
            pert = ref_eval(tree(s, [t.arity for t in tr]), tr, wobble(u), x, p['ndim'])
        name = ','.join(t.name for t in tr)
        check(got is not None, lambda: f'{name}: evaluation returned nothing')
        check(same(got, want, pert=pert), lambda: f'{name}: value differs from the recursive evaluation by up to {np.nanmax(np.abs(np.asarray(got) - want)) if np.shape(got) == np.shape(want) else (np.shape(got), np.shape(want))}')
        with np.errstate(all='ignore'):
            got2 = ue(list(tr), u, x)[0]
        check(same(got2, want, pert=pert), lambda: f'{name}: guarded evaluation differs from the recursive evaluation')
        check(all(np.array_equal(a, b) for a, b in zip(u, keep)), lambda: f'{name}: evaluation modified the field')


def case_terms(p):
    """term-tree evaluator: the value of every term of a candidate is its own tree's value"""
    ST = need('kd.model.discover.stridge', 'STRidge')
    toks, u, x = setting(p)
    for s in p['seqs']:
        tr = [toks[t] for t in s]
        st = ST(list(tr), max_depth=99)
        st.regulation.apply_regulations = lambda *a: ([], [])
        for a in (u, [2 * v + .1 for v in u]):
            with np.errstate(all='ignore'):
                res = st.evaluate_terms(a, x)
                vals, perts = [[ref_eval(tree(tt, [t.arity for t in tt]), tt, b, x, p['ndim']) for tt in st.terms_token] for b in (a, wobble(a))]
            name = ','.join(t.name for t in tr)
            if isinstance(res, tuple):
                try:
                    with np.errstate(all='raise'):
                        for tt in st.terms_token:
                            ref_eval(tree(tt, [t.arity for t in tt]), tt, a, x, p['ndim'])
                except FloatingPointError:
                    continue
                check(not all(np.all(np.abs(v) < 1e9) for v in vals) or len({np.size(v) for v in vals}) > 1, lambda: f'{name}: valid terms reported as invalid: {res[2:]}')
                continue
            check(len(res) == len(vals), lambda: f'{name}: {len(res)} term values for {len(vals)} terms')
            for k, (r, v, q) in enumerate(zip(res, vals, perts)):
                check(same(r, np.reshape(v, -1), pert=np.reshape(q, -1)), lambda: f'{name}: term {k} has another value than its tree')


def case_torch(p):
    import torch
    ex, ct = need(EX, 'python_execute_torch'), need('kd.model.discover.functions', 'create_tokens')
    ndim, nu = p['ndim'], p['nu']
    toks = ct(n_input_var=ndim, function_set=['add_t', 'sub_t', 'mul_t', 'div_t', 'n2_t', 'n3_t', 'diff_t', 'diff2_t', 'diff3_t'] + (['lap_t'] if p.get('lap') else []), protected=False, n_state_var=nu, task_type='pde')
    torch.manual_seed(p['seed'])
    x = [(torch.rand(7, 1, dtype=torch.float64) + .2).requires_grad_(True) for _ in range(ndim)]
    cols = [torch.sin(sum((k + 1 + j) * .7 * v for k, v in enumerate(x))) + (j + 1) * x[0] ** 2 * x[-1] + torch.exp(.3 * x[-1]) for j in range(nu)]
    u = [torch.cat(cols, 1)] if p['aslist'] else cols[0]

    def der(y, k, order):
        for _ in range(order):
            y = torch.autograd.grad(y.sum(), x[k], create_graph=True)[0]
        return y

    def ev(t, tr):
        i, kids = t
        k = tr[i]
        if k.input_var is not None:
            return x[k.input_var]
        if k.state_var is not None:
            return cols[k.state_var]
        if k.name.startswith('diff'):
            o = {'diff_t': 1, 'diff2_t': 2, 'diff3_t': 3}[k.name]
            return der(ev(kids[0], tr), tr[kids[1][0]].input_var, o)
        if k.name == 'lap_t':
            a = ev(kids[0], tr)
            return sum(der(a, j, 2) for j in range(ndim))
        a = [ev(q, tr) for q in kids]
        return {'add_t': lambda: a[0] + a[1], 'sub_t': lambda: a[0] - a[1], 'mul_t': lambda: a[0] * a[1], 'div_t': lambda: a[0] / a[1],
                'n2_t': lambda: a[0] ** 2, 'n3_t': lambda: a[0] ** 3}[k.name]()
    for s in p['seqs']:
        tr = [toks[t] for t in s]
        name = ','.join(t.name for t in tr)
        try:
            want = ev(tree(s, [t.arity for t in tr]), tr).detach().numpy()
        except RuntimeError:
            continue                        # derivative of a quantity that does not depend on the coordinate
        if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e6:
            continue
        got = ex(list(tr), u, x)
        check(got is not None, lambda: f'{name}: no value')
        check(same(got.detach().numpy(), want, 1e-7), lambda: f'{name}: torch value differs from the recursive evaluation')


def cases(tier, rng):
    big = tier != 'quick'

    def gen(p, seqs, key):
        for k in range(0, len(seqs), 60):
            q = dict(p, seqs=[list(s) for s in seqs[k:k + 60]])
            yield case_numpy, q, (key, k, repr(q['seqs'])[:300])
            if 'u1' in key:
                yield case_terms, q, (key, 't', k, repr(q['seqs'])[:300])
    # exhaustive over small sets
    for ops, nu in (('small', 1), ('sub', 2)):
        p = dict(ops=ops, ndim=1, nu=nu, hard=False)
        toks, _, _ = setting(p)
        ar = [t.arity for t in toks]
        for n in range(1, 7 if not big else 9):
            seqs = [s for s in disc.complete_exprs(ar, n) if valid_diffs(s, toks)]
            if len(seqs) > (1500 if not big else 20000):
                seqs = rng.sample(seqs, 1500 if not big else 20000)
            yield from gen(p, seqs, f'{ops}u1 n{n}')
    for it in range(8 if not big else 120):
        for ops, ndim in (('1', 1), ('1b', 1), ('2', 2), ('3', 3)):
            p = dict(ops=ops, ndim=ndim, nu=rng.choice([1, 2, 3]), hard=rng.random() < .4, np=rng.choice([0, 1, 2]), seed=rng.randrange(10 ** 6))
            toks, _, _ = setting(p)
            seqs = [rand_valid(rng, toks, rng.randint(3, 25)) for _ in range(25)]
            yield from gen(p, seqs, f'{ops}u1 r{it}')
    for it in range(6 if not big else 60):
        for ndim in (1, 2, 3):
            aslist = rng.random() < .7
            nu = rng.choice([1, 2]) if aslist else 1
            ct = need('kd.model.discover.functions', 'create_tokens')
            lap = rng.random() < .5
            toks = ct(n_input_var=ndim, function_set=['add_t', 'sub_t', 'mul_t', 'div_t', 'n2_t', 'n3_t', 'diff_t', 'diff2_t', 'diff3_t'] + (['lap_t'] if lap else []), protected=False, n_state_var=nu, task_type='pde')
            seqs = [list(rand_valid(rng, toks, rng.randint(3, 14))) for _ in range(15)]
            yield case_torch, dict(ndim=ndim, nu=nu, aslist=aslist, lap=lap, seed=it, seqs=seqs), (ndim, nu, repr(seqs)[:300])


def rand_valid(rng, toks, maxlen):
    """random expression whose derivatives have a coordinate as second argument and whose coordinates appear nowhere else"""
    xs = [k for k, t in enumerate(toks) if t.input_var is not None]
    leaves = [k for k, t in enumerate(toks) if t.arity == 0 and t.input_var is None]
    ops = [k for k, t in enumerate(toks) if t.arity > 0]
    nested = [0]

    def rec(room, d):
        if room < 3 or rng.random() < .25:
            return [rng.choice(leaves)]
        k = rng.choice(ops)
        nm = toks[k].name.lower()
        if nm.startswith('diff') or nm.startswith('lap'):
            if d >= 2:
                return [rng.choice(leaves)]
            a = rec(room - 2, d + 1)
            if not any(toks[t].state_var is not None for t in a):
                a = [next(j for j, t in enumerate(toks) if t.state_var is not None)]
            return [k] + a + ([rng.choice(xs)] if nm.startswith('diff') else [])
        if toks[k].arity == 1:
            return [k] + rec(room - 1, d)
        a = rec((room - 1) // 2 + 1, d)
        return [k] + a + rec(room - 1 - len(a), d)
    return tuple(rec(maxlen, 0))
