"""C07: splitting a candidate into additive terms preserves its value."""
import numpy as np
from pyvc.core import *
from pyvc.arrays import SArr
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from . import disc
from .spec_tree import *
from .c06 import setting, NUM_OPS, ref_eval, tree, valid_diffs, rand_valid, same, wobble
from .c01 import _Swap

ID = 'C07'
LEVEL = 'proof'
RULE = 'every expression up to a bounded size over {add, sub, mul, sin, diff, u, x} and seeded random larger ones: terms, signs, token lists and fitted coefficients compared with an independent split of the tree; a case is non-trivial when its expression is new'
ST = 'kd.model.discover.stridge'


class TTok:
    """token at position p with concretised arity"""

    def __init__(self, S, p):
        self.S, self.p = S, S.pos(p)
        self._a = None

    @property
    def arity(self):
        if self._a is None:
            c = cur()
            for a in (0, 1):
                if c.decide(self.S.AR(self.p) == a):
                    self._a = a
                    break
            else:
                self._a = 2
        return self._a

    @property
    def name(self):
        return ('leaf', 'un', 'bin')[self.arity]


class Cursor:
    """list of remaining tokens: pop(0) removes the next one"""

    def __init__(self, S, at):
        self.S, self.at = S, at

    def pop(self, i=-1):
        if str(i) != '0':
            raise Unsupported('pop index')
        c, S = cur(), self.S
        if not c.decide(self.at < S.n):
            raise PyRaise(IndexError('pop from empty list'))
        t = TTok(S, self.at)
        self.at = z3.simplify(self.at + 1)
        return t

    def copy(self):
        return Cursor(self.S, self.at)


class TNode:
    """node of the tree at position p (already built)"""

    def __init__(self, S, p):
        self.S, self.p, self._kids = S, S.pos(p), None
        self.token = TTok(S, p)
        self.val = 'node'
        self.symbol = 1

    @property
    def children(self):
        if self._kids is None:
            self._kids = [TNode(self.S, self.S.CH(self.p, j)) for j in range(self.token.arity)]
        return self._kids


def g_rebuild(ctx):
    f, Node = need(ST, 'STRidge.rebuild_tree', 'Node')

    def run():
        c = cur()
        S = Tree()
        p0 = z3.Int('p0')
        c.assume(z3.And(p0 >= 0, p0 < S.n))
        S.pos(p0)

        class Self:
            pass
        me = Self()
        me.traversal = Cursor(S, p0)

        def rec(ip, self):
            p = self.traversal.at
            c.prove('rebuild_tree: a child is parsed where its subtree starts', z3.And(p >= 0, p < S.n, p > p0))
            S.pos(p)
            self.traversal.at = z3.simplify(S.END(p))
            return TNode(S, p)
        ip = Interp(ctx.session, contracts={f: rec})
        me.rebuild_tree = lambda: rec(ip, me)
        node = ip.run_function(f, [me], {})
        c.prove('rebuild_tree: the root is the first token', z3.And(z3.BoolVal(isinstance(node.token, TTok) and node.token.p is not None), node.token.p == p0))
        c.prove('rebuild_tree: one child per argument', S.AR(p0) == len(node.children))
        for j, k in enumerate(node.children):
            c.prove(f'rebuild_tree: child {j + 1} is the {j + 1}. argument', k.p == S.CH(p0, j) if isinstance(k, TNode) else z3.BoolVal(False))
        c.prove('rebuild_tree: consumes exactly the subtree', me.traversal.at == S.END(p0))
        c.prove('rebuild_tree: a fresh node has sign +1', z3.BoolVal(node.symbol == 1))
    ctx.run(run)


ADDS = ('add', 'sub', 'add_t', 'sub_t')
OTHERS = ('mul', 'mul_t', 'div', 'u1', 'x1', 'diff', 'n2')


class Leaf_:
    pass


class FlatList(list):
    """result of split_sum on a child: its flattened signed sum is known"""

    def __init__(self, node):
        super().__init__([node])
        self.node = node


def g_split(ctx):
    """split_sum and expand_list, with the recursive calls replaced by their contracts."""
    f = need(ST, 'STRidge.split_forest')

    def run():
        c = cur()
        R = z3.RealSort()
        names = ADDS + OTHERS
        nm = names[c.choose(len(names))]

        class N:
            def __init__(self, val, sym, value):
                self.val, self.symbol, self.value = val, sym, value
                self.children = []
                self.token = ('tok', self)

            def __repr__(self):
                return f'<{self.val}>'
        s0 = Int('s0')
        c.assume(z3.Or(s0.t == 1, s0.t == -1))
        v1, v2 = z3.Reals('v1 v2')
        a, b = N('a', 1, v1), N('b', 1, v2)
        root = N(nm, s0, None)
        binary = nm in ADDS or nm in ('mul', 'mul_t', 'div', 'diff')
        root.children = [a, b] if binary else []
        root.value = v1 + v2 if nm in ('add', 'add_t') else v1 - v2 if nm in ('sub', 'sub_t') else z3.Real('v0')
        calls = []

        def rec(ifn, r):
            if r is root:
                return ifn.body(r)
            calls.append(r)
            return FlatList(r)          # contract: a nested list whose flattened signed sum is symbol*value of r
        flat = []
        top = [True]

        def exp(ifn, lst):
            # contract of the recursive call: appends the flattened entries of lst in order
            if top[0]:
                top[0] = False
                return ifn.body(lst)
            flat_into(lst, me.terms)

        def flat_into(lst, out):
            if isinstance(lst, FlatList):
                out.append(lst)
                return
            for e in lst:
                if isinstance(e, list):
                    flat_into(e, out)
                else:
                    out.append(e)

        def pre(ifn, node):
            return [('tokens of', node)] * 3

        class Self:
            pass
        me = Self()
        me.terms, me.default_terms = [], []
        d = N('default', 1, z3.Real('vd'))
        if c.choose(2):
            me.default_terms = [d]
        me.rebuild_tree = lambda: root
        ip = Interp(ctx.session)
        ip.local_contracts = {'split_sum': rec, 'expand_list': exp, 'preorder_traverse': pre}
        ip.run_function(f, [me], {})
        got = [t.node if isinstance(t, FlatList) else t for t in me.terms]
        k = len(got) - len(me.default_terms)
        c.prove('split_forest: default terms come last, in order', z3.BoolVal(got[k:] == me.default_terms))
        body = got[:k]
        tot = z3.RealVal(0)
        for t in body:
            tot = tot + z3.ToReal(lift(t.symbol)) * t.value
        c.prove(f'split_sum: signed sum of the terms is the signed value of the expression [{nm}]', z3.simplify(tot) == z3.ToReal(s0.t) * root.value)
        c.prove('split_sum: terms are kept in left-to-right order, none twice', z3.BoolVal(body == ([a, b] if nm in ADDS else [root])))
        c.prove('split_sum: only additions and subtractions are split', z3.BoolVal((calls == [a, b]) if nm in ADDS else calls == []))
        for t in body:
            c.prove('split_sum: signs stay +1 or -1', z3.Or(lift(t.symbol) == 1, lift(t.symbol) == -1))
        c.prove('split_forest: token list of every term, in term order', z3.BoolVal([t[0] for t in me.terms_token] == [('tokens of', t if not isinstance(t, FlatList) else t) for t in me.terms]))
        c.prove('split_forest: term lengths belong to the terms', z3.BoolVal(list(me.terms_len) == [3] * len(me.terms)))
    ctx.run(run)
    ctx.assume_note('expand_list is run on the list shapes split_sum can return (one node, or two nested results); deeper nesting by its own recursive contract')


def g_preorder(ctx):
    """preorder_traverse: the tokens of a term are exactly the tokens of its subtree, in prefix order."""
    f = need(ST, 'STRidge.split_forest')

    class Out:
        """output list: holds the tokens p0 .. at-1"""

        def __init__(self, S, p0, at):
            self.S, self.p0, self.at = S, p0, at

        def append(self, t):
            cur().prove('preorder_traverse: next token in prefix order', t.p == self.at if isinstance(t, TTok) else z3.BoolVal(False))
            self.at = z3.simplify(self.at + 1)

        def __symlen__(self):
            return wrap(self.at - self.p0)

    class Nodes:
        """pending nodes: concrete ones in front, then an arbitrary tiling of [link, end)"""

        def __init__(self, S, link, end):
            self.S, self.front, self.link, self.end = S, [], link, end

        def __symlen__(self):
            if self.front:
                r = z3.Int(fresh_name('rest'))
                cur().assume(z3.And(r >= 0, (r == 0) == (self.link == self.end)), check=False)
                return wrap(r + len(self.front))
            r = z3.Int(fresh_name('rest'))
            cur().assume(z3.And(r >= 0, (r == 0) == (self.link == self.end)), check=False)
            return wrap(r)

        def pop(self, i=-1):
            if str(i) != '0':
                raise Unsupported('pop index')
            if not self.front:
                S, c = self.S, cur()
                if not c.decide(self.link < self.end):
                    raise PyRaise(IndexError('pop from empty list'))
                nd = TNode(S, self.link)
                c.assume(S.END(self.link) <= self.end, check=False)     # tiling: the next subtree lies inside
                self.link = z3.simplify(S.END(self.link))
                return nd
            return self.front.pop(0)

        def insert(self, i, nd):
            if not isinstance(i, int) or i < 0 or i > len(self.front):
                raise Unsupported('insert index')
            self.front.insert(i, nd)

    def run():
        c = cur()
        S = Tree()
        p0 = z3.Int('p0')
        c.assume(z3.And(p0 >= 0, p0 < S.n))
        root = TNode(S, p0)
        end = S.END(p0)
        kids = root.children

        class L(LoopContract):
            modifies = ('nodes', 'traversals', 'front')

            def havoc(self, info, k):
                at = z3.Int(fresh_name('at'))
                cur().assume(z3.And(at >= p0, at <= end), check=False)
                info.env['nodes'] = Nodes(S, at, end)
                info.env['traversals'] = Out(S, p0, at)

            def check(self, info, k, when):
                o, ns = info.env['traversals'], info.env['nodes']
                at = (p0 + len(o)) if isinstance(o, list) else o.at
                front = ns if isinstance(ns, list) else ns.front
                cond = [z3.BoolVal(not isinstance(o, list) or not o)]
                q = at
                for nd in front:
                    cond.append(nd.p == q if isinstance(nd, TNode) else z3.BoolVal(False))
                    q = S.END(nd.p) if isinstance(nd, TNode) else q
                rest = end if isinstance(ns, list) else ns.link
                cond.append(q == rest)
                cond.append(z3.And(at >= p0, at <= end))
                cur().prove(f'preorder_traverse: pending nodes tile the rest of the term ({when})', z3.And(cond))
        done = []

        def pre(ifn, node):
            r = ifn.body(node)
            done.append(r)
            return [1]

        class Self:
            pass
        me = Self()
        me.terms, me.default_terms = [], []
        me.rebuild_tree = lambda: root
        ip = Interp(ctx.session, loops={'preorder_traverse': L()})
        ip.local_contracts = {'split_sum': lambda ifn, r: [root], 'expand_list': lambda ifn, l: me.terms.append(root), 'preorder_traverse': pre}
        ip.run_function(f, [me], {})
        o = done[0]
        c.prove('preorder_traverse: ends exactly at the end of the term', o.at == end if isinstance(o, Out) else z3.BoolVal(False))
    ctx.run(run)


def g_coef(ctx):
    """coef_calculate: the reported coefficients are the fit of the reported columns, all within the accepted range."""
    f = need(ST, 'STRidge.coef_calculate')
    mod = need(ST)

    class W:
        """coefficient vector of a fit"""

        def __init__(self, tag, n, fn):
            self.tag, self.n, self.fn = tag, n, fn

        def __symlen__(self):
            return wrap(self.n)

        def __getitem__(self, i):
            return SReal(self.fn(lift(i)))

        def reshape(self, *a):
            return self

        def tolist(self):
            return ('list', self)

    class M:
        def __init__(self, tag, ncol):
            self.tag, self.ncol = tag, ncol

        def dot(self, w):
            return ('dot', self, w)

        def __getitem__(self, i):
            if i == (slice(None), slice(None, -1)):
                return M((self.tag, 'minus last'), self.ncol - 1)
            raise Unsupported('matrix index')

    class Fake:
        def __init__(self, o):
            self.o = o

    def run():
        c = cur()
        n = z3.Int('ncol')
        c.assume(n >= 1)
        Y = object()
        fits = []

        def lstsq(ip, A, B, *a, **k):
            c.prove('coef_calculate: the target is fitted', z3.BoolVal(B is Y))
            if c.choose(2) and not fits:
                raise PyRaise(np.linalg.LinAlgError('no convergence'))
            g = z3.Function(fresh_name('w'), I, z3.RealSort())
            w = W(A, A.ncol, lambda i, g=g: g(i))
            fits.append((A, w))
            return (w, None, None, None)

        class Self:
            pass
        me = Self()
        me.add_const = bool(c.choose(2))
        A = M('rhs', n)
        ok = lambda w, j: z3.And(z3.Or(w.fn(j) >= z3.Q(5, 100000), w.fn(j) <= -z3.Q(5, 100000)), w.fn(j) <= 10000, w.fn(j) >= -10000)
        jj = z3.Int('jj')
        c.assume(z3.And(jj >= 0, jj < n))

        class L(LoopContract):
            modifies = ('w_best', 'rhs')

            def havoc(self, info, k):
                info.env['w_best'], info.env['rhs'] = fits[0][1], A
                if c.choose(2):
                    # the loop already dropped the constant column (only after its last column)
                    if not me.add_const:
                        raise PathEnd()
                    c.assume(k == n, check=False)
                    A2 = A[:, :-1]
                    g = z3.Function(fresh_name('w'), I, z3.RealSort())
                    w2 = W(A2, A2.ncol, lambda i: g(i))
                    fits.append((A2, w2))
                    info.env['w_best'], info.env['rhs'] = w2, A2
                    c.assume(z3.Implies(jj < n - 1, ok(fits[0][1], jj)), check=False)
                else:
                    c.assume(z3.Implies(jj < k, ok(fits[0][1], jj)), check=False)

            def check(self, info, k, when):
                w, r = info.env.get('w_best'), info.env.get('rhs')
                cur().prove(f'coef_calculate: coefficients belong to the current columns ({when})', z3.BoolVal(any(w is ww and r is aa for aa, ww in fits)))
                if r is A:
                    cur().prove(f'coef_calculate: checked coefficients lie in the accepted range ({when})', z3.Implies(jj < k, ok(w, jj)))
                else:
                    cur().prove(f'coef_calculate: only the constant column may be dropped ({when})', z3.And(z3.BoolVal(me.add_const and isinstance(r, M) and r.tag == ('rhs', 'minus last')), k == n))
                    cur().prove(f'coef_calculate: checked coefficients lie in the accepted range ({when})', z3.Implies(jj < n - 1, ok(fits[0][1], jj)))
        ip = Interp(ctx.session, contracts={np.linalg.lstsq: lstsq}, loops={'coef_calculate': L()})
        ip.contracts[np.sum] = lambda ip, *a, **k: SReal(z3.Real(fresh_name('r')))
        ip.contracts[np.abs] = lambda ip, x: (SReal(z3.If(lift(x) >= 0, lift(x), -lift(x))) if isinstance(x, Sym) else x)
        # y_hat - rhs is only summed into an unused number
        class Diffable(tuple):
            def __sub__(self, o):
                return self
        M.dot = lambda self, w: Diffable(('dot', self, w))
        res = ip.run_function(f, [me, A, Y], {})
        yh, wl, invalid, e1, e2, rhs = res
        if invalid is True:
            c.prove('coef_calculate: a rejected candidate carries no coefficients', z3.BoolVal(wl == [0] and e1 is not None and rhs is None))
            return
        c.prove('coef_calculate: the flag is a plain truth value', z3.BoolVal(invalid is False))
        good = isinstance(wl, tuple) and wl[0] == 'list' and any(wl[1] is w and rhs is a for a, w in fits)
        c.prove('coef_calculate: reported coefficients are the fit of the reported columns', z3.BoolVal(good))
        c.prove('coef_calculate: prediction is columns times coefficients', z3.BoolVal(isinstance(yh, tuple) and yh[1] is rhs and good and yh[2] is wl[1]))
        lim = n if rhs is A else n - 1
        c.prove('coef_calculate: every checked coefficient lies in the accepted range', z3.Implies(jj < lim, ok(fits[0][1], jj)))
    ctx.run(run)
    ctx.assume_note('np.linalg.lstsq returns one least-squares coefficient per column in column order, or raises')


def groups():
    return [('rebuild_tree', g_rebuild), ('split_forest', g_split), ('preorder_traverse', g_preorder), ('coef_calculate', g_coef)]


# ------------------------------------------------------------------ run-time contracts (bounded)
ADD = {'add': 1, 'sub': -1, 'add_t': 1, 'sub_t': -1}


def ref_split(seq, toks, at=0, sign=1):
    """[(sign, first, last+1)] of the additive terms in left-to-right order, and the end of the expression at `at`"""
    k = toks[seq[at]]
    if k.name in ADD:
        a, m = ref_split(seq, toks, at + 1, sign)
        b, e = ref_split(seq, toks, m, sign * ADD[k.name])
        return a + b, e
    e, o = at, 1
    while o:
        o += toks[seq[e]].arity - 1
        e += 1
    return [(sign, at, e)], e


def node_seq(nd):
    return [nd.token] + [t for k in nd.children for t in node_seq(k)]


def case_split(p):
    C = need(ST, 'STRidge')
    toks, u, x = setting(p)
    for s in p['seqs']:
        tr = [toks[t] for t in s]
        name = ','.join(t.name for t in tr)
        given = list(tr)
        dt = [[toks[t]] for t in p.get('default', [])]
        st = C(given.copy(), dt, max_depth=99)
        want, e = ref_split(s, toks)
        assert e == len(s)
        nd = len(dt)
        check(len(st.terms) == len(want) + nd == len(st.terms_token), lambda: f'{name}: {len(st.terms)} terms, expected {len(want) + nd}')
        for k, (sg, a, b) in enumerate(want):
            check(st.terms_token[k] == tr[a:b], lambda: f'{name}: term {k} is {st.terms_token[k]}, expected {tr[a:b]}')
            check(node_seq(st.terms[k]) == tr[a:b], lambda: f'{name}: tree of term {k} is {st.terms[k]!r}')
            check(st.terms[k].symbol == sg, lambda: f'{name}: term {k} {st.terms_token[k]} carries sign {st.terms[k].symbol}, expected {sg}')
        for k in range(nd):
            check(st.terms_token[len(want) + k] == [toks[p['default'][k]]], lambda: f'{name}: default term {k} misplaced')
        check(st.traversal_copy == tr, lambda: f'{name}: the candidate itself was altered')
        if not valid_diffs(s, toks):
            continue
        with np.errstate(all='ignore'):
            whole = ref_eval(tree(s, [t.arity for t in tr]), tr, u, x, p['ndim'])
            parts = sum(n.symbol * ref_eval(tree(tt, [t.arity for t in tt]), tt, u, x, p['ndim']) for n, tt in zip(st.terms[:len(want)], st.terms_token))
            pert = ref_eval(tree(s, [t.arity for t in tr]), tr, wobble(u), x, p['ndim'])
        check(same(parts, whole, pert=pert), lambda: f'{name}: signed sum of the terms differs from the expression')


def case_fit(p):
    C, Prog, ue = need(ST, 'STRidge'), need('kd.model.discover.program', 'Program'), need(ST, 'unsafe_execute')
    toks, u, x = setting(p)
    rg = np.random.RandomState(p['seed'])
    for s in p['seqs']:
        tr = [toks[t] for t in s]
        name = ','.join(t.name for t in tr)
        st = C(tr.copy(), [], max_depth=99, const=p['const'], noise_level=p['noise'], cut_ratio=p.get('cut', .2))
        st.regulation.apply_regulations = lambda *a: ([], [])
        terms0 = [list(t) for t in st.terms_token]
        with np.errstate(all='ignore'):
            vals = [np.asarray(ref_eval(tree(tt, [t.arity for t in tt]), tt, u, x, p['ndim'])) for tt in st.terms_token]
        if any(v.shape != u[0].shape or not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e6 for v in vals):
            continue
        if p['noise']:
            r = p.get('cut', .2)
            sl = tuple(slice(int(np.floor(r * d)), int(np.ceil((1 - r) * d))) for d in u[0].shape)
            vals = [v[sl] for v in vals]
        cols = np.array([v.reshape(-1) for v in vals]).T
        true = rg.uniform(.5, 3, cols.shape[1]) * rg.choice([-1, 1], cols.shape[1])
        ut = (cols @ true + (.7 if p['const'] and rg.rand() < .5 else 0) + .01 * rg.randn(len(cols))).reshape(-1, 1)
        B = np.concatenate([cols, np.ones((len(cols), 1))], 1) if p['const'] else cols
        if np.linalg.matrix_rank(B) < B.shape[1] or np.linalg.cond(B) > 1e7:
            continue
        yh, w, invalid, e1, e2, rhs = st.calculate(u, x, ut)
        ref = np.linalg.lstsq(B, ut, rcond=None)[0].ravel()
        if invalid:
            check(np.any(np.abs(ref[:cols.shape[1]]) < 6e-5) or np.any(np.abs(ref) > 9e3), lambda: f'{name}: fit with coefficients {ref} rejected as {e1}')
            continue
        check(st.terms_token == terms0, lambda: f'{name}: fitting reordered the terms')
        if p['const'] and abs(ref[-1]) < 5e-5:
            ref = np.linalg.lstsq(cols, ut, rcond=None)[0].ravel()
            B = cols
        check(len(w) == len(ref) and np.allclose(w, ref, rtol=1e-6, atol=1e-8), lambda: f'{name}: coefficients {w}, expected {ref}')
        check(np.allclose(rhs, B) and np.allclose(yh.ravel(), B @ ref, rtol=1e-6, atol=1e-8), lambda: f'{name}: columns or prediction do not belong to the terms')
        q = Prog.__new__(Prog)
        q.STRidge, q.w, q.cached_terms, q.traversal = st, w, None, tr
        txt = q.str_expression.split(' + ')
        want = ['%.4f * %r' % (a, b) for a, b in zip(w, st.terms)] + (['%.4f' % w[-1]] if len(w) > len(st.terms) else [])
        check(txt == want and len(st.terms) == cols.shape[1], lambda: f'{name}: reported as {txt}, expected {want}')
        check(q.funcion_expression.split(' |') == [repr(t) for t in st.terms], 'reported terms differ')
        check(q.coefficents.split('|') == [str(round(v, 4)) for v in w], 'reported coefficients differ')
        if not p['noise'] and not p['const']:
            full = [np.asarray(ref_eval(tree(tt, [t.arity for t in tt]), tt, u, x, p['ndim'])) for tt in st.terms_token]
            res = st.calculate_RHS(u, x, ut.reshape(u[0].shape), list(w), execute_func=ue)
            check(np.allclose(res, ut.reshape(u[0].shape) - sum(a * b for a, b in zip(w, full)), rtol=1e-7, atol=1e-8), lambda: f'{name}: residual does not use the coefficient of each term')


def case_multi(p):
    """several levels: every level is fitted with its own columns and its own target"""
    C = need(ST, 'STRidge')
    ct = need('kd.model.discover.functions', 'create_tokens')
    toks = ct(n_input_var=1, function_set=['add', 'sub', 'mul', 'n2', 'sin'], protected=False, n_state_var=2, task_type='pde')
    rg = np.random.RandomState(p['seed'])
    lev = p['lev']
    u = [rg.uniform(.3, 1.5, (3, lev, 4, 5)) for _ in range(2)]
    for s in p['seqs']:
        tr = [toks[t] for t in s]
        st = C(tr.copy(), [], max_depth=99)
        st.regulation.apply_regulations = lambda *a: ([], [])
        vals = [np.asarray(ref_eval(tree(tt, [t.arity for t in tt]), tt, u, [], 1)) for tt in st.terms_token]
        cols = [np.array([v[:, i].reshape(-1) for v in vals]).T for i in range(lev)]
        if any(np.linalg.matrix_rank(c) < c.shape[1] or np.linalg.cond(c) > 1e6 for c in cols):
            continue
        true = [rg.uniform(.5, 3, c.shape[1]) for c in cols]
        uts = [(c @ t).reshape(3, 4, 5) for c, t in zip(cols, true)]
        out = st.calculate(u, [np.zeros((3, 1))], uts, cached=(None, None))
        yl, wl, invalid = out[0], out[1], out[2]
        check(not invalid and len(wl) == lev, lambda: f'{tr}: levels {len(wl)} invalid {invalid}')
        for i in range(lev):
            check(np.allclose(wl[i], true[i], rtol=1e-5), lambda: f'{tr}: level {i} coefficients {wl[i]}, expected {true[i]}')
            check(np.allclose(np.ravel(yl[i]), uts[i].ravel(), rtol=1e-6), lambda: f'{tr}: level {i} prediction')
        w1 = st.wf_calculate([u[0]], [0], uts) if False else None


def cases(tier, rng):
    big = tier != 'quick'
    NUM_OPS['c07'] = ['add', 'sub', 'mul', 'n2']
    NUM_OPS['c07b'] = ['add', 'sub', 'mul', 'diff', 'n2', 'div']
    NUM_OPS['c07t'] = ['add', 'sub', 'mul', 'n2', 'n3']
    p = dict(ops='c07', ndim=1, nu=1, hard=False)
    toks, _, _ = setting(p)
    ar = [t.arity for t in toks]
    for n in range(1, 10 if not big else 12):
        seqs = [s for s in disc.complete_exprs(ar, n)] if n < 8 else [disc.random_expr(rng, ar, n, .35) for _ in range(400)]
        if len(seqs) > 1200 and not big:
            seqs = rng.sample(seqs, 1200)
        for k in range(0, len(seqs), 100):
            q = [list(s) for s in seqs[k:k + 100]]
            yield case_split, dict(p, seqs=q), ('s', n, k)
    for it in range(25 if not big else 300):
        ndim = rng.choice([1, 1, 2, 3])
        p = dict(ops='c07b' if ndim == 1 else str(ndim), ndim=ndim, nu=rng.choice([1, 2, 3]), hard=False, np=rng.choice([0, 1]), seed=rng.randrange(10 ** 6))
        toks, _, _ = setting(p)
        seqs = [list(rand_sum(rng, toks, rng.randint(1, 6))) for _ in range(20)]
        yield case_split, dict(p, seqs=seqs, default=[k for k, t in enumerate(toks) if t.arity == 0 and t.state_var is not None][:rng.choice([0, 1, 2])]), ('sr', repr(seqs)[:400])
        yield case_fit, dict(p, seqs=seqs, const=rng.random() < .4, noise=rng.choice([0, 0, .1])), ('f', repr(seqs)[:400])
    ct = need('kd.model.discover.functions', 'create_tokens')
    toks = ct(n_input_var=1, function_set=['add', 'sub', 'mul', 'n2', 'sin'], protected=False, n_state_var=2, task_type='pde')
    for it in range(6 if not big else 40):
        seqs = [list(rand_sum(rng, toks, rng.randint(1, 4))) for _ in range(10)]
        yield case_multi, dict(seed=it, lev=rng.choice([1, 2, 3]), seqs=seqs), ('m', repr(seqs)[:400])


def rand_sum(rng, toks, n):
    """random sum of n random terms with random nesting of additions and subtractions"""
    adds = [k for k, t in enumerate(toks) if t.name in ADD]
    if n <= 1:
        return rand_valid(rng, toks, rng.randint(1, 8))
    a = rng.randint(1, n - 1)
    return (rng.choice(adds),) + tuple(rand_sum(rng, toks, a)) + tuple(rand_sum(rng, toks, n - a))
