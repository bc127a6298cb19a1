"""C17: equations reported by the genetic search denote the fitted model."""
import builtins, re, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from . import sga
from .c12 import C
from .textsym import Text, Blob, Ip, Reader, BadText, read_term, read_equation, prod, der, closing

ID = 'C17'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded trees over the operator table, coefficient vectors and notations; non-trivial when the rendered equation is new'
EQ = 'kd.model.sga.sgapde.equation'
PDE = 'kd.model.sga.sgapde.pde'
N = [0]
OPS = ['+', '-', '*', '/', '^2', '^3', 'd', 'd^2']


def new(kind, tag, shape=None):
    N[0] += 1
    return Blob(kind, (kind, tag, N[0]) if kind == 'sym' else ('some', tag, N[0]), shape)


# ---- shapes of a rendered expression -----------------------------------------------------------------------------------
# S | S_{subs} | (E) | (E)_{subs} | one of these ^{n} | \frac{E}{E} | Leibniz derivative | product of such factors

def factor_shape(what):
    """arbitrary factor: (pieces, what it denotes)"""
    c = cur()
    k = c.choose(7)
    if k < 4 or k == 6:
        j = k if k < 4 else c.choose(4)
        if j % 2 == 0:
            s = new('sym', what)
            p, d = [s], s.den
        else:
            b = new('bal', what)
            p, d = ['(', b, ')'], b.den
        if j >= 2:
            u = new('subs', what)
            p, d = p + ['_{', u, '}'], der(d, [u.den])
        if k == 6:
            n = new('digit', what)
            p, d = p + ['^{', n, '}'], ('^', n.den, d)
        return p, d
    if k == 4:
        a, b = new('bal', what), new('bal', what)
        return ['\\frac{', a, '}{', b, '}'], ('/', a.den, b.den)
    f, v = new('factor', what), new('sym', what)
    if c.choose(2):
        return ['\\frac{\\partial ', f, '}{\\partial ', v, '}'], der(f.den, [v.den])
    return ['\\frac{\\partial^{2} ', f, '}{\\partial ', v, '^{2}}'], der(f.den, [v.den] * 2)


def expr(what):
    """arbitrary rendered expression; its shape is decided when the code looks at it"""
    d = [None]

    def shape(b):
        c = cur()
        if c.choose(2) == 0:
            p, dn = factor_shape(what)
        else:
            (p1, d1), rest = factor_shape(what), new('expr', what)
            p, dn = p1 + [' \\cdot ', rest], prod([d1, rest.den])
        b.real = dn
        return p
    b = new('expr', what, shape)
    return Text(b)


def den_of(t):
    b = t.pieces[0]
    return getattr(b, 'real', None) or b.den


def resolve(d, texts):
    m = {t.pieces[0].den: den_of(t) for t in texts if isinstance(t, Text)}

    def go(x):
        if isinstance(x, tuple):
            if x in m and m[x] != x:
                return m[x]
            if x and x[0] == '*' and len(x) == 2:
                return prod([go(y) for y in x[1]])
            if x and x[0] == 'd' and len(x) == 3:
                return der(go(x[1]), x[2])
            return tuple(go(y) for y in x)
        return x
    return go(d)


def meaning(name, ds):
    if name == '*':
        return prod(ds)
    if name in ('+', '-', '/'):
        return (name, ds[0], ds[1])
    if name in ('^2', '^3'):
        return (name, ds[0])
    return der(ds[0], [ds[1]] * (1 if name == 'd' else 2))


def contracts(ip, eqm):
    ip.contracts[eqm._closing] = lambda ip_, e, s: closing(e, s) if isinstance(e, Text) else eqm._closing(e, s)


def g_combine(name, notation):
    def g(ctx):
        """one node: the text of a node denotes its operator applied to what the texts of its children denote, for children of any shape"""
        eqm = need(EQ)
        comb = need(EQ, '_combine_node')

        def run():
            c = cur()
            N[0] = 0
            kids = [expr('first child')]
            if name in ('d', 'd^2'):
                kids.append(Text(new('sym', 'differentiation variable')))
            elif name in '+-*/':
                kids.append(expr('second child'))
            ip = Ip(ctx.session)
            if hasattr(eqm, '_closing'):
                contracts(ip, eqm)
            try:
                r = ip.call(comb, name, kids, notation=notation)
            except PyRaise:
                c.prove(f'{name}: every operator of the table is rendered', z3.BoolVal(False))
                return
            try:
                got = read_term(r)
            except BadText:
                c.prove(f'{name}: the text reads as one expression of its own', z3.BoolVal(False))
                return
            want = meaning(name, [den_of(k) for k in kids])
            c.prove(f'{name}: the text denotes the operator applied to its children in order', z3.BoolVal(resolve(got, kids) == resolve(want, kids)))
        ctx.run(run)
        ctx.assume_note('operator texts are compared up to associativity of the product and merging of successive differentiations; names of differentiation variables are single symbols')
    return g


def g_closing(ctx):
    """the bracket matcher used for grouping, for texts of any length"""
    eqm = need(EQ)
    fn = need(EQ, '_closing')

    class Str:
        __slots__ = ('n', 'ch', 'op', 'cl')

        def __symlen__(self):
            return wrap(self.n)

        def __getitem__(self, i):
            return Ch(self, lift(i))

    class Ch:
        def __init__(self, s, i):
            self.s, self.i = s, i

        def __eq__(self, o):
            if isinstance(o, str) and len(o) == 1:
                return wrap(self.s.ch(self.i) == ord(o))
            if isinstance(o, Ch):
                return wrap(self.s.ch(self.i) == self.s.ch(o.i))
            raise Unsupported('character')
        __hash__ = None

    def run():
        c = cur()
        s = Str()
        s.n = z3.Int(fresh_name('length'))
        s.ch = z3.Function(fresh_name('char'), z3.IntSort(), z3.IntSort())
        D = z3.Function(fresh_name('depth'), z3.IntSort(), z3.IntSort())
        st = z3.Int(fresh_name('start'))
        opening = '{('[c.choose(2)]
        ending = {'{': '}', '(': ')'}[opening]
        c.assume(z3.And(0 <= st, st < s.n, s.ch(st) == ord(opening)))
        q = z3.Int('q')
        step = lambda q: c.assume(D(q + 1) == D(q) + z3.If(s.ch(q) == ord(opening), 1, 0) - z3.If(s.ch(q) == ord(ending), 1, 0), check=False)   # definition of the depth
        step(st)
        none = lambda k: z3.ForAll([q], z3.Implies(z3.And(q > st, q <= k), D(q) > D(st)), patterns=[D(q)])

        class L(LoopContract):
            modifies = ()

            def havoc(self, info, k):
                i = st + k
                info.env['depth'] = wrap(D(i) - D(st))
                step(i)
                c.assume(none(i), check=False)

            def check(self, info, k, when):
                i = st + k
                v = info.env.get('depth')
                c.prove(f'closing: {when}: the depth counts the open brackets', lift(v) == D(i) - D(st))
                c.prove(f'closing: {when}: not closed before', none(i))

        class I(Ip):
            def loop_template(self, fr, node):
                return L()

            def getitem(self, o, i):
                if isinstance(o, Str):
                    return o[i]
                if isinstance(o, dict) and isinstance(i, Ch):
                    for k in o:
                        if self.truth(i == k):
                            return o[k]
                return Ip.getitem(self, o, i)
        ip = I(ctx.session)
        r = ip.call(fn, s, wrap(st))
        r = lift(r)
        c.prove('closing: the answer is the first place where the bracket is closed, or -1 when there is none', z3.Or(
            z3.And(r > st, r < s.n, s.ch(r) == ord(ending), D(r + 1) == D(st), none(r)),
            z3.And(r == -1, none(s.n))))
    ctx.run(run)


# ---- tree -----------------------------------------------------------------------------------------------------------------

def g_tree(ctx):
    """an arbitrary node of an arbitrary tree is rendered from its own operator and its own children, in order"""
    eqm = need(EQ)
    rt = need(EQ, '_render_tree')

    class Nodes:
        __slots__ = ('n', 'here', 'd', 'i', 'log')

        def __symlen__(self):
            return wrap(self.n)

        def __bool__(self):
            return True

        def __getitem__(self, d):
            return Lev(self, d)

    class Lev:
        def __init__(self, t, d):
            self.t, self.d = t, d

        def __symlen__(self):
            c = cur()
            c.prove('tree: only the level below the node is measured', z3.Or(lift(self.d) == self.t.d + 1, lift(self.d) == self.t.d))
            return wrap(z3.Function('WIDTH', z3.IntSort(), z3.IntSort())(lift(self.d)))

        def __getitem__(self, i):
            cur().prove('tree: the node rendered is the one asked for', z3.And(lift(self.d) == self.t.d, lift(i) == self.t.i))
            return self.t.here

    def run():
        c = cur()
        N[0] = 0
        t = Nodes()
        t.n, t.d, t.i = z3.Int(fresh_name('levels')), z3.Int(fresh_name('level')), z3.Int(fresh_name('index'))
        WID = z3.Function('WIDTH', z3.IntSort(), z3.IntSort())
        names = [None, '+', '-', '*', '/', '^2', '^3', 'd', 'd^2']
        nm = names[c.choose(len(names))]
        c.assume(z3.And(t.n >= 1, t.d >= 0, t.d < t.n, t.i >= 0, t.i < WID(t.d)))
        leaf = Text(new('sym', 'leaf')) if nm is None else None
        nd = types.SimpleNamespace(name=nm if nm else types.SimpleNamespace(leaf=leaf), child_num=0, child_st=None)
        if nm:
            cs = z3.Int(fresh_name('child_st'))
            nd.child_num = 1 if nm in ('^2', '^3') else 2
            nd.child_st = wrap(cs)
            c.assume(z3.And(cs >= 0, t.d + 1 < t.n, cs + nd.child_num <= WID(t.d + 1)))
        t.here = nd
        tree = types.SimpleNamespace(tree=t)
        notation = ['subscript', 'leibniz'][c.choose(2)]
        ip = Ip(ctx.session)
        state = []
        kids = {}
        seen = []

        def helper(ifn, d, i, *rest):
            if not state:
                state.append(1)
                c.prove('tree: rendering starts at the root', z3.And(lift(d) == 0, lift(i) == 0))
                return ifn.body(wrap(t.d), wrap(t.i))
            c.prove('tree: the recursion goes to the level below', lift(d) == t.d + 1)
            for k in range(nd.child_num):
                if c.decide(lift(i) == lift(nd.child_st) + k):
                    kids[k] = kids.get(k) or Text(new('expr', f'child {k}'))
                    return kids[k]
            c.prove('tree: the recursion goes to a child of the node', z3.BoolVal(False))
            raise PathEnd()

        def combine(ip_, name, children, notation='subscript'):
            seen.append((name, list(children), notation))
            return Text(new('expr', 'combined'))

        def render_leaf(ip_, name):
            if getattr(name, 'leaf', None) is None:
                c.prove('tree: only names of leaves are rendered as leaves', z3.BoolVal(False))
                raise PathEnd()
            return name.leaf
        ip.contracts[eqm._combine_node] = combine
        ip.contracts[eqm._render_leaf] = render_leaf
        ip.local_contracts['helper'] = helper
        r = ip.call(rt, tree, notation=notation)
        if not state:
            c.prove('tree: the nodes are rendered by the recursive helper', z3.BoolVal(False))
            return
        if nm is None:
            c.prove('tree: a leaf is rendered as its name', z3.BoolVal(r is leaf and not seen))
            return
        ok = len(seen) == 1 and seen[0][0] == nm and seen[0][2] == notation and len(seen[0][1]) == nd.child_num and all(seen[0][1][k] is kids.get(k) for k in range(nd.child_num))
        c.prove('tree: a node is combined with the texts of its own children, in order, in the chosen notation', z3.BoolVal(ok))
    ctx.run(run)
    ctx.assume_note('trees are well formed (C12): every operator has its children on the next level')


# ---- terms ------------------------------------------------------------------------------------------------------------------

class Ghost:
    """list that only grows: what the current iteration appends"""
    __slots__ = ('new', 'k')

    def __init__(self):
        self.new, self.k = [], None

    def append(self, x):
        self.new.append(x)


def g_extract(ctx):
    """term list of a candidate: for any number of default and generated terms and any coefficients, every coefficient that is not negligible gives exactly one term, with that coefficient and its own expression, in order"""
    eqm = need(EQ)
    fn = need(EQ, 'extract_equation_details')

    def run():
        c = cur()
        nd, nt, size = z3.Int(fresh_name('default terms')), z3.Int(fresh_name('terms')), z3.Int(fresh_name('coefficients'))
        tol = z3.Real(fresh_name('tolerance'))
        co = z3.Function(fresh_name('coef'), z3.IntSort(), z3.RealSort())
        c.assume(z3.And(nd >= 0, nt >= 0, size == nd + nt, tol > 0))

        class Coef:
            __slots__ = ()
            size = property(lambda s: wrap(size))

            def reshape(self, *a):
                return self

            def __getitem__(self, i):
                c.prove('terms: a coefficient that exists is read', z3.And(lift(i) >= 0, lift(i) < size))
                return wrap(co(lift(i)))

        class Term:
            def __init__(self, j):
                self.j = j
                self.tree = ('tree of', j)
                self.inorder = ('text of', j)

        class Seq(SSeq):
            def __init__(self, n, f):
                SSeq.__init__(self, wrap(n), f)
                self.n, self.f = n, f

            def __symlen__(self):
                return wrap(self.n)
        names = Seq(nd, lambda k: ('name', k))
        terms = Seq(nt, lambda k: Term(k))
        elems = ['the candidate']
        calls = []
        pde = types.SimpleNamespace(elements=elems)
        context = types.SimpleNamespace(num_default=wrap(nd), default_names=names, config='config', ut=types.SimpleNamespace(shape='shape of the target'))
        cf = Coef()

        class Feat:
            size = 1

            def dot(self, w):
                calls.append(('dot', w))
                return types.SimpleNamespace(reshape=lambda sh: ('prediction', sh))
        feat = Feat()

        def evaluate(ip_, e, cx, is_term=False, return_matrix=False):
            calls.append(('evaluate', e, cx, is_term, return_matrix))
            return terms, cf, feat
        g = Ghost()
        st = {'loops': 0}

        class L(LoopContract):
            modifies = ('term_list', 'new')

            def __init__(self, which, n):
                self.which, self.n = which, n

            def havoc(self, info, k):
                g.new = []
                g.k = (self.which, k)
                info.env['term_list'] = g

            def check(self, info, k, when):
                if when == 'initiation':
                    tl = info.env.get('term_list')
                    c.prove('terms: the term list starts empty and only grows', z3.BoolVal(tl is g or isinstance(tl, list) and not tl))
                    st[self.which] = info.n
                    return
                self.done(k - 1)

            def done(self, k):
                c.prove('terms: the term list is only appended to', z3.BoolVal(info_list() is g))
                i = k if self.which == 'default' else nd + k
                small = z3.And(co(i) < tol, co(i) > -tol)
                c.prove(f'terms: a {self.which} coefficient gives one term, a negligible one none', z3.If(small, z3.BoolVal(len(g.new) == 0), z3.BoolVal(len(g.new) == 1)))
                for x in g.new:
                    if x[0] != 'term':
                        c.prove('terms: terms are recorded as terms', z3.BoolVal(False))
                        continue
                    a = x[1]
                    c.prove(f'terms: a {self.which} term has its own coefficient', lift(a['coefficient']) == co(i))
                    c.prove(f'terms: a {self.which} term is labelled by where it comes from', z3.BoolVal(a['source'] == self.which))
                    if self.which == 'default':
                        l = a['label']
                        c.prove('terms: a default term has its own name', z3.And(z3.BoolVal(isinstance(l, tuple) and l[0] == 'name' and a.get('tree') is None), lift(l[1]) == k if isinstance(l, tuple) else z3.BoolVal(False)))
                    else:
                        t = a['tree']
                        ok = isinstance(t, Term)
                        c.prove('terms: a generated term has its own tree and text', z3.And(t.j == k, z3.BoolVal(a['label'] == ('text of', t.j))) if ok else z3.BoolVal(False))
        cur_fr = []

        def info_list():
            return cur_fr[-1].env.get('term_list') if cur_fr else g

        class I(Ip):
            def loop_template(self, fr, node):
                cur_fr[:] = [fr]
                import ast
                has_enum = any(isinstance(x, ast.Name) and x.id == 'terms' for x in ast.walk(node.iter))
                return L('generated' if has_enum else 'default', None)

            def getitem(self, o, i):
                if isinstance(o, Seq):
                    c.prove('terms: a name that exists is read', z3.And(lift(i) >= 0, lift(i) < o.n))
                    return o.f(lift(i))
                if isinstance(o, Coef):
                    return o[i]
                return Ip.getitem(self, o, i)
        ip = I(ctx.session)
        ip.contracts[eqm.evaluate_mse] = evaluate
        ip.contracts[eqm.copy.deepcopy] = lambda ip_, x: ('copy of', x)
        ip.contracts[eqm.np.asarray] = lambda ip_, x, **k: x
        ip.contracts[eqm.np.real_if_close] = lambda ip_, x: x
        ip.contracts[eqm.SGAEquationTerm] = lambda ip_, **k: ('term', k)
        ip.contracts[eqm.SGAEquationDetails] = lambda ip_, **k: ('details', k)
        ip.contracts[eqm._infer_lhs_label] = lambda ip_, cfg: ('left-hand side of', cfg)
        ip.contracts[builtins.list] = lambda ip_, x=(): x if isinstance(x, Seq) else list(x)
        ip.contracts[builtins.tuple] = lambda ip_, x=(): x if isinstance(x, Ghost) else tuple(x)
        ip.contracts[builtins.float] = lambda ip_, x: x if isinstance(x, Sym) else float(x)
        r = ip.call(fn, pde, context, coefficient_tol=wrap(tol))
        ev = [x for x in calls if x[0] == 'evaluate']
        c.prove('terms: a copy of the candidate is evaluated once, on the context, with its matrix', z3.BoolVal(len(ev) == 1 and ev[0][1] == ('copy of', elems) and ev[0][2] is context and ev[0][3] is True and ev[0][4] is True))
        c.prove('terms: every default and every generated term is visited', z3.And(st.get('default', z3.IntVal(-1)) == nd, st.get('generated', z3.IntVal(-1)) == nt))
        if g.k is not None and g.new:
            c.prove('terms: no term is added outside the loops or before leaving one', z3.BoolVal(False))
        k = r[1]
        tl = k['terms']
        c.prove('terms: the details hold the collected terms, the left-hand side of the configuration and the prediction of the coefficients', z3.BoolVal((tl is g or tl == ()) and k['lhs'] == ('left-hand side of', 'config') and (k['predicted_rhs'] is None and c.entails(size == 0) or k['predicted_rhs'] == ('prediction', 'shape of the target') and [x for x in calls if x[0] == 'dot'] == [('dot', cf)])))
        if g.k is not None:
            w, kk = g.k
            c.prove('terms: a loop is left only at its end', z3.Or(kk >= (nd if w == 'default' else nt), z3.BoolVal(False)))
    ctx.run(run)
    ctx.assume_note('the coefficient vector has one entry per default and generated term (C13); coefficients are mathematical reals; terms whose coefficient is below the documented tolerance (1e-5) are omitted')


def g_term(ctx):
    """one term: sign and coefficient as printed, for any coefficient and expression"""
    eqm = need(EQ)
    fn = need(EQ, '_format_term')

    def run():
        c = cur()
        N[0] = 0
        co = z3.Real(fresh_name('coef'))
        c.assume(co != 0)
        inc = bool(c.choose(2))
        t = types.SimpleNamespace(coefficient=wrap(co))
        e = Text(new('expr', 'expression of the term'))
        ip = Ip(ctx.session)

        def render(ip_, term, notation='subscript'):
            c.prove('term: the expression is that of the term, in the chosen notation', z3.BoolVal(term is t and notation == 'chosen'))
            return e
        ip.contracts[eqm._render_term_expression] = render
        sign, body = ip.call(fn, t, include_coefficients=inc, notation='chosen')
        c.prove('term: the sign is that of the coefficient', z3.If(co < 0, z3.BoolVal(sign == '-'), z3.BoolVal(sign == '+')))
        mag = z3.If(co < 0, -co, co)
        p = body.flat() if isinstance(body, Text) else [body]
        blob = e.pieces[0]
        is_ = blob.flags.get('is', {})
        one = is_.get('1', False)
        num = [x for x in p if isinstance(x, Blob) and x.kind == 'num']
        if not inc:
            c.prove('term: without coefficients only the expression is shown', z3.BoolVal(p == [blob] or one and p == ['1']))
            return
        if num:
            c.prove('term: the printed number is the magnitude of its own coefficient', lift(num[0].den[0]) == mag)
            c.prove('term: at least six digits are printed', z3.BoolVal(bool(re.fullmatch(r'\.(\d+)g', num[0].den[1])) and int(num[0].den[1][1:-1]) >= 6))
            c.prove('term: number times expression', z3.BoolVal(len(num) == 1 and (p == [num[0], '\\,', blob] or one and p == [num[0]])))
        else:
            c.prove('term: a coefficient is only omitted when it is one', z3.And(mag <= 1 + eqm._DEFAULT_TOL * 1.0001, mag >= 1 - eqm._DEFAULT_TOL * 1.0001, z3.BoolVal(p == [blob])))
    ctx.run(run)


def g_equation(ctx):
    """the equation: each term once, in order, with its sign"""
    eqm = need(EQ)
    fn = need(EQ, 'sga_equation_to_latex')

    class Seq(SSeq):
        def __init__(self, n):
            SSeq.__init__(self, wrap(n), lambda k: ('term', k))
            self.n = n

        def __symlen__(self):
            return wrap(self.n)

        def __bool__(self):
            return cur().decide(self.n > 0)

    class Details:
        lhs = 'the left-hand side'

        def __init__(self, seq):
            self.terms = ('unfiltered', seq)
            self.seq = seq

        def nonzero_terms(self):
            return self.seq

    class Join:
        pass

    def run():
        c = cur()
        N[0] = 0
        n = z3.Int(fresh_name('terms'))
        c.assume(n >= 0)
        NEG = z3.Function(fresh_name('negative'), z3.IntSort(), z3.BoolSort())
        seq = Seq(n)
        det = Details(seq)
        notation = ['subscript', 'leibniz'][c.choose(2)]
        inc = bool(c.choose(2))
        g = Ghost()
        bodies = {}

        def body(k):
            key = k.sexpr()
            if key not in bodies:
                bodies[key] = (k, Text(new('expr', ('body', key))))
            return bodies[key][1]

        class L(LoopContract):
            modifies = ('formatted_terms', 'new')

            def havoc(self, info, k):
                g.new = []
                g.k = k
                fr[-1].env['formatted_terms'] = g

            def check(self, info, k, when):
                if when == 'initiation':
                    tl = info.env.get('formatted_terms')
                    c.prove('equation: the list of texts starts empty', z3.BoolVal(isinstance(tl, list) and not tl))
                    c.prove('equation: every non-zero term is visited', info.n == n)
                    return
                j = z3.simplify(k - 1)
                c.prove('equation: each term gives one text', z3.BoolVal(len(g.new) == 1 and info.env.get('formatted_terms') is g))
                if len(g.new) != 1:
                    return
                p = Text(g.new[0]).flat()
                b = p[-1]
                own = [kk for kk, t in bodies.values() if t.pieces[0] is b]
                c.prove('equation: the text ends with the body of its own term', own[0] == j if own else z3.BoolVal(False))
                lead = ''.join(x for x in p[:-1] if isinstance(x, str)) if all(isinstance(x, str) for x in p[:-1]) else '?'
                c.prove('equation: the sign in front is that of the term', z3.And(z3.Implies(NEG(j), z3.BoolVal(lead == '- ')), z3.Implies(z3.And(z3.Not(NEG(j)), j > 0), z3.BoolVal(lead == '+ ')), z3.Implies(z3.And(z3.Not(NEG(j)), j == 0), z3.BoolVal(lead in ('', '+ ')))))
        fr = []

        class I(Ip):
            def loop_template(self, f, node):
                fr[:] = [f]
                return L()
        ip = I(ctx.session)

        def fmt(ip_, term, include_coefficients=True, notation='subscript'):
            c.prove('equation: terms are formatted as asked for', z3.BoolVal(include_coefficients is inc and notation == note))
            k = lift(term[1])
            return ('-' if c.decide(NEG(k)) else '+'), body(k)
        note = notation
        joined = []

        def join(sep, xs):
            joined.append((sep, xs))
            return Text(Blob('joined', (sep, id(xs))))
        ip.contracts[eqm._format_term] = fmt
        ip.contracts[eqm._format_lhs] = lambda ip_, l: Text(Blob('lhs', l))
        ip.contracts[builtins.list] = lambda ip_, x=(): x if isinstance(x, Seq) else list(x)
        ip.join = join
        r = ip.call(fn, det, include_coefficients=inc, notation=notation)
        p = Text(r).flat()
        if c.entails(n == 0):
            c.prove('equation: no term gives zero', z3.BoolVal(len(p) == 2 and p[0].den == det.lhs and p[1] == ' = 0'))
            return
        ok = len(p) == 3 and isinstance(p[0], Blob) and p[0].den == det.lhs and p[1] == ' = ' and isinstance(p[2], Blob) and p[2].kind == 'joined' and len(joined) == 1 and joined[0][0] == ' ' and joined[0][1] is g
        c.prove('equation: left-hand side = texts of the terms joined in order', z3.BoolVal(ok))
        if g.k is not None:
            c.prove('equation: the loop ends after the last term', g.k >= n)
    ctx.run(run)


def g_lhs(ctx):
    """the left-hand side names the derivative that was fitted"""
    eqm = need(EQ)
    fn = need(EQ, '_infer_lhs_label')

    def run():
        c = cur()
        N[0] = 0
        tgt, ax = Text(new('sym', 'target')), Text(new('sym', 'axis'))
        k = c.choose(3)
        cfg = types.SimpleNamespace(target_field=tgt, lhs_axis=ax, left_side=[None, '', 'left_side = ut'][k])
        ip = Ip(ctx.session)
        r = ip.call(fn, cfg)
        if k < 2:
            c.prove('left-hand side: derivative of the target field along the evolution axis', z3.BoolVal(isinstance(r, Text) and r.flat() == [tgt.pieces[0], '_', ax.pieces[0]]))
        else:
            c.prove('left-hand side: the configured one', z3.BoolVal(r == 'ut'))
    ctx.run(run)


def g_text(ctx):
    """plain text of a candidate: for any number of coefficients, each coefficient that is not negligible is written once, before its own term"""
    pm = need(PDE)
    P = need(PDE, 'PDE')

    class Seq(SSeq):
        def __init__(self, n, f):
            SSeq.__init__(self, wrap(n), f)

        def __symlen__(self):
            return self.length()

        def __getitem__(self, i):
            if isinstance(i, tuple) and i[0] == slice(None) and i[1] == 0:
                return self
            cur().prove('text: an entry that exists is read', z3.And(lift(i) >= 0, lift(i) < lift(self._n)))
            return self._e(lift(i))

    def run():
        c = cur()
        N[0] = 0
        nd, nt = z3.Int(fresh_name('default terms')), z3.Int(fresh_name('terms'))
        co = z3.Function(fresh_name('coef'), z3.IntSort(), z3.RealSort())
        c.assume(z3.And(nd >= 0, nt >= 0))
        marks = {}

        def label(kind):
            def f(k):
                b = Blob('label', (kind, k.sexpr()))
                marks[id(b)] = (kind, k)
                marks.setdefault('keep', []).append(b)
                t = Text(b)
                return t if kind == 'default' else types.SimpleNamespace(inorder=t)
            return f
        names, terms = Seq(nd, label('default')), Seq(nt, label('generated'))
        cf = Seq(nd + nt, lambda k: wrap(co(k)))
        elems = ['the candidate']
        me = types.SimpleNamespace(elements=elems)
        context = types.SimpleNamespace(num_default=wrap(nd), default_names=names)
        st = types.SimpleNamespace(k=None)

        class L(LoopContract):
            def havoc(self, info, k):
                st.k = k
                b = Blob('prefix', 'text so far')
                st.e = bool(c.choose(2))
                if st.e:
                    info.env['name'] = ''
                else:
                    c.assume(k > 0)
                    info.env['name'] = Text(b)
                    st.b = b

            def check(self, info, k, when):
                t = info.env.get('name')
                if when == 'initiation':
                    c.prove('text: starts empty', z3.BoolVal(isinstance(t, str) and t == ''))
                    c.prove('text: every coefficient is visited', info.n == nd + nt)
                    return
                j = z3.simplify(k - 1)
                p = t.flat() if isinstance(t, Text) else [t] if t else []
                pre = [] if st.e else [st.b]
                small = z3.And(co(j) < z3.Q(1, 10000), co(j) > -z3.Q(1, 10000))
                if p == pre:
                    c.prove('text: only a negligible coefficient is left out', small)
                    return
                new_ = p[len(pre):]
                ok = p[:len(pre)] == pre
                if not st.e:
                    ok = ok and bool(new_) and new_[0] == ' + '
                    new_ = new_[1:]
                ok = ok and len(new_) == 2 and all(isinstance(x, Blob) for x in new_) and new_[0].kind == 'num' and id(new_[1]) in marks
                c.prove('text: a term is written as its coefficient followed by its expression', z3.BoolVal(ok))
                if ok:
                    v, dig = new_[0].den
                    c.prove('text: the coefficient is that of the term, to four decimals or more', z3.And(lift(v) == co(j), z3.BoolVal(dig >= 4)))
                    kind, i = marks[id(new_[1])]
                    c.prove('text: the expression is that of the coefficient', z3.If(j < nd, z3.And(z3.BoolVal(kind == 'default'), i == j), z3.And(z3.BoolVal(kind == 'generated'), i == j - nd)))

        class I(Ip):
            def loop_template(self, fr, node):
                return L()

            def getitem(self, o, i):
                if isinstance(o, Seq):
                    return o[i]
                return Ip.getitem(self, o, i)

            def compare(self, op, a, b):
                import ast
                if isinstance(a, Text) and isinstance(b, str) and b == '' and isinstance(op, (ast.Eq, ast.NotEq)) and not st.e:
                    return isinstance(op, ast.NotEq)
                return Ip.compare(self, op, a, b)
        ip = I(ctx.session)
        calls = []

        def evaluate(ip_, e, cx, is_term=False, return_matrix=False):
            calls.append((e, cx, is_term, return_matrix))
            return terms, cf, None
        ip.contracts[pm.evaluate_mse] = evaluate
        ip.contracts[pm.copy.deepcopy] = lambda ip_, x: ('copy of', x)
        ip.contracts[np.real] = lambda ip_, x: x
        ip.contracts[np.abs] = lambda ip_, x: abs(x)
        ip.contracts[builtins.round] = lambda ip_, x, n=0: Text(Blob('num', (x, n)))
        ip.contracts[builtins.str] = lambda ip_, x='': x if isinstance(x, Text) else str(x)
        r = ip.call(P.concise_visualize, me, context)
        c.prove('text: a copy of the candidate is evaluated once on the context', z3.BoolVal(calls == [(('copy of', elems), context, True, True)]))
        c.prove('text: the text is returned after the last coefficient', st.k >= nd + nt if st.k is not None else z3.BoolVal(False))
        p = r.flat() if isinstance(r, Text) else [r] if r else []
        c.prove('text: nothing else is written', z3.BoolVal(p == ([] if st.e else [st.b])))
    ctx.run(run)
    ctx.assume_note('terms whose coefficient is below 1e-4 are omitted from the plain text by design; coefficients are printed to four decimals')


def g_nonzero(ctx):
    """terms with a zero coefficient, and only those, are left out"""
    D = need(EQ, 'SGAEquationDetails')

    def run():
        c = cur()
        n = c.choose(4)
        ts = [types.SimpleNamespace(coefficient=wrap(z3.Real(fresh_name('coef')))) for _ in range(n)]
        d = D.__new__(D)
        d.terms, d.lhs = tuple(ts), 'lhs'
        ip = Ip(ctx.session)
        out = list(ip.call(D.nonzero_terms, d))
        c.prove('non-zero terms: in order, none twice', z3.BoolVal([t for t in ts if any(t is o for o in out)] == out))
        for t in ts:
            c.prove('non-zero terms: exactly those with a non-zero coefficient', (t.coefficient.t != 0) == z3.BoolVal(any(t is o for o in out)))
    ctx.run(run)
    ctx.assume_note('filter of the non-zero terms: proved for up to three terms (one comprehension)')


def groups():
    return [(f'text of {n} ({m})', g_combine(n, m)) for n in OPS for m in ('subscript', 'leibniz')] + [('bracket matching', g_closing), ('tree texts', g_tree), ('term list', g_extract), ('term text', g_term), ('equation text', g_equation), ('left-hand side', g_lhs), ('plain text', g_text), ('non-zero terms', g_nonzero)]


# ---- run-time contract ------------------------------------------------------------------------------------------------------
LEGACY = {'ux': ('u', 'x'), 'uxx': ('u', 'xx'), 'uxxx': ('u', 'xxx'), 'ut': ('u', 't')}
GREEK = {'alpha', 'beta', 'gamma', 'delta', 'epsilon', 'kappa', 'lambda', 'mu', 'nu', 'rho', 'sigma'}


def leaf_den(name):
    if name in LEGACY:
        return ('d', ('var', LEGACY[name][0]), tuple(('var', a) for a in LEGACY[name][1]))
    p = name.split('_')
    if len(p) > 1 and all(p):
        return ('d', ('var', p[0]), tuple(('var', a) for a in p[1:]))
    return ('var', name)


def tree_den(t):
    nm, kids = t
    if not kids:
        return leaf_den(nm)
    return meaning(nm, [tree_den(kids[0])] + [('var', kids[1][0]) if nm in ('d', 'd^2') else tree_den(kids[1])] if len(kids) > 1 else [tree_den(kids[0])])


def contexts():
    SolverConfig, ProblemContext = need(sga.CFG, 'SolverConfig'), need(sga.CTX, 'ProblemContext')
    r = np.random.RandomState(5)
    x, lat, t = np.linspace(.2, 1.7, 7), np.linspace(.3, 1.2, 6), np.linspace(.1, 1., 8)
    f = {'v': np.outer(np.sin(x) + 1.5, np.exp(-t)), 'rho': np.outer(np.cos(x), 1 + t), 'w_1': np.outer(x, np.cos(t))}
    g = {'s': (np.sin(x)[:, None, None] + 1.2) * np.cos(lat)[None, :, None] * np.exp(-t)[None, None, :], 'nu': x[:, None, None] * lat[None, :, None] + t[None, None, :]}
    return [lambda: sga.context_for(1, '2d'), lambda: sga.context_for(1, '2d', simple=False), lambda: sga.context_for(2, 'y'), lambda: sga.context_for(1, '3d', simple=False), lambda: sga.context_for(1, 'multi', simple=False),
            lambda: _ctx('a', f, dict(x=x, t=t), ['x', 't'], dict(target_field='v', param_fields={'kappa': 1 + r.rand(7, 8)})),
            lambda: _ctx('b', g, dict(x=x, lat=lat, t=t), ['x', 'lat', 't'], dict(target_field='s', lhs_axis='lat'))]


_own = {}


def _ctx(key, f, c, o, ex):
    if key not in _own:
        SolverConfig, ProblemContext = need(sga.CFG, 'SolverConfig'), need(sga.CTX, 'ProblemContext')
        _own[key] = sga.quiet(ProblemContext, SolverConfig(fields_data=f, coords_1d=c, axis_order=o, simple_mode=False, **ex))
    return _own[key]


def trees(ctx, rng, n, depth):
    Tree = need('kd.model.sga.sgapde.tree', 'Tree')
    np.random.seed(rng.randrange(2 ** 31))
    out = []
    for _ in range(n):
        t = Tree(ctx, depth, rng.choice([.2, .5, .8]))
        if rng.random() < .5:
            t.mutate(ctx, rng.choice([.2, .6]))
        out.append(t)
    return out


def same_equation(latex, lhs, terms, coeffs=True):
    """latex denotes lhs = sum of coefficient * expression, the terms in order"""
    try:
        l, got = read_equation(latex)
    except BadText as e:
        raise Fail(f'{latex!r} does not read as an equation: {e}')
    try:
        ld = read_term(l if '\\' in l or '{' in l else '_'.join([l.rsplit('_', 1)[0], '{' + l.rsplit('_', 1)[1] + '}']) if l.count('_') == 1 else l)
    except BadText as e:
        raise Fail(f'left-hand side {l!r}: {e}')
    flat = lambda d: (d[1], ''.join(v[1] for v in d[2])) if d[0] == 'd' else d
    check(flat(ld) == flat(lhs), f'left-hand side {l!r} instead of {lhs}')
    check(len(got) == len(terms), f'{len(got)} terms in {latex!r} for {len(terms)} fitted ones')
    for (c, d), (c0, d0) in zip(got, terms):
        check(d == d0, f'term {d0} is rendered as {d} in {latex!r}')
        if coeffs:
            check(abs(c - c0) <= 1.01e-5 * abs(c0) or c == c0, f'coefficient {c0!r} of {d0} is rendered as {c!r}')
        else:
            check(c == (1.0 if c0 > 0 else -1.0), f'sign of {d0} (coefficient {c0}) is lost in {latex!r}')


def lhs_den(ctx):
    ls = getattr(ctx.config, 'left_side', None)
    if ls:
        return leaf_den(ls.split('=', 1)[1].strip())
    return ('d', ('var', ctx.target_field), (('var', ctx.lhs_axis),)) if '_' not in ctx.target_field else leaf_den(f'{ctx.target_field}_{ctx.lhs_axis}')


def case_latex(seed, notation, coeffs):
    """arbitrary coefficients on arbitrary trees"""
    import random
    rng = random.Random(seed)
    D, T, tol = need(EQ, 'SGAEquationDetails'), need(EQ, 'SGAEquationTerm'), 1e-5
    cs = contexts()
    ctx = cs[rng.randrange(len(cs))]()
    terms, exp = [], []
    for t in trees(ctx, rng, rng.randrange(0, 5), rng.choice([2, 3, 4, 5])):
        c = rng.choice([1.0, -1.0, 0.0, 1 + 1e-4, -1 + 1e-3, rng.uniform(-2, 2), rng.uniform(-1, 1) * 10 ** rng.uniform(-5, 6), float(rng.randrange(-4, 5))])
        terms.append(T(label=t.inorder, source='generated', coefficient=c, tree=t))
        if c != 0:
            exp.append((c, tree_den(sga.nested(t))))
    if rng.random() < .6:
        c = rng.choice([1.0, -1.0, 0.5, -3.25e-3, 0.0])
        nm = rng.choice([r[0] for r in ctx.VARS if r[0] != '0'])
        terms.insert(0, T(label=nm, source='default', coefficient=c, tree=None))
        if c:
            exp.insert(0, (c, leaf_den(nm)))
    to = need(EQ, 'sga_equation_to_latex')
    lab = need(EQ, '_infer_lhs_label')(ctx.config)
    same_equation(to(D(lhs=lab, terms=tuple(terms)), include_coefficients=coeffs, notation=notation), lhs_den(ctx), exp, coeffs)
    st = need(EQ, 'sga_equation_structure')(D(lhs=lab, terms=tuple(terms)), notation=notation)
    same_equation(st, lhs_den(ctx), exp, False)


def parse_inorder(s):
    """fully parenthesised text of a tree -> (name, children)"""
    tok = s.replace('(', ' ( ').replace(')', ' ) ').split()
    i = [0]

    def rec():
        x = tok[i[0]]
        i[0] += 1
        if x != '(':
            return (x, [])
        if tok[i[0]] in ('^2', '^3'):
            op = tok[i[0]]
            i[0] += 1
            a = [rec()]
        else:
            l = rec()
            op = tok[i[0]]
            i[0] += 1
            a = [l, rec()]
        if tok[i[0]] != ')':
            raise Fail(f'{s!r} is not a fully parenthesised expression')
        i[0] += 1
        return (op, a)
    try:
        t = rec()
    except IndexError:
        raise Fail(f'{s!r} is not a fully parenthesised expression')
    check(i[0] == len(tok), f'{s!r} is not one expression')
    return t


def case_fit(seed, notation, coeffs):
    """a candidate evaluated on its problem: details, LaTeX and text"""
    import random, copy
    rng = random.Random(seed)
    cs = contexts()
    ctx = cs[rng.randrange(len(cs))]()
    PDEc, ev = need(PDE, 'PDE'), need(PDE, 'evaluate_mse')
    np.random.seed(seed % 2 ** 31)
    p = PDEc(ctx, rng.choice([2, 3, 4]), rng.randrange(1, 6), .5)
    p.elements = trees(ctx, rng, rng.randrange(1, 6), rng.choice([2, 3, 4]))
    p.W = len(p.elements)
    if rng.random() < .3:
        sga.lhs_derivative(p.elements[0], ctx)
    before = sga.dump(p)
    for t in p.elements:
        if t is not p.elements[0]:
            check(parse_inorder(t.inorder) == sga.nested(t), f'text {t.inorder!r} is not that of its tree')
    terms, w, X = sga.quiet(ev, copy.deepcopy(p.elements), ctx, True, return_matrix=True)
    w = np.asarray(w).reshape(-1)
    fitted = X is not None                       # no usable term: the candidate is not fitted
    d = sga.quiet(need(EQ, 'extract_equation_details'), p, ctx)
    check(sga.dump(p) == before, 'the candidate was changed while being reported')
    if not fitted:
        check(not d.terms and d.predicted_rhs is None, 'a candidate that could not be fitted reports terms')
        return
    check(len(w) == ctx.num_default + len(terms), 'number of coefficients')
    exp, names = [], [ctx.target_field] + [None] * len(terms)
    for i, c in enumerate(w):
        if abs(c) >= 1e-5:
            exp.append((float(c), leaf_den(names[i]) if i < ctx.num_default else tree_den(sga.nested(terms[i - ctx.num_default]))))
    got = [(t.coefficient, tree_den(sga.nested(t.tree)) if t.tree is not None else leaf_den(t.label)) for t in d.terms]
    check(got == exp, f'reported terms {got} instead of {exp}')
    check(all(t.tree is None or t.label == t.tree.inorder for t in d.terms), 'label of a term is not the text of its tree')
    check(d.predicted_rhs is not None and np.allclose(np.asarray(d.predicted_rhs).reshape(-1), (X @ w.reshape(-1, 1)).reshape(-1), equal_nan=True), 'predicted right-hand side is not that of the coefficients')
    tex = need(EQ, 'sga_equation_to_latex')(d, include_coefficients=coeffs, notation=notation)
    same_equation(tex, lhs_den(ctx), exp, coeffs)
    txt = sga.quiet(p.concise_visualize, ctx)
    parts, depth = [''], 0
    for q in re.split(r'( \+ |[()])', txt):
        depth += (q == '(') - (q == ')')
        if q == ' + ' and depth == 0:
            parts.append('')
        else:
            parts[-1] += q
    parts = [q for q in parts if q]
    want = [(i, float(np.real(c))) for i, c in enumerate(w) if abs(c) >= 1e-4]
    check(len(parts) == len(want), f'text {txt!r} has {len(parts)} terms for {len(want)}')
    for q, (i, c) in zip(parts, want):
        m = re.match(r'-?\d+(\.\d+)?(e[+-]?\d+)?', q)
        check(m is not None and abs(float(m.group()) - c) <= 5.1e-5 + 1e-9 * abs(c), f'coefficient {c} is printed as {q!r}')
        e = q[m.end():]
        if i < ctx.num_default:
            check(e == names[i], f'default term {names[i]} is printed as {e!r}')
        else:
            check(parse_inorder(e) == sga.nested(terms[i - ctx.num_default]), f'term {sga.nested(terms[i - ctx.num_default])} is printed as {e!r}')


def cases(tier, rng):
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        f = [case_latex, case_latex, case_fit][i % 3]
        yield C(f), dict(seed=s, notation=['subscript', 'leibniz'][i // 3 % 2], coeffs=rng.random() < .7), ('s', s)
        i += 1
