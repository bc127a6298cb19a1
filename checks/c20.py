"""C20: the LaTeX of a reinforcement-learning result denotes the discovered expression."""
import ast, builtins, itertools, math, random, re, types
import numpy as np
import sympy
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .c12 import C
from .textsym import Text, Blob
from .c19 import JIp, Parts, Joined, Whole, base_contracts, g_format

ID = 'C20'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded term trees over the operators of the library, coefficients, notations, expansion on/off, left-hand axes; the rendered text is read back by an independent LaTeX reader and compared with the tree on an explicit field; non-trivial when the texts are new'
NOTE = ('proved for all inputs: the call text of a node for every operator, sign/coefficient formatting, bracketing of a term behind its coefficient, '
        'the subscripts of a derivative for any differentiation order, the assembly of the equation (every term once, own coefficient times own factor) and the axes passed by the plotting adapter; '
        'SymPy parsing, differentiation and printing are trusted in the proofs and checked end to end by the bounded part')
LX = 'kd.viz.discover_eq2latex'
ST = 'kd.model.discover.stridge'
I = z3.IntSort()

UN = {'n2': lambda a: a ** 2, 'n3': lambda a: a ** 3, 'n4': lambda a: a ** 4, 'n5': lambda a: a ** 5, 'sigmoid': lambda a: 1 / (1 + sympy.exp(-a)),
      'expneg': lambda a: sympy.exp(-a), 'logabs': lambda a: sympy.log(sympy.Abs(a)), 'sin': sympy.sin, 'cos': sympy.cos, 'tan': sympy.tan, 'exp': sympy.exp,
      'log': sympy.log, 'sqrt': sympy.sqrt, 'abs': sympy.Abs, 'tanh': sympy.tanh}
BI = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b}
DIF = {'diff': 1, 'diff2': 2, 'diff3': 3, 'diff4': 4, 'Diff': 1, 'Diff2': 2, 'Diff_3': 1, 'Diff2_3': 2}
LAP = ('lap', 'lap_3')
TORCH = ['diff_t', 'diff2_t', 'diff3_t', 'diff4_t', 'lap_t', 'add_t', 'sub_t', 'mul_t', 'div_t', 'n2_t', 'n3_t']


class LowParts(Exception):
    pass


def read_call(s):
    """meaning of a call text; \\0i\\0 stands for an arbitrary sub-text, read as an operand of the lowest precedence"""
    src = re.sub('\0(\\d+)\0', r'_L\1 or _R\1', s)
    try:
        tree = ast.parse(src, mode='eval').body
    except SyntaxError:
        return None
    D = sympy.Function('Der')
    Lp = sympy.Function('Lap')

    def ev(e):
        if isinstance(e, ast.BoolOp):
            nm = [x.id if isinstance(x, ast.Name) else '' for x in e.values]
            if len(nm) == 2 and nm[0][:2] == '_L' and nm[1] == '_R' + nm[0][2:]:
                return sympy.Symbol('arg' + nm[0][2:], real=True)
            raise LowParts
        if isinstance(e, ast.Constant):
            return sympy.nsimplify(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -ev(e.operand)
        if isinstance(e, ast.BinOp):
            a, b = ev(e.left), ev(e.right)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b}[type(e.op)]()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            a = [ev(x) for x in e.args]
            f = e.func.id
            if f == 'Derivative':
                out = a[0]
                for v in a[1:]:
                    out = D(out, v)
                return out
            if f == 'laplacian':
                return Lp(*a)
            if f in ('Add', 'Mul', 'Pow', 'Abs', 'exp', 'log', 'sin', 'cos', 'tan', 'sqrt', 'abs', 'tanh'):
                return getattr(sympy, {'abs': 'Abs'}.get(f, f))(*a)
        raise LowParts
    return ev(tree)


def spec_op(op, args):
    D, Lp = sympy.Function('Der'), sympy.Function('Lap')
    b = op[:-2] if op.endswith('_t') else op
    if b in BI:
        return BI[b](*args)
    if b in UN:
        return UN[b](*args)
    if b in DIF:
        r = args[0]
        for _ in range(DIF[b]):
            r = D(r, args[1])
        return r
    return Lp(args[0])


def g_node(ctx):
    """call text of a node, for every operator and arbitrary texts of its children"""
    N = need(ST, 'Node')

    def run():
        c = cur()
        ops = list(BI) + list(UN) + list(DIF) + list(LAP) + TORCH + ['u1', 'x2', 'p3']
        op = ops[c.choose(len(ops))]
        b = op[:-2] if op.endswith('_t') else op
        leaf = op in ('u1', 'x2', 'p3')
        ar = 0 if leaf else 2 if b in BI or b in DIF else 1

        class Child:
            def __init__(self, i):
                self.i = i

            def to_sympy_string(self):
                return Text(Blob('bal', ('child', self.i)))
        n = N.__new__(N)
        n.val, n.token, n.symbol = op, None, 1
        n.children = [Child(i) for i in range(ar)]
        ip = JIp(ctx.session)
        base_contracts(ip)
        r = ip.call(N.to_sympy_string, n)
        if leaf:
            c.prove('node: a leaf is written by its own name', z3.BoolVal(r == op))
            return
        ps = r.flat() if isinstance(r, Text) else []
        s = ''.join(x if isinstance(x, str) else f'\0{x.den[1]}\0' for x in ps)
        try:
            got = read_call(s)
        except LowParts:
            got = None
        want = spec_op(op, [sympy.Symbol(f'arg{i}', real=True) for i in range(ar)])
        c.prove(f'node: the text of {op} denotes the operator applied to its own children in order', z3.BoolVal(got is not None and sympy.simplify(got - want) == 0))
        c.prove('node: the tree is not changed', z3.BoolVal(n.val == op and len(n.children) == ar))
    ctx.run(run)
    ctx.assume_note('the meaning of the operators Add, Mul, Pow, Derivative, exp, log, Abs, sin, ... in the call text is SymPy\'s')


def g_bracket(ctx):
    """a term behind its coefficient is one factor"""
    fn = need(LX, '_factor_latex')

    def run():
        c = cur()
        one = bool(c.choose(2))
        add = bool(c.choose(2))
        lead = z3.Real('numeric_factor')
        add_ = add and not one

        class E:
            is_Add = add_
            is_Mul = not add_

            def __eq__(self, o):
                if o == 1:
                    return one
                raise Unsupported('comparison of an expression')
            __hash__ = None

            def as_coeff_Mul(self):
                if add_:
                    c.assume(lead == 1)
                return wrap(lead), object()

            def as_coeff_mul(self):
                return wrap(lead), ()
        e = E()
        if one:
            c.assume(lead == 1)
        t = Text(Blob('base', 'latex'))
        ip = JIp(ctx.session)
        base_contracts(ip)
        ip.contracts[builtins.isinstance] = lambda ip_, x, k: (add_ if k is sympy.Add else False if isinstance(k, type) and issubclass(k, sympy.Basic) else isinstance(x, k)) if x is e else isinstance(x, k)
        r = ip.call(fn, e, t)
        ps = r.flat() if isinstance(r, Text) else []
        s = ''.join(x if isinstance(x, str) else '\0' for x in ps)
        plain, br = s == '\0', re.fullmatch(r'(\\left)?\(\0(\\right)?\)', s) is not None or s == r'\left(' + '\0' + r'\right)'
        c.prove('bracket: the text of the term is kept', z3.BoolVal(plain or br))
        if one:
            c.prove('bracket: the constant one stays recognisable', z3.BoolVal(plain))
        elif plain:
            c.prove('bracket: sums are bracketed behind a coefficient', z3.BoolVal(not add_))
            c.prove('bracket: terms with their own number or sign are bracketed behind a coefficient', lead == 1)
    ctx.run(run)
    ctx.assume_note('SymPy prints an expression that is neither a sum nor has a numeric factor as juxtaposed factors without leading sign or number')


def g_subscript(ctx):
    """subscripts of a derivative: each variable as often as it is differentiated, in order"""
    P = need(LX, '_SubscriptLatexPrinter')
    mod = need(LX)

    class Name(str):
        pass

    class Rep:
        def __init__(self, i, n):
            self.i, self.n = i, n

    def run():
        c = cur()
        m = z3.Int('variables')
        c.assume(m >= 1)
        CNT = z3.Function('times', I, I)
        kind = c.choose(3)

        class DispName:
            def __init__(self, i):
                self.i = i

            def __mul__(self, n):
                return Rep(self.i, lift(n))

            __rmul__ = __mul__

        class Var:
            def __init__(self, i):
                self.i = i
                self.name = ('name', i)

        class VC(SSeq):
            def __init__(self):
                SSeq.__init__(self, wrap(m), self.one)

            def one(self, k):
                k = z3.simplify(lift(k))
                c.assume(CNT(k) >= 1)
                return (Var(k), wrap(CNT(k)))

        class Display:
            def get(self, nm, d=None):
                if isinstance(nm, tuple):
                    return DispName(nm[1])
                return mod._SYMBOL_DISPLAY.get(nm, d)
        base = [sympy.Symbol('u1'), sympy.Function('u1')(*sympy.symbols('x1 x2 x3')), sympy.Symbol('u1') ** 2][kind]
        p1 = sympy.Symbol('p1')
        if kind == 0 and c.choose(2):
            base = p1
        expr = types.SimpleNamespace(args=(base, None), variable_count=VC(), expr=base)
        p = P()
        if hasattr(p, '_display'):
            p._display = Display()
        parts = []

        def new():
            x = Parts()
            parts.append(x)
            return x
        ip = JIp(ctx.session)
        base_contracts(ip)
        ip.fill = new
        if not hasattr(p, '_display'):
            raise Unsupported('display names')
        ip.contracts[P._print_Symbol] = lambda ip_, s, e: mod._SYMBOL_DISPLAY.get(e.name, e.name)
        ip.contracts[P._print] = lambda ip_, s, e: mod._SYMBOL_DISPLAY.get(e.name, e.name) if isinstance(e, sympy.Symbol) else Text(Blob('base', e))

        class L(LoopContract):
            modifies = ('subscript_parts',)

            def havoc(self, info, k):
                for x in parts:
                    x.n, x.last = k, None
                self.k = k

            def check(self, info, k, when):
                c.prove('subscript: every variable is visited', info.n == m)
                for x in parts:
                    c.prove('subscript: one entry per variable', x.n == k)
                if when == 'initiation':
                    return
                t = parts[0].last
                c.prove('subscript: the variable is repeated as often as it is differentiated', z3.And(t.i == self.k, t.n == CNT(self.k)) if isinstance(t, Rep) else z3.BoolVal(False))
        ip.pick = lambda fr, node: L()
        r = ip.call(P._print_Derivative, p, expr)
        ok = isinstance(r, Whole) and r.j.sep == '' and not r.j.repl and r.j.parts is parts[0] and r.post == '}'
        c.prove('subscript: all variables are in the subscript', z3.And(z3.BoolVal(ok), parts[0].n == m))
        pre = Text(*[x for x in r.pre]).flat() if ok else []
        s = ''.join(x if isinstance(x, str) else '\0' for x in pre)
        if kind < 2:
            nm = 'u' if base is not p1 else 'p_{1}'
            c.prove('subscript: the operand is the differentiated field', z3.BoolVal(s in ((f'{nm}_{{', f'{{{nm}}}_{{', f'({nm})_{{') if '_' not in nm else (f'{{{nm}}}_{{', f'({nm})_{{', f'\\left({nm}\\right)_{{'))))
        else:
            c.prove('subscript: a compound operand is bracketed', z3.BoolVal(re.fullmatch(r'\{?(\\left)?\(\0(\\right)?\)\}?_\{', s) is not None and [x for x in pre if not isinstance(x, str)][0].den is base))
    ctx.run(run)
    ctx.assume_note('variable_count of a SymPy derivative lists every differentiation variable with its order (at least one)')


def g_term(ctx):
    """one term: its own expression, expanded or not, in the chosen notation"""
    mod = need(LX)

    def run():
        c = cur()
        which, leib = c.choose(2), bool(c.choose(2))
        given = bool(c.choose(2))
        syms = object() if given else None

        class Node:
            def to_sympy_string(self):
                return 'CALL'
        parsed, expanded, factor = object(), object(), object()
        ip = JIp(ctx.session)
        base_contracts(ip)
        logs = []
        parse = getattr(mod, '_parse_term', None)
        if parse is None:
            raise Unsupported('parser of a term')

        def h_parse(ip_, s, symbols):
            want = syms if given else mod._LEIBNIZ_SYMBOLS_FOR_SYMPY if leib else mod.DEEPRL_SYMBOLS_FOR_SYMPY
            c.prove('term: the text of the own node is read with the symbols of the notation', z3.BoolVal(s == 'CALL' and symbols is want))
            return parsed
        ip.contracts[parse] = h_parse
        ip.contracts[mod._expand_first_order_compound_derivatives] = lambda ip_, e: (c.prove('term: the own expression is expanded', z3.BoolVal(e is parsed)), (factor, expanded))[1]

        class Printer:
            def __init__(self, k, kw):
                self.k, self.kw = k, kw

            def doprint(self, e):
                return ('latex', self.k, e, self.kw)
        axes = [None, ['t', 'y']][c.choose(2)]
        ip.contracts[mod._SubscriptLatexPrinter] = lambda ip_, *a, **k: Printer('subscript', k)
        ip.contracts[mod._LeibnizLatexPrinter] = lambda ip_, *a, **k: Printer('leibniz', k)
        ip.contracts[sympy.latex] = lambda ip_, e, **k: ('latex', 'plain', e, k)
        ip.contracts[mod._factor_latex] = lambda ip_, e, t: ('factor', e, t)
        fn = [mod._discover_term_node_to_latex_expanded, mod._discover_term_node_to_latex][which]
        kw = dict(notation='leibniz' if leib else 'subscript')
        if axes:
            kw['axis_names'] = axes
        r = ip.call(fn, Node(), syms, **kw)
        f, t = r if which == 0 else (factor, r)
        e = expanded if which == 0 else parsed
        ok = isinstance(t, tuple) and t[0] == 'factor' and t[1] is e and isinstance(t[2], tuple) and t[2][0] == 'latex' and t[2][2] is e
        c.prove('term: the printed expression is the own expression', z3.BoolVal(ok))
        c.prove('term: the numeric factor belongs to the printed expression', z3.BoolVal(f is factor))
        if ok:
            c.prove('term: the chosen notation is printed', z3.BoolVal(t[2][1] == ('leibniz' if leib else 'subscript')))
            if not leib:
                c.prove('term: the names of the axes reach the printer', z3.BoolVal((t[2][3].get('axis_names') or None) == axes))
    ctx.run(run)
    ctx.assume_note('_expand_first_order_compound_derivatives returns (factor, rest) with factor*rest equal to its argument (bounded: every rendered text is compared with its tree)')


def g_equation(ctx):
    """every discovered term once, in order, with its own coefficient times its own factor"""
    mod = need(LX)
    fn = need(LX, 'discover_program_to_latex')
    R = z3.RealSort()
    W, F = z3.Function('w', I, R), z3.Function('factor', I, R)

    class Num:
        def __init__(self, t):
            self.t = t

    class Term:
        def __init__(self, i):
            self.i = i

    def run():
        c = cur()
        n = z3.Int('terms')
        c.assume(n >= 0)

        class Seq(SSeq):
            def __init__(self, f):
                SSeq.__init__(self, wrap(n), lambda k: f(z3.simplify(lift(k))))

            def __bool__(self):
                return c.decide(n > 0)

            def symget(self, i):
                c.prove('equation: an existing term is read', z3.And(lift(i) >= 0, lift(i) < n))
                return self.elem(lift(i))
        w, ts = Seq(lambda k: wrap(W(k))), Seq(Term)
        prog = types.SimpleNamespace(w=w, STRidge=types.SimpleNamespace(terms=ts))
        notation = mod._VALID_NOTATIONS[c.choose(2)]
        expand = bool(c.choose(2))
        lhs = [None, 'y', 't'][c.choose(3)]
        ip = JIp(ctx.session)
        base_contracts(ip)
        parts = []

        def new():
            p = Parts()
            parts.append(p)
            return p
        ip.fill = new
        ip.contracts[builtins.float] = lambda ip_, x: x if isinstance(x, Sym) else float(x)
        syms = mod._LEIBNIZ_SYMBOLS_FOR_SYMPY if notation == 'leibniz' else mod.DEEPRL_SYMBOLS_FOR_SYMPY

        def h_exp(ip_, node, local_sympy_symbols=None, **k):
            c.prove('equation: term in the chosen notation', z3.BoolVal(k.get('notation', 'subscript') == notation and (local_sympy_symbols is None or local_sympy_symbols is syms)))
            return wrap(F(node.i)), ('expanded', node.i)

        def h_plain(ip_, node, local_sympy_symbols=None, **k):
            c.prove('equation: term in the chosen notation', z3.BoolVal(k.get('notation', 'subscript') == notation and (local_sympy_symbols is None or local_sympy_symbols is syms)))
            return ('plain', node.i)
        ip.contracts[mod._discover_term_node_to_latex_expanded] = h_exp
        ip.contracts[mod._discover_term_node_to_latex] = h_plain
        ip.contracts[mod._format_full_latex_term] = lambda ip_, v, b, first: ('term', lift(v), b, first)
        base = ip.contains
        ip.contains = lambda cc, x: False if isinstance(cc, tuple) and cc[:1] in (('expanded',), ('plain',)) else base(cc, x)

        class L(LoopContract):
            modifies = ('rhs_latex_full_terms',)

            def counters(self, info):
                return [x.target.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(info.entry.get(x.target.id), int)]

            def havoc(self, info, k):
                for p in parts:
                    p.n, p.last = k, None
                for nm in self.counters(info):
                    info.env[nm] = wrap(k)
                self.k = k

            def check(self, info, k, when):
                c.prove('equation: every term is visited', info.n == n)
                for p in parts:
                    c.prove('equation: one rendered term per discovered term', p.n == k)
                for nm in self.counters(info):
                    c.prove('equation: rendered terms are counted', lift(info.env[nm]) == k)
                if when == 'initiation':
                    return
                t = parts[0].last
                ok = isinstance(t, tuple) and t[0] == 'term' and isinstance(t[2], tuple)
                if not ok:
                    c.prove('equation: a rendered term is sign, coefficient, expression', z3.BoolVal(False))
                    return
                c.prove('equation: the rendered expression is the term of the same position', t[2][1] == self.k)
                c.prove('equation: the coefficient is the own coefficient times the factor taken out of the own term', t[1] == W(self.k) * (F(self.k) if t[2][0] == 'expanded' else z3.RealVal(1)))
                c.prove('equation: only the first term may drop its plus sign', lift_bool(t[3]) == (self.k == 0))
        ip.pick = lambda fr, node: L()
        kw = dict(notation=notation, expand_derivatives=expand)
        if lhs:
            kw['lhs_axis'] = lhs
        r = ip.call(fn, prog, **kw)
        if isinstance(r, str):
            c.prove('equation: an empty candidate is zero', n == 0)
            pre, post = r, '$'
            m = re.fullmatch(r'\$(\S+) = 0\$', r)
        else:
            ok = isinstance(r, Whole) and r.j.parts is parts[0] and r.j.sep == ' ' and all(x == ('  ', ' ') for x in r.j.repl)
            c.prove('equation: all rendered terms, separated by blanks, are the right-hand side', z3.And(z3.BoolVal(ok), parts[0].n == n))
            m = re.fullmatch(r'\$(\S+) = ', ''.join(map(str, r.pre))) if ok and r.post == '$' else None
        c.prove('equation: the left-hand side is the time derivative or the derivative along the given axis', z3.BoolVal(m is not None and m[1] in (f'u_{{{lhs or "t"}}}', f'u_{lhs or "t"}')))
    ctx.run(run)


def g_adapter(ctx):
    """the plotting adapter renders the best program along the axes of the fitted dataset"""
    mod = need('kd.viz._adapters.discover')
    A = need('kd.viz._adapters.discover', 'DiscoverVizAdapter')

    def run():
        c = cur()
        prog = object()
        ds = [None, types.SimpleNamespace(axis_order=['x', 't'], lhs_axis='t'), types.SimpleNamespace(axis_order=['x', 't'], lhs_axis='x'), types.SimpleNamespace(axis_order=['x', 'y', 't'], lhs_axis='y'), types.SimpleNamespace(axis_order=None, lhs_axis='t')][c.choose(5)]
        model = types.SimpleNamespace(dataset_=ds) if ds is not None else types.SimpleNamespace()
        notation = [None, 'leibniz', 'subscript'][c.choose(3)]
        ip = JIp(ctx.session)
        base_contracts(ip)
        ip.contracts[A._get_best_program] = lambda ip_, *a: prog
        got = []
        ip.contracts[mod.discover_program_to_latex] = lambda ip_, p, **k: (got.append((p, k)), 'LATEX')[1]
        drawn = []
        ip.contracts[mod.render_latex_to_image] = lambda ip_, *a, **k: drawn.append(a[0] if a else k.get('latex_str'))
        ip.contracts[A._resolve_output] = lambda ip_, *a, **k: ('dir', 'PATH')
        opts = {} if notation is None else {'notation': notation}
        r = ip.call(A._equation, A(), model, types.SimpleNamespace(options=opts))
        ok = len(got) == 1 and got[0][0] is prog
        c.prove('adapter: the best program is rendered', z3.BoolVal(ok))
        k = got[0][1] if ok else {}
        c.prove('adapter: in the requested notation', z3.BoolVal(k.get('notation', 'subscript') == (notation or 'subscript')))
        if ds is not None and ds.axis_order:
            sp = [a for a in ds.axis_order if a != ds.lhs_axis]
            c.prove('adapter: the left-hand side is the axis of the dataset', z3.BoolVal((k.get('lhs_axis') or 't') == ds.lhs_axis))
            c.prove('adapter: the coordinates are named after the other axes', z3.BoolVal((k.get('axis_names') or ['x', 'y', 'z'][:len(sp)]) == sp))
        c.prove('adapter: the drawn equation is the reported one', z3.BoolVal(drawn == ['LATEX'] and r.metadata.get('latex') == 'LATEX'))
    ctx.run(run)


def groups():
    return [('node text', g_node), ('coefficient', g_format), ('bracket', g_bracket), ('subscript', g_subscript), ('term', g_term), ('equation', g_equation), ('adapter', g_adapter)]


# ---- run-time contract -------------------------------------------------------------------------------------------------------

class Bad(Exception):
    pass


class LReader:
    """what a LaTeX formula denotes; leaves and derivatives through `sem`"""
    TOK = re.compile(r'\\[a-zA-Z]+|\d+\.\d+(?:e[+-]?\d+)?|\d+|[a-zA-Z]|[\^_{}()+\-|,]|\s+|\\.|.')

    def __init__(self, text, sem):
        self.t = [x for x in self.TOK.findall(text) if not x.isspace() and x not in ('\\left', '\\right', '\\cdot', '\\,')]
        self.i, self.sem, self.text = 0, sem, text

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def take(self, x=None):
        y = self.peek()
        if x is not None and y != x or y == '':
            raise Bad(f'{x!r} expected, {y!r} found at {self.i} in {self.text}')
        self.i += 1
        return y

    def group(self):
        if self.peek() == '{':
            self.take()
            r = self.sum()
            self.take('}')
            return r
        x = self.take()
        return self.leaf(x)

    def raw(self):
        """text of a {...} group or of one token"""
        if self.peek() != '{':
            return self.take()
        self.take('{')
        d, out = 1, ''
        while True:
            x = self.take()
            d += (x == '{') - (x == '}')
            if not d:
                return out
            out += x

    def leaf(self, x):
        if re.fullmatch(r'\d+(\.\d+)?(e[+-]?\d+)?', x):
            return sympy.Rational(x)
        return self.sem.leaf(x)

    def sum(self, end=('}', ')', '|', ',', '')):
        sign = 1
        if self.peek() in '+-' and self.peek():
            sign = -1 if self.take() == '-' else 1
        r = sign * self.prod()
        while self.peek() in ('+', '-'):
            s = self.take()
            r = r + self.prod() if s == '+' else r - self.prod()
        return r

    def prod(self):
        r = None
        while self.peek() not in ('+', '-', '}', ')', '|', ',', ''):
            f = self.factor()
            r = f if r is None else r * f
        if r is None:
            raise Bad(f'empty product at {self.i} in {self.text}')
        return r

    FN = {'\\sin': sympy.sin, '\\cos': sympy.cos, '\\tan': sympy.tan, '\\log': sympy.log, '\\tanh': sympy.tanh}

    def factor(self):
        x = self.peek()
        if x == '\\frac' and self.peek(2) in ('\\partial', 'd') or x == '\\frac' and self.peek(1) == '{' and self.peek(2) in ('\\partial', 'd'):
            return self.operator()
        if x == '\\nabla':
            self.take()
            self.take('^')
            if self.raw() != '2':
                raise Bad('nabla')
            return self.sem.lap(self.factor())
        if x in self.FN:
            self.take()
            p = self.group() if self.peek() == '^' and self.take() else None
            r = self.FN[x](self.arg())
            return r if p is None else r ** p
        if x == '\\frac':
            self.take()
            a = self.group()
            return a / self.group()
        if x == '\\sqrt':
            self.take()
            return sympy.sqrt(self.group())
        if x == 'e' and self.peek(1) == '^':
            self.take()
            self.take()
            return sympy.exp(self.group())
        name = None
        if x == '|':
            self.take()
            b = self.sum()
            self.take('|')
            b = sympy.Abs(b)
        elif x == '(':
            self.take()
            b = self.sum()
            self.take(')')
        elif x == '{':
            b = self.group()
        else:
            name = self.take()
            b = None
        if name is not None and re.fullmatch(r'\d.*', name):
            b, name = self.leaf(name), None
        if name is not None and self.peek() == '_' and (self.peek(1).isdigit() or self.peek(1) == '{' and self.peek(2).isdigit()):
            self.take()
            name += '_' + self.raw()
        if name is not None:
            b = self.sem.leaf(name)
        if self.peek() == '_':
            self.take()
            for v in self.sem.split(self.raw()):
                b = self.sem.der(b, v)
        if self.peek() == '^':
            self.take()
            b = b ** self.group()
        if self.peek() == '{' and self.peek(1) == '(':      # u_{1}{\left(x_1, x_2, x_3 \right)}
            i = self.i
            if not self.args3():
                self.i = i
        return b

    def args3(self):
        try:
            self.take('{')
            self.take('(')
            n = 1
            self.sum()
            while self.peek() == ',':
                self.take()
                self.sum()
                n += 1
            self.take(')')
            self.take('}')
            return n == 3
        except Bad:
            return False

    def arg(self):
        br = self.peek() == '{'
        if br:
            self.take()
        self.take('(')
        r = self.sum()
        self.take(')')
        if br:
            self.take('}')
        return r

    def operator(self):
        self.take('\\frac')
        top, den = self.raw(), self.raw()
        vs = []
        for m in re.finditer(r'(?:\\partial|d)(x_\{(\d)\}|x_(\d)|[xyz])(?:\^\{(\d+)\})?', den.replace(' ', '')):
            vs += [m[1]] * int(m[4] or 1)
        m = re.fullmatch(r'(?:\\partial|d)(?:\^\{?(\d+)\}?)?', top.replace(' ', ''))
        if m is None or int(m[1] or 1) != len(vs):
            raise Bad(f'order of {top}/{den}')
        r = self.factor()
        for v in vs:
            r = self.sem.der(r, re.sub(r'[{}]', '', v))
        return r


class Sem:
    """explicit field and parameters of (x, y, z)"""

    def __init__(self, dim, axes=None):
        self.X = sympy.symbols('X Y Z', real=True)
        X, Y, Z = self.X
        self.dim = dim
        self.field = {'u': 2 + sympy.sin(X) * sympy.cos(Y) + X * Z / 7 + Y ** 2 / 9, 'p_1': 3 + X * Y / 5 + sympy.cos(Z + X), 'p_2': 2 + sympy.sin(Y * X) / 3, 'p_3': 1 + Z * X / 3 + Y, 'p_4': 3 + sympy.sin(X + 2 * Y), 'u_2': 3 - sympy.cos(X + Y / 2)}
        self.field['u_1'] = self.field['u']
        self.axes = dict(zip(axes or ['x', 'y', 'z'], self.X))
        for i in range(3):
            self.axes[f'x_{i + 1}'] = self.X[i]

    def leaf(self, x):
        if x in self.axes:
            return self.axes[x]
        if x in self.field:
            return self.field[x]
        raise Bad(f'unknown symbol {x}')

    def split(self, s):
        names = sorted(self.axes, key=len, reverse=True)
        out = []
        while s:
            for n in names:
                if s.startswith(n):
                    out.append(n)
                    s = s[len(n):]
                    break
            else:
                raise Bad(f'subscript {s}')
        return out

    def der(self, b, v):
        if v not in self.axes:
            raise Bad(f'derivative along {v}')
        return sympy.diff(b, self.axes[v])

    def lap(self, b):
        return sum(sympy.diff(b, v, 2) for v in self.X[:self.dim])


def tree(rng, d, dim, sub=True):
    """random node tree; sub: no operators whose derivative SymPy leaves unevaluated"""
    N = need(ST, 'Node')
    r = rng.random()

    def leaf():
        return N(rng.choice(['u1', 'u1', 'u1', f'x{rng.randrange(1, dim + 1)}', 'p1', 'p2', 'p4', 'u2']))
    if d == 0 or r < .15:
        return leaf()
    if r < .55:
        op = rng.choice(['add', 'sub', 'mul', 'mul', 'div', 'mul_t', 'sub_t'])
        ch = [tree(rng, d - 1, dim), tree(rng, d - 1, dim)]
    elif r < .7:
        op = rng.choice(['n2', 'n3', 'n2', 'sin', 'cos', 'sigmoid', 'expneg', 'n2_t'])
        ch = [tree(rng, d - 1, dim)]
    elif r < .93 or not dim > 1:
        op = rng.choice(['diff', 'diff2', 'diff3', 'diff_t', 'diff2_t'] if dim == 1 else ['Diff', 'Diff2'] if dim == 2 else ['Diff_3', 'Diff2_3'])
        ch = [tree(rng, d - 1, dim), N(f'x{rng.randrange(1, dim + 1)}')]
    else:
        op = {2: 'lap', 3: 'lap_3'}[dim] if rng.random() < .7 else 'lap_t'
        ch = [tree(rng, d - 1, dim)]
    n = N(op)
    n.children = ch
    return n


def denote(n, sem):
    if not n.children:
        m = re.fullmatch(r'([a-z])(\d)', n.val)
        return sem.X[int(m[2]) - 1] if m[1] == 'x' else sem.field['u' if n.val == 'u1' else f'{m[1]}_{m[2]}']
    b = n.val[:-2] if n.val.endswith('_t') else n.val
    a = [denote(x, sem) for x in n.children]
    if b in DIF:
        return sympy.diff(a[0], a[1], DIF[b])
    if b in LAP:
        return sem.lap(a[0])
    return BI[b](*a) if b in BI else UN[b](*a)


PTS = [(.37, .81, .53), (1.13, .42, .91), (.71, 1.29, .23)]


def value(e, sem, pt):
    v = sympy.lambdify(sem.X, e, 'mpmath')(*pt) if not sympy.sympify(e).is_number else e
    return complex(v)


def case_render(seed):
    rng = random.Random(seed)
    mod = need(LX)
    dim = rng.choice([1, 1, 2, 3])
    depth = rng.choice([1, 2, 2, 3])
    ts = [tree(rng, depth if rng.random() < .8 else 1, dim) for _ in range(rng.randrange(1, 4))]
    # a first-order derivative of a compound term is what the expansion acts on
    if rng.random() < .4:
        N = need(ST, 'Node')
        n = N({1: 'diff', 2: 'Diff', 3: 'Diff_3'}[dim])
        n.children = [tree(rng, 2, dim), N(f'x{rng.randrange(1, dim + 1)}')]
        ts[0] = n
    w = [rng.choice([rng.uniform(-3, 3), rng.gauss(0, 50), 1., -1., .5, -.25]) for _ in ts]
    axes = rng.choice([None, None, ['t', 'y', 'z'], ['y', 'x', 'w']])
    lhs = rng.choice([None, 't', 'x', 'y'])
    notation = rng.choice(['subscript', 'leibniz'])
    sem = Sem(dim, axes[:dim] if axes and notation == 'subscript' else None)
    den = [denote(t, sem) for t in ts]
    if any(sympy.sympify(d).has(sympy.zoo, sympy.nan, sympy.oo) for d in den):
        return                                        # divides by a term that is identically zero
    for expand in (True, False):
        reprs = [repr(t) for t in ts]
        kw = dict(axis_names=axes[:dim]) if axes else {}
        s = mod.discover_program_to_latex(types.SimpleNamespace(w=np.array(w), STRidge=types.SimpleNamespace(terms=ts)), lhs_axis=lhs, notation=notation, expand_derivatives=expand, **kw)
        check(reprs == [repr(t) for t in ts], 'rendering changed the terms')
        m = re.fullmatch(r'\$(\S+) = (.*)\$', s, re.S)
        check(m is not None and m[1] in (f'u_{{{lhs or "t"}}}', f'u_{lhs or "t"}'), f'left-hand side of {s}')
        try:
            rd = LReader(m[2], sem)
            got = rd.sum()
            check(rd.i == len(rd.t), f'not a sum of products: {m[2]} (rest {rd.t[rd.i:]})')
        except Bad as e:
            raise Fail(f'the text {s} for {reprs} does not read as a formula: {e}')
        try:
            for pt in PTS:
                vs = [value(d, sem, pt) for d in den]
                want = sum(a * v for a, v in zip(w, vs))
                g = value(got, sem, pt)
                if not all(map(lambda z: math.isfinite(abs(z)) and abs(z) < 1e9, vs + [g])) :
                    if all(math.isfinite(abs(z)) and abs(z) < 1e6 for z in vs):
                        check(math.isfinite(abs(g)), f'{s} for {reprs} is {g} at {pt}')
                    continue
                # coefficients are printed with four decimals; a common factor was taken out before rounding
                tol = sum(4e-4 * (abs(v) + 1e-6) for v in vs) + 1e-7 * (abs(want) + sum(abs(a * v) for a, v in zip(w, vs)))
                check(abs(g - want) <= tol, f'{s} for {[f"{a} * {r}" for a, r in zip(w, reprs)]}: {g} instead of {want} at {pt}')
        except (ZeroDivisionError, OverflowError, TypeError):
            continue


def cases(tier, rng):
    while True:
        s = rng.randrange(10 ** 8)
        yield C(case_render), dict(seed=s), s
