"""C19: the rendered equation of the deep-learning genetic search matches its genome."""
import ast, builtins, collections, re, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .c12 import C
from .textsym import Text, Blob, Ip as TextIp

ID = 'C19'
LEVEL = 'proof'
BUDGET = {'quick': 30, 'thorough': 600}
RULE = 'seeded genomes, operator lists, coefficient vectors (vanishing, unit, tiny, huge, negative) for both estimators; non-trivial when the genome is new'
EQ = 'kd.viz.dlga_eq2latex'
DL, KDL = 'kd.model.dlga', 'kd.model.kd_dlga'
I, R = z3.IntSort(), z3.RealSort()
OPS = ['u', 'u_x', 'u_t', 'u_xx', 'u_xxx', 'u_tt']
OLD = ['u', 'ux', 'uxx', 'uxxx', 'ut', 'utt']
HALF = z3.Q(1, 20000)


def denote_name(nm):
    """field and differentiation variables of an operator name"""
    m = re.fullmatch(r'([a-z])_?([xt]*)', nm)
    return (m[1], m[2]) if m else nm


def denote_latex(s):
    m = re.fullmatch(r'([a-z])(?:_([a-z])|_\{([a-z]+)\})?', s)
    return (m[1], m[2] or m[3] or '') if m else s


class Ip(TextIp):
    fill = None
    pick = staticmethod(lambda fr, node: None)

    def loop_template(self, fr, node):
        return self.pick(fr, node)

    def e_List(self, e, fr):
        if not e.elts and self.fill is not None:
            return self.fill()
        return Interp.e_List(self, e, fr)

    def getitem(self, o, i):
        if hasattr(o, 'symget'):
            return o.symget(i)
        return TextIp.getitem(self, o, i)


def base_contracts(ip):
    ip.contracts[builtins.print] = lambda ip_, *a, **k: None
    ip.contracts[len] = lambda ip_, x: x.__symlen__() if hasattr(x, '__symlen__') else wrap(lift(x.length())) if isinstance(x, SSeq) else len(x)


class Parts:
    """list of rendered pieces: how many, and the last one"""
    __slots__ = ('n', 'last', 'nm')

    def __init__(self, nm='parts'):
        self.n, self.last, self.nm = z3.IntVal(0), None, nm

    def append(self, v):
        self.n, self.last = z3.simplify(self.n + 1), v

    def __symlen__(self):
        return wrap(self.n)

    def __bool__(self):
        return cur().decide(self.n > 0)


class Joined:
    """separator.join(parts)"""

    def __init__(self, sep, parts, repl=()):
        self.sep, self.parts, self.repl = sep, parts, repl

    def replace(self, a, b):
        return Joined(self.sep, self.parts, self.repl + ((a, b),))

    def strip(self):
        return self

    def __radd__(self, o):
        return Whole(o, self, '')

    def __bool__(self):
        return cur().decide(self.parts.n > 0)


class Whole:
    def __init__(self, pre, j, post):
        self.pre, self.j, self.post = pre, j, post


class JIp(Ip):
    def join(self, sep, parts):
        if isinstance(parts, Parts):
            return Joined(sep, parts)
        raise Unsupported('join')

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            out.append(v.value if hasattr(v, 'value') and isinstance(v.value, str) else self.eval(v.value, fr) if isinstance(v, ast.FormattedValue) and v.format_spec is None else self.eval(v, fr))
        js = [x for x in out if isinstance(x, Joined)]
        if js:
            if len(js) != 1:
                raise Unsupported('two joined texts')
            i = next(k for k, x in enumerate(out) if x is js[0])
            return Whole(out[:i], js[0], ''.join(out[i + 1:]))
        return TextIp.e_JoinedStr(self, e, fr)

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, Joined):
            return v
        return TextIp.e_FormattedValue(self, e, fr)

    def e_BinOp(self, e, fr):
        if isinstance(e.op, ast.Add):
            a, b = self.eval(e.left, fr), self.eval(e.right, fr)
            if isinstance(b, Joined):
                return Whole([a], b, '')
            return self.binop_values(e, a, b, fr) if hasattr(self, 'binop_values') else TextIp.e_BinOp(self, e, fr)
        return TextIp.e_BinOp(self, e, fr)


def g_module(ctx):
    """one term: every gene that occurs, once, by its operator name, with the number of its occurrences as power"""
    mod = need(EQ)
    fn = need(EQ, '_module_to_latex_base_term')

    def run():
        c = cur()
        m, lib = z3.Int('distinct'), z3.Int('operators')
        c.assume(z3.And(m >= 1, lib >= 1))
        Gn, CNT = z3.Function('gene', I, I), z3.Function('count', I, I)
        now = types.SimpleNamespace(name=None, gene=None)
        style = mod.DEFAULT_LATEX_STYLE_MAP
        pool = [x for x in dict.fromkeys(OPS + OLD + ['q'])]

        class Keys(SSeq):
            def __init__(self, order):
                self.order = order
                SSeq.__init__(self, wrap(m), self.one)

            def one(self, k):
                if not self.order:
                    raise Unsupported('genes in no particular order')
                c.assume(z3.And(Gn(k) >= 0, Gn(k) < lib, CNT(Gn(k)) >= 1))
                return wrap(Gn(k))

        class Counts:
            def keys(self):
                return Keys(False)

            def items(self):
                raise Unsupported('items')

            def symget(self, g):
                return wrap(CNT(lift(g)))

        class Names:
            def __symlen__(self):
                return wrap(lib)

            def symget(self, g):
                c.prove('term: the operator list is indexed inside', z3.And(lift(g) >= 0, lift(g) < lib))
                now.gene = lift(g)
                if now.name is None:
                    now.name = pool[c.choose(len(pool))]
                return now.name

        class Module:
            def __bool__(self):
                return True
        module = Module()
        parts = []

        def new():
            p = Parts()
            parts.append(p)
            return p
        ip = JIp(ctx.session)
        base_contracts(ip)
        ip.fill = new
        ip.contracts[collections.Counter] = lambda ip_, x: Counts() if x is module else collections.Counter(x)
        ip.contracts[builtins.sorted] = lambda ip_, x, **k: Keys(True) if isinstance(x, (Keys, Counts)) else sorted(x, **k)
        names = Names()

        class L(LoopContract):
            modifies = ('latex_parts',)

            def havoc(self, info, k):
                for p in parts:
                    p.n, p.last = k, None
                now.k = k
                now.name = None

            def check(self, info, k, when):
                c.prove('term: every distinct gene is visited', info.n == m)
                for p in parts:
                    c.prove('term: one factor per distinct gene', p.n == k)
                if when == 'initiation':
                    return
                t = parts[0].last
                g = Gn(now.k)
                c.prove('term: the factor is looked up for its own gene', now.gene == g if now.gene is not None else z3.BoolVal(False))
                ps = t.flat() if isinstance(t, Text) else [t]
                s = ''.join(x if isinstance(x, str) else '\0' for x in ps)
                bl = [x for x in ps if not isinstance(x, str)]
                if not bl:
                    c.prove('term: a gene that occurs once has no power', CNT(g) == 1)
                    base = s
                else:
                    mm = re.fullmatch(r'(.*)\^\{\0\}', s)
                    okp = mm is not None and len(bl) == 1 and bl[0].kind == 'num'
                    c.prove('term: the power is the number of occurrences', lift(bl[0].den[0]) == CNT(g) if okp else z3.BoolVal(False))
                    base = mm[1] if mm else s
                c.prove('term: the factor is the derivative its operator names', z3.BoolVal(denote_latex(base) == denote_name(now.name)))
        ip.pick = lambda fr, node: L()
        r = ip.call(fn, module, names, style)
        c.prove('term: the factors are joined by blanks', z3.BoolVal(isinstance(r, Joined) and r.sep == ' ' and not r.repl and r.parts is parts[0]))
        c.prove('term: no factor is left out', parts[0].n == m)
    ctx.run(run)
    ctx.assume_note('collections.Counter counts the elements; genes name existing operators (C18)')


def read_coeff(c, t, base):
    """(sign sum, coefficient interval) of a formatted term: returns (sep, value term, tolerance)"""
    ps = t.flat() if isinstance(t, Text) else [t]
    items = []
    for p in ps:
        items += list(p) if isinstance(p, str) else [p]
    i, sign, sep = 0, 1, None
    if items[:2] in (['-', ' '], ['+', ' ']):
        sep = items[0]
        sign = -1 if sep == '-' else 1
        i = 2
    rest = items[i:]
    if rest and isinstance(rest[-1], Blob) and rest[-1] is base:
        body, hasbase = rest[:-1], True
        if body:
            if body[-1] != ' ':
                return None
            body = body[:-1]
    else:
        body, hasbase = rest, False
    if not body:
        val, tol = z3.RealVal(1), z3.RealVal(0)
    elif len(body) == 1 and isinstance(body[0], Blob) and body[0].kind == 'num':
        v, spec = body[0].den
        m = re.fullmatch(r'\.(\d+)f', spec)
        if not m:
            return None
        val, tol = lift(v), z3.Q(1, 2 * 10 ** int(m[1]))
        cur().prove('coefficient: no sign inside the number', val >= 0)
    elif all(isinstance(x, str) for x in body) and re.fullmatch(r'\d+\.\d+', ''.join(body)):
        val, tol = z3.RealVal(''.join(body)), z3.RealVal(0)
    else:
        return None
    return sep, sign * val, tol, hasbase


def g_format(ctx):
    """coefficient and sign of a term, for every real coefficient"""
    fn = need(EQ, '_format_full_latex_term')

    def run():
        c = cur()
        co = Real('coefficient')
        first = bool(c.choose(2))
        const = bool(c.choose(2))
        b = Blob('base', 'base')
        base = '1' if const else Text(b)

        class BT(Text):
            def __eq__(self, o):
                if o == '1':
                    return False
                return Text.__eq__(self, o)
            __hash__ = None
        if not const:
            base = BT(b)
        ip = JIp(ctx.session)
        base_contracts(ip)
        ab = lambda t: z3.If(t < 0, -t, t)

        def isclose(ip_, x, y, rtol=1e-5, atol=1e-8):
            x, y = lift(x), lift(y)
            return wrap(ab(x - y) <= z3.RealVal(repr(atol)) + z3.RealVal(repr(rtol)) * ab(y))
        ip.contracts[np.isclose] = isclose
        ip.contracts[builtins.abs] = lambda ip_, x: wrap(ab(lift(x)))
        r = ip.call(fn, co, base, first)
        x = read_coeff(c, r, b)
        c.prove('coefficient: the term reads as sign, number, expression', z3.BoolVal(x is not None))
        if x is None:
            return
        sep, val, tol, hasbase = x
        c.prove('coefficient: the expression is kept', z3.BoolVal(hasbase != const))
        c.prove('coefficient: the printed value is the coefficient, rounded to four decimals', ab(val - co.t) <= HALF)
        c.prove('coefficient: the sign separates it from the term before', z3.BoolVal(first or sep is not None))
    ctx.run(run)
    ctx.assume_note('format(x, ".4f") is the nearest number with four decimals', 'np.isclose by its documented formula, real arithmetic')


def g_equation(ctx):
    """all terms in order, each with its own coefficient; left-hand side; operator list passed on"""
    mod = need(EQ)
    fn = need(EQ, 'chromosome_to_latex')
    top = need(EQ, 'dlga_eq2latex')

    class Coeffs:
        def __init__(self, n):
            self.n, self.size, self.shape = n, wrap(n), (wrap(n), 1)

        def __symlen__(self):
            return wrap(self.n)

        def symget(self, i):
            if isinstance(i, tuple) and i[1] == 0:
                cur().prove('equation: an existing coefficient is read', z3.And(lift(i[0]) >= 0, lift(i[0]) < self.n))
                return Coef(lift(i[0]))
            raise Unsupported('coefficient')

    class Coef:
        def __init__(self, i):
            self.i = i

    def run():
        c = cur()
        n = z3.Int('terms')
        c.assume(n >= 1)

        class Mod_:
            def __init__(self, i):
                self.i = i

        class Ch(SSeq):
            def __init__(self):
                SSeq.__init__(self, wrap(n), lambda k: Mod_(lift(k)))

            def __bool__(self):
                return True
        ch, co = Ch(), Coeffs(n)
        ip = JIp(ctx.session)
        base_contracts(ip)
        names, style = object(), mod.DEFAULT_LATEX_STYLE_MAP
        which = c.choose(2)
        lhs = (['ut', 'utt', 'u_t', 'u_tt'])[c.choose(4)]
        if which == 1:
            given = [None, ['u', 'u_x']][c.choose(2)]
            got = []

            def inner(ip_, *a, **k):
                ps = list(__import__('inspect').signature(fn).bind(*a, **k).arguments.items())
                got.append(dict(ps))
                return 'LATEX'
            ip.contracts[fn] = inner

            class P(LoopContract):
                def havoc(self, info, k):
                    pass

                def check(self, info, k, when):
                    pass
            ip.pick = lambda fr, node: P()
            base = ip.comp
            ip.comp = lambda e, fr, ctor: Blob('parts', 'x') if isinstance(ip.eval(e.generators[0].iter, fr), Mod_) else base(e, fr, ctor)
            ip.join = lambda sep, x: 'text'

            class Rows(Coeffs, SSeq):
                def __init__(self):
                    Coeffs.__init__(self, n)
                    SSeq.__init__(self, wrap(n), lambda k: [Real(fresh_name('coef'))])
            co2 = Rows()
            r = ip.call(top, ch, co2, lhs, given)
            ok = len(got) == 1 and got[0].get('chromosome') is ch and got[0].get('coefficients') is co2 and got[0].get('lhs_name_str') == lhs
            c.prove('equation: the genome, its coefficients and its left-hand side are rendered', z3.BoolVal(ok and r == 'LATEX'))
            used = got[0].get('dlga_term_names', mod.DLGA_INTERNAL_TERM_NAMES) if got else None
            c.prove('equation: genes are named from the operator list actually used', z3.BoolVal(used is given if given is not None else list(used) == OLD))
            c.prove('equation: the standard notation is used', z3.BoolVal(bool(got) and got[0].get('latex_style_map', style) == style))
            return
        parts = []

        def new():
            p = Parts()
            parts.append(p)
            return p
        ip.fill = new
        ip.contracts[mod._module_to_latex_base_term] = lambda ip_, m, nm, st: (c.prove('equation: operator list and notation are passed on', z3.BoolVal(nm is names and st is style)), ('base', m.i))[1]
        ip.contracts[mod._format_full_latex_term] = lambda ip_, v, b, first: ('term', v, b, first)

        class L(LoopContract):
            modifies = ('rhs_latex_full_terms',)

            def havoc(self, info, k):
                for p in parts:
                    p.n, p.last = k, None
                for nm, v in info.entry.items():
                    if isinstance(v, int) and not isinstance(v, bool) and nm in ('processed_terms_count',) or nm in self.counters(info):
                        info.env[nm] = wrap(k)
                self.k = k

            def counters(self, info):
                return [x.target.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)]

            def check(self, info, k, when):
                c.prove('equation: every term is visited', info.n == n)
                for p in parts:
                    c.prove('equation: one rendered term per term of the genome', p.n == k)
                for nm in self.counters(info):
                    c.prove('equation: rendered terms are counted', lift(info.env[nm]) == k)
                if when == 'initiation':
                    return
                t = parts[0].last
                ok = isinstance(t, tuple) and t[0] == 'term' and isinstance(t[1], Coef) and isinstance(t[2], tuple) and t[2][0] == 'base'
                c.prove('equation: the rendered term has its own factors and its own coefficient', z3.And(t[1].i == self.k, t[2][1] == self.k) if ok else z3.BoolVal(False))
                c.prove('equation: only the first term may drop its plus sign', z3.BoolVal(t[3]) == (self.k == 0) if ok and isinstance(t[3], bool) else lift_bool(t[3]) == (self.k == 0) if ok else z3.BoolVal(False))
        ip.pick = lambda fr, node: L()
        r = ip.call(fn, ch, co, lhs, names, style)
        ok = isinstance(r, Whole) and r.j.parts is parts[0] and r.j.sep == ' ' and all(x == ('  ', ' ') for x in r.j.repl)
        c.prove('equation: all rendered terms, separated by blanks, are the right-hand side', z3.And(z3.BoolVal(ok), parts[0].n == n))
        pre = ''.join(map(str, r.pre)) if ok else ''
        m = re.fullmatch(r'\$(\S+) = ', pre)
        c.prove('equation: the chosen left-hand side is on the left', z3.BoolVal(ok and m is not None and r.post == '$' and denote_latex(m[1]) == denote_name(lhs)))
    ctx.run(run)


class Tok:
    """piece of the text equation"""

    def __init__(self, kind, i, j=None):
        self.kind, self.i, self.j = kind, i, j


def g_text(ctx):
    """text form (KD_DLGA)"""
    K = need(KDL, 'KD_DLGA')

    def run():
        c = cur()
        n = z3.Int('terms')
        c.assume(n >= 1)
        lib = z3.Int('operators')
        LEN, Gn = z3.Function('genes', I, I), z3.Function('gene', I, I, I)

        class Names:
            def __symlen__(self):
                return wrap(lib)

            def symget(self, g):
                c.prove('text: the operator list is indexed inside', z3.And(lift(g) >= 0, lift(g) < lib))
                return Tok('name', lift(g))

        class Module(SSeq):
            def __init__(self, i):
                self.i = i
                SSeq.__init__(self, wrap(LEN(i)), lambda j: wrap(Gn(i, lift(j))))

        class Ch(SSeq):
            def __init__(self):
                SSeq.__init__(self, wrap(n), lambda k: Module(z3.simplify(lift(k))))

            def __bool__(self):
                return True

        class Coeffs:
            shape = (wrap(n), 1)

            def __symlen__(self):
                return wrap(n)

            def symget(self, i):
                if isinstance(i, tuple) and i[1] == 0:
                    c.prove('text: an existing coefficient is read', z3.And(lift(i[0]) >= 0, lift(i[0]) < n))
                    return Tok('coef', lift(i[0]))
                raise Unsupported('coefficient')

        class Prod:
            """'*'.join(names of all genes of module i)"""

            def __init__(self, i):
                self.i = i

            def __bool__(self):
                return True

        class TIp(JIp):
            def comp(self, e, fr, ctor):
                it = self.eval(e.generators[0].iter, fr)
                if isinstance(it, Module) and len(e.generators) == 1:
                    j = z3.Int(fresh_name('j'))
                    c.assume(z3.And(j >= 0, j < LEN(it.i), Gn(it.i, j) >= 0, Gn(it.i, j) < lib))
                    f2 = self.subframe(fr)
                    self.assign(e.generators[0].target, it.elem(j), f2)
                    keep = all(self.truth(self.eval(t, f2)) for t in e.generators[0].ifs)
                    v = self.eval(e.elt, f2)
                    c.prove('text: no gene is left out', z3.BoolVal(keep))
                    c.prove('text: a gene is written by its operator name', v.i == Gn(it.i, j) if isinstance(v, Tok) and v.kind == 'name' else z3.BoolVal(False))
                    return types.SimpleNamespace(names=it.i)
                return JIp.comp(self, e, fr, ctor)

            def join(self, sep, x):
                if hasattr(x, 'names'):
                    c.prove('text: factors are multiplied', z3.BoolVal(sep == '*'))
                    return Prod(x.names)
                return JIp.join(self, sep, x)

            def e_FormattedValue(self, e, fr):
                v = self.eval(e.value, fr)
                if isinstance(v, (Prod, Tok)):
                    return Text(Blob('piece', v))
                return JIp.e_FormattedValue(self, e, fr)
        s = K.__new__(K)
        s.user_operators = Names()
        parts = []

        def new():
            p = Parts()
            parts.append(p)
            return p
        ip = TIp(ctx.session)
        base_contracts(ip)
        ip.fill = new
        ip.contracts[np.round] = lambda ip_, v, d=0: Tok('rounded', v.i, d) if isinstance(v, Tok) and v.kind == 'coef' else bad()
        ip.contracts[builtins.round] = ip.contracts[np.round]
        ip.contracts[builtins.str] = lambda ip_, v: v if isinstance(v, Tok) else str(v)

        def bad():
            raise Unsupported('rounding')

        class L(LoopContract):
            modifies = ('string',)

            def havoc(self, info, k):
                for p in parts:
                    p.n, p.last = k, None
                c.assume_axiom(LEN(k) >= 1)
                self.k = k

            def check(self, info, k, when):
                c.prove('text: every term is visited', info.n == n)
                for p in parts:
                    c.prove('text: one piece per term', p.n == k)
                if when == 'initiation':
                    return
                t = parts[0].last
                ps = t.flat() if isinstance(t, Text) else []
                ok = len(ps) == 3 and ps[1] == '*' and isinstance(ps[0], Blob) and isinstance(ps[2], Blob) and isinstance(ps[0].den, Tok) and ps[0].den.kind == 'rounded' and ps[0].den.j >= 4 and isinstance(ps[2].den, Prod)
                c.prove('text: a term is its own coefficient times its own factors', z3.And(ps[0].den.i == self.k, ps[2].den.i == self.k) if ok else z3.BoolVal(False))
        ip.pick = lambda fr, node: L()
        lhs = ['u_t', 'u_tt'][c.choose(2)]
        r = ip.call(K.convert_chrom_to_eq, s, Ch(), lhs, Coeffs())
        ok = isinstance(r, Whole) and r.j.sep == '+' and set(r.j.repl) <= {('+-', '-')} and r.j.parts is parts[0] and ''.join(r.pre) == f'{lhs}=' and r.post == ''
        c.prove('text: left-hand side = sum of all terms', z3.And(z3.BoolVal(ok), parts[0].n == n))
    ctx.run(run)
    ctx.assume_note('replacing "+-" by "-" keeps the meaning of the sum (no number or operator name contains "+-")')


def groups():
    return [('term', g_module), ('coefficient', g_format), ('equation', g_equation), ('text form', g_text)]


# ---- run-time contract -------------------------------------------------------------------------------------------------------

def read_latex(s):
    """(lhs, [(coefficient, Counter of factors)])"""
    m = re.fullmatch(r'\$(\S+) = (.*)\$', s, re.S)
    check(m is not None, f'not an equation: {s}')
    toks = m[2].split(' ')
    out, sign, co, fac, first = [], None, None, None, True
    i = 0
    while i < len(toks):
        sign = 1
        if toks[i] in '+-':
            sign = -1 if toks[i] == '-' else 1
            i += 1
        else:
            check(first, f'two terms without a sign in between: {s}')
        first = False
        co = 1.
        fac = collections.Counter()
        if i < len(toks) and re.fullmatch(r'\d+\.\d+', toks[i]):
            co = float(toks[i])
            i += 1
        while i < len(toks) and toks[i] not in ('+', '-'):
            f = re.fullmatch(r'(.+?)(?:\^\{(\d+)\})?', toks[i])
            d = denote_latex(f[1])
            check(isinstance(d, tuple), f'factor {toks[i]} of {s}')
            check(d not in fac, f'factor {toks[i]} twice in a term of {s}')
            fac[d] += int(f[2] or 1)
            i += 1
        out.append((sign * co, fac))
    return denote_latex(m[1]), out


def read_plain(s):
    lhs, _, rhs = s.partition('=')
    out = []
    for t in re.findall(r'(?:^|[+-])(?:[^+-]|(?<=e)[+-])+|$', rhs.replace('+-', '-')):
        if not t:
            continue
        ps = t.lstrip('+').split('*')
        try:
            co = float(ps[0])
        except ValueError:
            raise Fail(f'coefficient {ps[0]} in {s}')
        out.append((co, collections.Counter(denote_name(x) for x in ps[1:])))
    return denote_name(lhs), out


def same(got, names, genome, co, lhs, s):
    check(got[0] == denote_name(lhs), f'left-hand side of {s}')
    check(len(got[1]) == len(genome), f'{len(got[1])} terms for {genome}: {s}')
    for (v, f), t, x in zip(got[1], genome, co[:, 0]):
        check(f == collections.Counter(denote_name(names[i]) for i in t), f'term {[names[i] for i in t]} is rendered as {dict(f)} in {s}')
        check(abs(v - x) <= 5.001e-5 + 1e-9 * abs(x), f'coefficient {x} is rendered as {v} in {s}')


def genome(rng, n):
    out = []
    for _ in range(rng.randrange(1, 6)):
        t = sorted(rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3, 5])))
        if t not in out:
            out.append(t)
    return out


def coeffs(rng, n):
    return np.array([[rng.choice([rng.uniform(-2, 2), rng.gauss(0, 100), 0., 1., -1., 1e-9, -1e-6, .99999, -1.00001, 5e-5, 1e-5, -.5, 12345.678])] for _ in range(n)])


def case_render(seed, which):
    import contextlib, io, random
    rng = random.Random(seed)
    mod = need(EQ)
    if which == 0:
        names, given = OLD, None
        lhs = rng.choice(['ut', 'utt', 'u_t', 'u_tt'])
    else:
        names = given = rng.sample(OPS, rng.randrange(1, 7))
        lhs = rng.choice(['u_t', 'u_tt'])
    g = genome(rng, 4 if which == 0 else len(names))
    co = coeffs(rng, len(g))
    g0, c0, n0 = [list(t) for t in g], co.copy(), list(names)
    with contextlib.redirect_stdout(io.StringIO()):
        s = mod.dlga_eq2latex(g, co, lhs, given) if given else mod.dlga_eq2latex(chromosome=g, coefficients=co, lhs_name_str=lhs)
        same(read_latex(s), names, g, co, lhs, s)
        if which == 0:
            D = need(DL, 'DLGA')
            m = D.__new__(D)
            t = D.convert_chrom_to_eq(m, g, lhs, co)
        else:
            K = need(KDL, 'KD_DLGA')
            m = K(operators=names, epi=0., input_dim=2, max_iter=1, verbose=False)
            t = m.convert_chrom_to_eq(g, lhs, co)
        same(read_plain(t), names, g, co, lhs, t)
    check(g == g0 and np.array_equal(co, c0) and list(names) == n0, 'rendering changed its input')


def case_model(seed):
    """the equation of a model after its search, and through the plotting adapter"""
    import contextlib, io, random, os, tempfile
    from .c18 import build
    rng = random.Random(seed)
    random.seed(seed)
    np.random.seed(seed % 2 ** 31)
    m, names, cols = build(rng, 1, 6, False)
    old = os.getcwd()
    m.train_NN = lambda X, y: (m.Net, 1)
    m.generate_meta_data = lambda X: m.Theta
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        os.chdir(d)
        try:
            m.fit(np.zeros((4, 2)), np.zeros((4, 1)))
        finally:
            os.chdir(old)
    same(read_latex(m.eq_latex), names, m.Chrom[0], m.coef[0], m.name[0], m.eq_latex)
    ad = need('kd.viz._adapters.dlga')
    seen = []
    keep = ad.render_latex_to_image
    ad.render_latex_to_image = lambda latex, **k: seen.append(latex)
    try:
        with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
            k = rng.randrange(len(m.coef))
            from pathlib import Path
            r = ad.DLGAVizAdapter().render(types.SimpleNamespace(target=m, kind='equation'), types.SimpleNamespace(options={'solution_index': k, 'output_dir': d}, backend=None, save_dir=lambda *a: Path(d), output_dir=Path(d), ensure_dir=lambda *a: Path(d)))
    except AttributeError:
        return
    finally:
        ad.render_latex_to_image = keep
    if seen:
        same(read_latex(seen[0]), names, m.Chrom[k], m.coef[k], m.name[k], seen[0])


def cases(tier, rng):
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        if i % 10 == 0:
            yield C(case_model), dict(seed=s), ('m', s)
        else:
            yield C(case_render), dict(seed=s, which=i % 2), ('r', s)
        i += 1
