"""Formula texts made of literal pieces and arbitrary sub-texts, and the reader that says what expression a formula text denotes.

A Text is a tuple of pieces: literal str, or Blob - an arbitrary sub-text of which only its shape is known:
  sym   one symbol (letters, digits, leading backslash); no brackets, blanks, signs, ^ or _
  bal   any text with balanced brackets that is a complete expression (content of a bracket pair)
  expr  any rendered expression; its shape is chosen when the code looks at it (`shape` gives the possible shapes)
  subs  the content of a subscript: one or more differentiation variables
  num   a printed number
The reader works on the characters of ordinary strings too, so the run-time part and the proofs use the same meaning of a text."""
import re
from pyvc.core import *
from pyvc.interp import Interp


class Blob:
    def __init__(self, kind, den, shape=None):
        self.kind, self.den, self.shape, self.exp, self.flags = kind, den, shape, None, {}

    def __repr__(self):
        return f'<{self.kind}:{self.den}>'


class Pos:
    """position of a character: piece number and offset; +-k inside the piece"""

    def __init__(self, text, k, off):
        self.text, self.k, self.off = text, k, off

    def key(self):
        return self.k, self.off

    def __add__(self, n):
        if n == 0:
            return self
        if not isinstance(self.off, int):
            raise Unsupported('position after a character of an arbitrary text')
        p = self.text.flat()[self.k]
        o = self.off + n
        if isinstance(p, str) and 0 <= o < len(p):
            return Pos(self.text, self.k, o)
        if isinstance(p, str) and o == len(p):
            return Pos(self.text, self.k + 1, 0)
        if o < 0:
            raise Unsupported('position before the piece')
        raise Unsupported('position far after a character')

    __radd__ = __add__

    def __sub__(self, n):
        return self + (-n)

    def __eq__(self, o):
        if isinstance(o, Pos):
            return self.key() == o.key()
        if isinstance(o, End):
            return o == self
        if isinstance(o, int):
            if o < 0:
                return False
            if o == 0:
                return self.key() == (0, 0)
            raise Unsupported('position compared with a number')
        return NotImplemented

    __hash__ = None

    def __lt__(self, o):
        if isinstance(o, int) and o <= 0:
            return False
        if isinstance(o, Pos) and isinstance(self.off, int) and isinstance(o.off, int):
            return self.key() < o.key()
        raise Unsupported('order of positions')

    def __gt__(self, o):
        if isinstance(o, int) and o < 0:
            return True
        if isinstance(o, int) and o == 0:
            return not self == 0
        if isinstance(o, Pos) and isinstance(self.off, int) and isinstance(o.off, int):
            return self.key() > o.key()
        raise Unsupported('order of positions')

    def __ge__(self, o):
        return not self < o


class End:
    """length of a text minus n"""

    def __init__(self, text, n=0):
        self.text, self.n = text, n

    def __sub__(self, n):
        return End(self.text, self.n + n)

    def __eq__(self, o):
        p = self.text.flat()
        if isinstance(o, Pos):
            if o.text is not self.text and o.text.flat() != p:
                raise Unsupported('positions of two texts')
            if self.n == 1 and not isinstance(p[-1], str) and o.k == len(p) - 1 and not isinstance(o.off, int):
                return bool(cur().choose(2))          # somewhere in the last arbitrary part
            if self.n == 1:
                return isinstance(p[-1], str) and o.key() == (len(p) - 1, len(p[-1]) - 1)
            if self.n == 0:
                return o.key() in ((len(p), 0), (len(p) - 1, len(p[-1]) if isinstance(p[-1], str) else 'end'))
            raise Unsupported('position from the end')
        if isinstance(o, int):
            if self.n == 0:
                ln = self.text.length_is(o)
                return ln
        if isinstance(o, int) and o < 0 and self.n <= 1:
            return False
        raise Unsupported('length compared')

    __hash__ = None


class Text:
    def __init__(self, *pieces):
        out = []
        for p in pieces:
            for q in (p.pieces if isinstance(p, Text) else [p]):
                if isinstance(q, str) and not q:
                    continue
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        self.pieces = out

    def flat(self, force=False):
        """pieces with the arbitrary expressions replaced by the shapes chosen so far (force: choose now)"""
        out, again = [], True
        todo = list(self.pieces)
        while todo:
            p = todo.pop(0)
            if isinstance(p, Blob) and p.exp is None and force and p.shape is not None:
                p.exp = p.shape(p)
            if isinstance(p, Blob) and p.exp is not None:
                todo[:0] = p.exp
                continue
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        return out

    def look(self):
        self.flat(True)
        return self.flat()

    def __add__(self, o):
        return Text(self, o)

    def __radd__(self, o):
        return Text(o, self)

    def __mul__(self, n):
        return Text(*([self] * n))

    def __bool__(self):
        return bool(self.pieces)

    def __eq__(self, o):
        if isinstance(o, Text) and o.pieces == self.pieces:
            return True
        if isinstance(o, str):
            p = self.flat()
            if all(isinstance(x, str) for x in p):
                return ''.join(p) == o
            if len(p) == 1 and p[0].flags.get('text') is not None:
                return p[0].flags['text'] == o
            if len(p) == 1 and p[0].kind in ('expr', 'sym'):
                f = p[0].flags.setdefault('is', {})
                if any(f.values()):
                    return f.get(o, False)
                if o not in f:
                    f[o] = p[0].kind == 'expr' and (o == '' and False or re.fullmatch('[01]', o) is not None and bool(cur().choose(2)))
                return f[o]
            p = self.look()
            if any(isinstance(x, str) and x not in o for x in p):
                return False
        raise Unsupported('comparison of an arbitrary text')

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def length_is(self, n):
        p = self.look()
        if len(p) == 1 and isinstance(p[0], Blob) and p[0].kind == 'sym' and n == 1:
            f = p[0].flags
            if 'one' not in f:
                f['one'] = bool(cur().choose(2))
            return f['one']
        fixed = sum(len(x) if isinstance(x, str) else 1 for x in p)
        if n < fixed:
            return False
        raise Unsupported('length of an arbitrary text')

    def startswith(self, s):
        p = self.look()
        if not p:
            return s == ''
        if isinstance(p[0], str):
            if len(p[0]) >= len(s) or not s.startswith(p[0]):
                return p[0].startswith(s)
            raise Unsupported('startswith across pieces')
        if p[0].kind == 'sym' and (s[0] in '(){}^_ +-' or re.match(r'\\frac|\\partial', s)):
            return False
        raise Unsupported(f'startswith {s!r} of an arbitrary text')

    def endswith(self, s):
        p = self.look()
        if not p:
            return s == ''
        if isinstance(p[-1], str):
            if len(p[-1]) >= len(s) or not s.endswith(p[-1]):
                return p[-1].endswith(s)
            raise Unsupported('endswith across pieces')
        if p[-1].kind == 'sym' and s[-1] in '(){}^_ +-':
            return False
        if p[-1].kind == 'expr' and len(s) == 1:
            f = p[-1].flags.setdefault('ends', {})
            if s not in f:
                f[s] = not any(f.values()) and bool(cur().choose(2))
            return f[s]
        raise Unsupported(f'endswith {s!r} of an arbitrary text')

    def find(self, s, start=0):
        p = self.look()
        k0, o0 = (0, 0) if isinstance(start, int) and start == 0 else start.key() if isinstance(start, Pos) else (None, None)
        if k0 is None:
            raise Unsupported('find from this position')
        for k in range(k0, len(p)):
            x = p[k]
            if isinstance(x, str):
                i = x.find(s, o0 if k == k0 else 0)
                if i >= 0:
                    return Pos(self, k, i)
            elif x.kind in ('sym', 'digit'):
                if not set(s) & set('(){}^_ +-'):
                    raise Unsupported('find in an arbitrary symbol')
            else:
                if cur().choose(2):                   # somewhere in the arbitrary text
                    return Pos(self, k, 'in')
        return -1

    def rfind(self, s):
        p = self.look()
        for k in reversed(range(len(p))):
            x = p[k]
            if isinstance(x, str):
                i = x.rfind(s)
                if i >= 0:
                    return Pos(self, k, i)
            elif x.kind in ('sym', 'digit'):
                if not set(s) & set('(){}^_ +-'):
                    raise Unsupported('rfind in an arbitrary symbol')
            elif cur().choose(2):
                return Pos(self, k, 'in')
        return -1

    def __symcontains__(self, s):
        p = self.look()
        if any(isinstance(x, str) and s in x for x in p):
            return True
        bl = [x for x in p if isinstance(x, Blob) and not (x.kind in ('sym', 'digit') and set(s) & set('(){}^_ +-'))]
        if not bl:
            return False
        f = bl[0].flags.setdefault('has', {})          # one of them contains it, or none
        k = (s, tuple(map(id, bl)))
        if k not in f:
            f[k] = bool(cur().choose(2))
        return f[k]

    def slice(self, a, b):
        p = self.look()

        def key(v, dflt):
            if v is None or isinstance(v, int) and v == 0 and dflt == (0, 0):
                return dflt
            if isinstance(v, Pos):
                return v.key()
            if isinstance(v, End) and v.n == 0:
                return len(p), 0
            if isinstance(v, End) and v.n == 1 and isinstance(p[-1], str):
                return len(p) - 1, len(p[-1]) - 1
            if isinstance(v, int) and v > 0 and isinstance(p[0], str) and v <= len(p[0]):
                return 0, v
            if isinstance(v, int) and v < 0 and isinstance(p[-1], str) and -v <= len(p[-1]):
                return len(p) - 1, len(p[-1]) + v
            raise Unsupported('slice bound')
        (ka, oa), (kb, ob) = key(a, (0, 0)), key(b, (len(p), 0))
        out = []
        for k in range(ka, min(kb + 1, len(p))):
            x = p[k]
            if isinstance(x, str):
                lo, hi = (oa if k == ka else 0), (ob if k == kb else len(x))
                out.append(x[lo:hi])
            elif k == ka and oa != 0 or k == kb and ob != 0:
                out.append(Blob('part', ('part of', x)))
            elif k < kb:
                out.append(x)
        return Text(*out)

    def char(self, i):
        p = self.look()
        if isinstance(i, int) and i in (0, -1):
            x = p[0] if i == 0 else p[-1]
            if isinstance(x, str):
                return x[i]
        if isinstance(i, Pos) and isinstance(p[i.k], str):
            return p[i.k][i.off]
        raise Unsupported('character of an arbitrary text')

    def strip(self):
        p = self.flat()
        if isinstance(p[0], str) and p[0] != p[0].lstrip() or isinstance(p[-1], str) and p[-1] != p[-1].rstrip():
            raise Unsupported('strip')
        return self

    def __repr__(self):
        return 'Text' + repr(self.flat())


def closing(text, start):
    """position of the bracket that closes the one at start (-1: none)"""
    p = text.look()
    k0, o0 = (0, 0) if isinstance(start, int) and start == 0 else start.key()
    if not isinstance(o0, int):
        return Pos(text, k0, 'in')
    op = p[k0][o0]
    cl = {'{': '}', '(': ')'}[op]
    d = 0
    for k in range(k0, len(p)):
        x = p[k]
        if isinstance(x, str):
            for i in range(o0 if k == k0 else 0, len(x)):
                d += (x[i] == op) - (x[i] == cl)
                if d == 0:
                    return Pos(text, k, i)
        elif x.kind == 'part':
            raise Unsupported('brackets in a cut text')
    return -1


class Ip(Interp):
    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.contracts[len] = lambda ip_, x: End(x) if isinstance(x, Text) else x.__symlen__() if hasattr(x, '__symlen__') else len(x)
        self.contracts[max] = lambda ip_, *a: (a[0] if a[0] > a[1] else a[1]) if len(a) == 2 and any(isinstance(x, Pos) for x in a) else max(*a)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            out.append(v.value if hasattr(v, 'value') and isinstance(v.value, str) else self.eval(v, fr))
        if any(not isinstance(x, str) for x in out):
            return Text(*[x if isinstance(x, (str, Text)) else str(x) for x in out])
        return ''.join(out)

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        spec = self.eval(e.format_spec, fr) if e.format_spec else ''
        if isinstance(v, Text):
            if spec:
                raise Unsupported('format of a text')
            return v
        if isinstance(v, Sym) or hasattr(v, 'printed'):
            return Text(Blob('num', (v, spec)))
        return format(v, spec)

    def getitem(self, o, i):
        if isinstance(o, Text):
            return o.slice(i.start, i.stop) if isinstance(i, slice) else o.char(i)
        return Interp.getitem(self, o, i)

    join = None

    def e_Call(self, e, fr):
        import ast
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and len(e.args[0].generators) == 1 and fr.lookup(e.func.id) in (any, all):
            g, want = e.args[0].generators[0], e.func.id == 'any'
            it = self.eval(g.iter, fr)
            if isinstance(it, (str, list, tuple)):
                f2 = self.subframe(fr)
                for v in it:
                    self.assign(g.target, v, f2)
                    if all(self.truth(self.eval(t, f2)) for t in g.ifs) and self.truth(self.eval(e.args[0].elt, f2)) is want:
                        return want
                return not want
        return Interp.e_Call(self, e, fr)

    def call_value(self, f, args, kw):
        sep = getattr(f, '__self__', None)
        if isinstance(sep, str) and getattr(f, '__name__', '') == 'join' and len(args) == 1:
            if self.join is not None and not isinstance(args[0], (list, tuple)):
                return self.join(sep, args[0])
            if isinstance(args[0], (list, tuple)) and any(isinstance(x, Text) for x in args[0]):
                out = []
                for i, x in enumerate(args[0]):
                    out += ([sep] if i else []) + [x]
                return Text(*out)
        return Interp.call_value(self, f, args, kw)

    def contains(self, c, x):
        if isinstance(x, Text) and isinstance(c, (set, frozenset, list, tuple, dict)):
            return any(x == y for y in sorted(c, key=str))
        return Interp.contains(self, c, x)


# ---- reader ---------------------------------------------------------------------------------------------------------------

class BadText(Exception):
    pass


def prod(fs):
    out = []
    for f in fs:
        out += list(f[1]) if f[0] == '*' else [f]
    return out[0] if len(out) == 1 else ('*', tuple(out))


def der(b, subs):
    return ('d', b[1], b[2] + tuple(subs)) if b[0] == 'd' else ('d', b, tuple(subs))


SYM = re.compile(r'\\?[A-Za-z](?:[A-Za-z0-9]|\\_)*|0')


class Reader:
    """reads one formula; items are characters or Blobs"""

    def __init__(self, text):
        self.s = []
        for p in (text.flat() if isinstance(text, Text) else [text]):
            self.s += list(p) if isinstance(p, str) else [p]
        self.i = 0

    def at(self, lit):
        return all(self.i + j < len(self.s) and self.s[self.i + j] == ch for j, ch in enumerate(lit))

    def take(self, lit):
        if self.at(lit):
            self.i += len(lit)
            return True
        return False

    def must(self, lit):
        if not self.take(lit):
            raise BadText(f'{lit!r} expected at {self.i} in {self.show()}')

    def show(self):
        return ''.join(map(str, self.s))

    def end(self):
        return self.i >= len(self.s)

    def symbol(self):
        if self.end():
            raise BadText(f'symbol expected at the end of {self.show()}')
        x = self.s[self.i]
        if isinstance(x, Blob):
            if x.kind != 'sym':
                raise BadText(f'symbol expected, {x} found')
            self.i += 1
            return x.den
        j = self.i
        run = ''
        while j < len(self.s) and isinstance(self.s[j], str):
            run += self.s[j]
            j += 1
        m = SYM.match(run)
        if not m:
            raise BadText(f'symbol expected at {self.i} in {self.show()}')
        self.i += m.end()
        return ('var', m.group().lstrip('\\').replace('\\_', '_'))

    def subs(self):
        """content of a subscript up to the closing brace"""
        out = []
        while not self.at('}'):
            if self.end():
                raise BadText('subscript not closed')
            x = self.s[self.i]
            if isinstance(x, Blob) and x.kind == 'subs':
                self.i += 1
                out += [x.den]
            elif isinstance(x, Blob):
                if x.kind != 'sym' or not x.flags.get('one'):
                    raise BadText(f'subscript with {x}')
                self.i += 1
                out.append(x.den)
            elif self.take('{'):
                if not self.at('\\') and not isinstance(self.s[self.i], Blob) and self.s[self.i].isdigit():
                    nm = ''
                    while not self.at('}'):
                        nm += self.s[self.i]
                        self.i += 1
                    out.append(('var', nm))
                else:
                    out.append(self.symbol())
                self.must('}')
            elif x.isalnum():
                self.i += 1
                out.append(('var', x))
            else:
                raise BadText(f'subscript with {x!r} in {self.show()}')
        self.must('}')
        if not out:
            raise BadText('empty subscript')
        return out

    def factor(self):
        if self.end():
            raise BadText(f'factor expected at the end of {self.show()}')
        x = self.s[self.i]
        if isinstance(x, Blob) and x.kind in ('expr', 'factor'):
            self.i += 1
            if not (self.end() or self.s[self.i] in (' ', ')', '}')):
                raise BadText(f'{x} followed by {self.s[self.i]}')
            if x.kind == 'expr' and self.partial:
                raise BadText(f'{x} differentiated without grouping')
            return x.den
        if self.take('('):
            y = self.s[self.i]
            if isinstance(y, Blob) and y.kind == 'bal':
                self.i += 1
                b = y.den
            else:
                p, self.partial = self.partial, False
                b = self.sum()
                self.partial = p
            self.must(')')
        elif self.take('\\frac{'):
            p, self.partial = self.partial, False
            if self.at('\\partial'):
                self.must('\\partial')
                n = 2 if self.take('^{2}') else 1
                self.must(' ')
                self.partial = True
                f = self.factor()
                self.partial = False
                self.must('}{\\partial ')
                if isinstance(self.s[self.i], Blob):
                    v = self.symbol()
                else:
                    v = self.factor() if not self.at('{') else None
                    if v[0] == '^2':
                        if n != 2:
                            raise BadText('order of numerator and denominator differ')
                        self.must('}')
                        self.partial = p
                        return der(f, [v[1]] * 2)
                if n == 2:
                    self.must('^{2}')
                self.must('}')
                self.partial = p
                if v[0] not in ('var', 'sym'):
                    raise BadText(f'derivative with respect to {v}')
                return der(f, [v] * n)
            a = self.content()
            self.must('}{')
            b = self.content()
            self.must('}')
            self.partial = p
            if self.at('_') or self.at('^'):
                raise BadText('subscript or power on a fraction')
            return ('/', a, b)
        else:
            b = self.symbol()
        if self.take('_{'):
            b = der(b, self.subs())
            if self.at('_'):
                raise BadText(f'double subscript in {self.show()}')
        if self.take('^{'):
            n = self.s[self.i]
            if not (self.at('2') or self.at('3') or isinstance(n, Blob) and n.kind == 'digit'):
                raise BadText(f'power in {self.show()}')
            self.i += 1
            self.must('}')
            b = ('^' + n, b) if isinstance(n, str) else ('^', n.den, b)
            if self.at('^') or self.at('_'):
                raise BadText(f'power or subscript after a power in {self.show()}')
        return b

    partial = False

    def content(self):
        y = self.s[self.i] if not self.end() else None
        if isinstance(y, Blob) and y.kind == 'bal':
            self.i += 1
            return y.den
        return self.sum()

    def prod(self):
        fs = [self.factor()]
        while self.take(' \\cdot '):
            fs.append(self.factor())
        return prod(fs)

    def sum(self):
        a = self.prod()
        while self.at(' + ') or self.at(' - '):
            op = self.s[self.i + 1]
            self.i += 3
            a = (op, a, self.prod())
        return a

    def number(self):
        if not self.end() and isinstance(self.s[self.i], Blob) and self.s[self.i].kind == 'num':
            self.i += 1
            return self.s[self.i - 1].den
        run = ''
        j = self.i
        while j < len(self.s) and isinstance(self.s[j], str):
            run += self.s[j]
            j += 1
        m = re.match(r'(\d+(\.\d*)?(e[+-]?\d+)?|inf|nan)(?=\\,| (?!\\cdot)|$)', run)
        if not m:
            return None
        self.i += m.end()
        return float(m.group(1))


def read_term(text):
    """what a rendered term (product level) denotes"""
    r = Reader(text)
    d = r.prod()
    if not r.end():
        raise BadText(f'left over at {r.i} in {r.show()}')
    return d


def read_equation(text):
    """(left-hand side, [(coefficient, denoted expression or None)])"""
    lhs, _, rhs = text.partition(' = ')
    r, out = Reader(rhs), []
    neg = r.take('- ')
    if rhs == '0':
        return lhs, []
    while True:
        c = r.number()
        e = None
        if c is None or r.take('\\,'):
            c, e = (1.0 if c is None else c), r.prod()
        out.append((-c if neg else c, e))
        if r.end():
            return lhs, out
        neg = r.at(' - ')
        if not neg:
            r.must(' + ')
        else:
            r.i += 3
