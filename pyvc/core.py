"""Path manager, symbolic scalars, obligations and back ends."""
import sys, time, numbers, itertools, fractions, os
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

z3.set_param('smt.random_seed', 0)


class Unsupported(Exception):
    """The code left the supported subset: undecided, never a violation."""


class PathEnd(BaseException):
    """The current symbolic path is finished (loop cut, infeasible assumption)."""


class PyRaise(Exception):
    """The program under analysis raised (exception object, possibly symbolic message)."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


_counter = itertools.count()


def fresh_name(base='v'):
    return f'{base}!{next(_counter)}'


# --------------------------------------------------------------------------- symbolic scalars
def is_sym(x):
    return isinstance(x, Sym)


def lift(x):
    """Python/numpy scalar or Sym -> z3 term."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x).__module__ == 'numpy':
        x = x.item()
        return lift(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x:
            raise Unsupported('nan constant')
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else -INF
        return z3.RealVal(str(fractions.Fraction(x).limit_denominator(10**12))
                          if abs(x) < 1e6 and fractions.Fraction(x).limit_denominator(10**12) == fractions.Fraction(repr(x))
                          else str(fractions.Fraction(repr(x))))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    raise Unsupported(f'cannot lift {type(x).__name__}')


INF = z3.Real('INF')      # assumed > every bound used; only sign/identity is ever relied on


def wrap(t):
    if isinstance(t, Sym):
        return t
    if not isinstance(t, z3.ExprRef):
        return t
    if z3.is_bool(t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    if z3.is_real(t):
        return SReal(t)
    raise Unsupported(f'wrap {t.sort()}')


def num2(a, b):
    a, b = lift(a), lift(b)
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(a) and z3.is_real(b):
        a = z3.ToReal(a)
    if z3.is_real(a) and z3.is_int(b):
        b = z3.ToReal(b)
    return a, b


def _bin(f, swap=False):
    def op(self, other):
        from . import arrays
        if isinstance(other, arrays.SArr):
            return NotImplemented
        try:
            a, b = num2(self, other)
        except Unsupported:
            return NotImplemented
        if swap:
            a, b = b, a
        return wrap(f(a, b))
    return op


def _ediv(a, b):
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    c = cur()
    if c is not None and not (z3.is_rational_value(b) and b.as_fraction() != 0):
        if c.div_mode == 'fork':
            if c.decide(b == 0):
                raise PyRaise(ZeroDivisionError('division by zero'))
    return a / b


def _floordiv(a, b):
    if z3.is_int(a) and z3.is_int(b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(a / b))


def _mod(a, b):
    if z3.is_int(a) and z3.is_int(b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return a % b
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    raise Unsupported('real modulo')


def _pow(a, b):
    b = z3.simplify(b)
    if z3.is_int_value(b) or (z3.is_rational_value(b) and b.denominator_as_long() == 1):
        n = b.as_long() if z3.is_int_value(b) else b.numerator_as_long()
        if 0 <= n <= 8:
            r = z3.RealVal(1) if z3.is_real(a) else z3.IntVal(1)
            for _ in range(n):
                r = r * a
            return r
        if -8 <= n < 0:
            r = z3.RealVal(1)
            for _ in range(-n):
                r = r * (z3.ToReal(a) if z3.is_int(a) else a)
            return 1 / r
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    if z3.is_rational_value(b) and str(b.as_fraction()) == '1/2':
        return ssqrt(a)
    return uf('pow', 2)(a, b)


_UF = {}


def uf(name, n, out='real'):
    k = (name, n, out)
    if k not in _UF:
        R = z3.RealSort()
        _UF[k] = z3.Function('uf_' + name, *([R] * n), {'real': R, 'bool': z3.BoolSort(), 'int': z3.IntSort()}[out])
    return _UF[k]


def ssqrt(a):
    """sqrt with its defining axiom instantiated on the argument."""
    r = uf('sqrt', 1)(a)
    c = cur()
    if c is not None:
        c.assume_axiom(z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)))
    return r


class Sym:
    __array_ufunc__ = None
    __array_priority__ = 1000
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f'<{type(self).__name__} {str(self.t)[:120]}>'

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _bin(lambda a, b: a + b, True)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: a - b, True)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _bin(lambda a, b: a * b, True)
    __truediv__ = _bin(_ediv)
    __rtruediv__ = _bin(_ediv, True)
    __floordiv__ = _bin(_floordiv)
    __rfloordiv__ = _bin(_floordiv, True)
    __mod__ = _bin(_mod)
    __rmod__ = _bin(_mod, True)
    __pow__ = _bin(_pow)
    __rpow__ = _bin(_pow, True)
    __lt__ = _bin(lambda a, b: a < b)
    __le__ = _bin(lambda a, b: a <= b)
    __gt__ = _bin(lambda a, b: a > b)
    __ge__ = _bin(lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        try:
            a, b = num2(self, o) if not (isinstance(self, SBool) and isinstance(o, (bool, SBool))) else (self.t, lift(o))
        except Unsupported:
            return NotImplemented
        return wrap(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return snot(r)

    def __neg__(self):
        return wrap(-lift_num(self))

    def __pos__(self):
        return self

    def __abs__(self):
        a = lift_num(self)
        return wrap(z3.If(a >= 0, a, -a))

    def __bool__(self):
        t = self.t
        if not z3.is_bool(t):
            t = t != 0
        return cur_or_fail().decide(t)

    def item(self):
        return self

    # float()/int()/len()/index() of a symbolic value cannot be represented by CPython
    def __float__(self):
        raise Unsupported('float() of symbolic value by native code')

    def __int__(self):
        raise Unsupported('int() of symbolic value by native code')

    def __index__(self):
        raise Unsupported('index() of symbolic value by native code')

    def __format__(self, spec):
        return cur_or_fail().fmt_token(self, spec)

    def __str__(self):
        return cur_or_fail().fmt_token(self, 'str')

    def astype(self, *_a, **_k):
        return self


def lift_num(x):
    a = lift(x)
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    return a


class SInt(Sym):
    __slots__ = ()


class SReal(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()

    def __and__(self, o):
        return wrap(z3.And(self.t, lift_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.t, lift_bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.t))


class SOpt(Sym):
    """None-or-int value: t is the int, isnone the flag."""
    __slots__ = ('isnone',)

    def __init__(self, isnone, t):
        super().__init__(t)
        self.isnone = isnone


def lift_bool(x):
    t = lift(x)
    if not z3.is_bool(t):
        t = t != 0
    return t


def snot(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, SBool):
        return wrap(z3.simplify(z3.Not(x.t)))
    return not x


def ite(c, a, b):
    c = lift_bool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b = lift(a), lift(b)
    if a.sort() != b.sort():
        a, b = num2(a, b)
    return wrap(z3.If(c, a, b))


def Int(name):
    return SInt(z3.Int(name))


def Real(name):
    return SReal(z3.Real(name))


def Bool(name):
    return SBool(z3.Bool(name))


def fresh_int(base='i'):
    return SInt(z3.Int(fresh_name(base)))


def fresh_real(base='x'):
    return SReal(z3.Real(fresh_name(base)))


def fresh_bool(base='b'):
    return SBool(z3.Bool(fresh_name(base)))


# --------------------------------------------------------------------------- obligations
class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'detail', 'formula', 'pc', 'havoc', 'reachable')

    def __init__(self, name):
        self.name = name
        self.status = 'open'     # discharged | refuted | unknown
        self.backend = None
        self.time = 0.0
        self.model = None
        self.detail = ''
        self.formula = None
        self.pc = None
        self.havoc = False
        self.reachable = True

    def __repr__(self):
        return f'<{self.name}: {self.status} {self.backend} {self.time:.2f}s>'


def _z3_check(assertions, timeout_ms, seed=0):
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*assertions)
    r = s.check()
    return r, (s.model() if r == z3.sat else None), s


def _cvc5_check(assertions, timeout_ms):
    try:
        import cvc5
        from cvc5 import InputParser, SymbolManager
        s = z3.Solver()
        s.add(*assertions)
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        solver = cvc5.Solver(tm)
        solver.setOption('tlimit-per', str(timeout_ms))
        solver.setLogic('ALL')
        sm = SymbolManager(tm)
        parser = InputParser(solver, sm)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        out = ''
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out += cmd.invoke(solver, sm)
        out = out.strip().splitlines()
        return out[-1] if out else 'unknown'
    except Exception as e:                                    # back end unavailable: stays unknown
        return 'unknown'


class Session:
    """Collects obligations of one check."""

    def __init__(self, timeout_ms=8000):
        self.obls = []
        self.quiet = 0
        self.houdini_cache, self.kind_cache, self.store_cache, self.recorded = {}, {}, {}, set()
        self.timeout_ms = timeout_ms
        self.undecided = []       # (name, reason)
        self.assumptions = set()
        self.reach = []           # (name, ok)
        self.functions = {}       # qualname -> dict
        self.paths = 0
        self.reach_seen = {}
        self.reach_open = []
        self.solver_time = 0.0

    def prove(self, name, pc, goal, havoc=False):
        o = Obligation(name)
        if self.quiet:
            return o
        t0 = time.time()
        goal = lift_bool(goal)
        o.formula, o.pc, o.havoc = goal, list(pc), havoc
        asserts = list(pc) + [z3.Not(goal)]
        r, m, _ = _z3_check(asserts, self.timeout_ms)
        self.reach_later(o)
        if r == z3.unsat:
            o.status, o.backend = 'discharged', 'z3'
        elif r == z3.sat:
            o.status, o.backend, o.model = 'refuted', 'z3', m
        else:
            c = _cvc5_check(asserts, self.timeout_ms)
            if c == 'unsat':
                o.status, o.backend = 'discharged', 'cvc5'
            else:
                # last attempt: qfnra / bigger budget
                r2, m2, _ = _z3_check([z3.simplify(a) for a in asserts], self.timeout_ms * 2)
                if r2 == z3.unsat:
                    o.status, o.backend = 'discharged', 'z3'
                elif r2 == z3.sat:
                    o.status, o.backend, o.model = 'refuted', 'z3', m2
                else:
                    o.status, o.backend = 'unknown', 'z3+cvc5'
        o.time = time.time() - t0
        self.solver_time += o.time
        self.obls.append(o)
        return o

    def reach_later(self, o):
        """Can the obligation's path be taken at all? Along a path the assumptions only grow, so the last ones decide for all."""
        if self.reach_open:
            last = self.reach_open[-1].pc
            if len(o.pc) < len(last) or any(not a.eq(b) for a, b in zip(last, o.pc)):
                self.reach_flush()
        self.reach_open.append(o)

    def reach_flush(self):
        todo, self.reach_open = self.reach_open, []
        t0 = time.time()
        if todo and not self.reach_ok(todo[-1].pc):
            for o in todo:
                o.reachable = self.reach_ok(o.pc)
        self.solver_time += time.time() - t0

    def reach_ok(self, pc):
        pk = tuple(f.get_id() for f in pc)
        if pk not in self.reach_seen:
            self.reach_seen[pk] = (_z3_check(list(pc), 3000)[0] != z3.unsat, list(pc))
        return self.reach_seen[pk][0]

    def algebraic(self, name, ok, detail='', backend='sympy'):
        """Obligation decided by another decision procedure (ok True/False/None)."""
        o = Obligation(name)
        o.status = 'discharged' if ok else ('refuted' if ok is False else 'unknown')
        o.backend, o.detail = backend, detail
        self.obls.append(o)
        return o

    @property
    def refuted(self):
        return [o for o in self.obls if o.status == 'refuted']

    @property
    def unknown(self):
        return [o for o in self.obls if o.status == 'unknown']

    @property
    def discharged(self):
        return [o for o in self.obls if o.status == 'discharged']


# --------------------------------------------------------------------------- path contexts
_stack = []


def cur():
    return _stack[-1] if _stack else None


def cur_or_fail():
    if not _stack:
        raise Unsupported('symbolic branch outside a path')
    return _stack[-1]


class Path:
    def __init__(self, session, trail, base_pc=(), parent=None):
        self.session = session
        self.trail = list(trail)
        self.pos = 0
        self.pc = list(base_pc)
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.solver.add(*self.pc)
        self.new = []
        self.div_mode = 'fork'
        self.parent = parent
        self.tokens = parent.tokens if parent else {}
        self.havoc = parent.havoc if parent else False
        self.axioms_seen = set()
        self.fcache, self.keep = {}, []
        self.session_oob = getattr(session, 'oob', 'check')
        if parent:
            self.div_mode = parent.div_mode

    def fmt_token(self, val, spec):
        """Formatting a symbolic number yields an opaque unique string; equal (value,spec) -> equal token."""
        key = (val.t.sexpr(), spec)
        if key not in self.tokens:
            self.tokens[key] = (f'\u27e6{len(self.tokens)}\u27e7', val, spec)
        return self.tokens[key][0]

    def token_value(self, tok):
        for k, (s, v, spec) in self.tokens.items():
            if s == tok:
                return v, spec
        return None

    def assume_axiom(self, f):
        k = f.get_id()
        if k not in self.axioms_seen:
            self.axioms_seen.add(k)
            self.keep.append(f)
            self.pc.append(f)
            self.solver.add(f)

    def assume(self, f, check=True):
        f = lift_bool(f)
        self.pc.append(f)
        self.solver.add(f)
        if check and self.solver.check() == z3.unsat:
            raise PathEnd()

    def feasible(self, f):
        key = (len(self.pc), f.get_id())
        r = self.fcache.get(key)
        if r is None:
            r = self.solver.check(f)
            self.fcache[key] = r
            self.keep.append(f)
        return r != z3.unsat

    def entails(self, f):
        f = z3.simplify(lift_bool(f))
        if z3.is_true(f):
            return True
        return not self.feasible(z3.Not(f))

    def decide(self, cond):
        cond = z3.simplify(lift_bool(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(z3.Not(cond))
            if not ft and not ff:
                raise PathEnd()
            if ft and ff:
                self.new.append(self.trail[:self.pos] + [False])
                v = True
            else:
                v = ft
            self.trail.append(v)
        self.pos += 1
        f = cond if v else z3.Not(cond)
        self.pc.append(f)
        self.solver.add(f)
        return v

    def choose(self, n):
        """Nondeterministic choice among n alternatives (demonic, both sides always explored)."""
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
        else:
            v = 0
            self.trail.append(0)
            for k in range(1, n):
                self.new.append(self.trail[:self.pos] + [k])
        self.pos += 1
        return v

    def prove(self, name, goal):
        return self.session.prove(name, self.pc, goal, self.havoc)


def explore(session, fn, base_pc=(), max_paths=4000, parent=None):
    """Run fn() once per feasible path; returns list of (path, outcome).

    outcome: ('ok', value) | ('raise', exc) | ('end', None)
    """
    pending = [[]]
    out = []
    t_end = time.time() + float(os.environ.get('PYVC_EXPLORE_S', '240'))
    while pending:
        trail = pending.pop()
        p = Path(session, trail, base_pc, parent)
        _stack.append(p)
        try:
            try:
                v = fn()
                res = ('ok', v)
            except PathEnd:
                res = ('end', None)
            except PyRaise as e:
                res = ('raise', e.exc)
        finally:
            _stack.pop()
        session.reach_flush()
        pending.extend(p.new)
        session.paths += 1
        out.append((p, res))
        if len(out) > max_paths:
            raise Unsupported('too many paths')
        if time.time() > t_end:
            raise Unsupported('path exploration budget exhausted')
    return out


# --------------------------------------------------------------------------- specification functions
class SpecFn:
    """Uninterpreted specification function whose defining axioms are instantiated (once) at every mention.

    axioms(*args) -> list of z3 formulas valid for all args (the function's definition / declared lemmas)."""

    def __init__(self, name, sig, axioms=lambda *a: []):
        S = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}
        self.f = z3.Function(name, *[S[x] for x in sig])
        self.axioms = axioms
        self.sig = sig

    def raw(self, *a):
        return self.f(*[lift(x) for x in a])

    def __call__(self, *a):
        a = [z3.simplify(lift(x)) for x in a]
        c = cur()
        if c is not None:
            for ax in self.axioms(*a):
                c.assume_axiom(ax)
        return self.f(*a)


def lemma_induction(session, name, pred, lo=0, base_pc=()):
    """forall n>=lo. pred(n) by induction: base and step are separate obligations. pred may use SpecFns."""
    def base():
        c = cur()
        g = pred(z3.IntVal(lo))
        c.prove(f'lemma {name}: base', g)

    def step():
        c = cur()
        n = z3.Int(fresh_name('ind'))
        c.assume(n >= lo, check=False)
        h = pred(n)
        c.assume(h, check=False)
        g = pred(z3.simplify(n + 1))
        c.prove(f'lemma {name}: step', g)
    explore(session, base, base_pc)
    explore(session, step, base_pc)
