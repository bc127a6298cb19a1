"""Symbolic interpreter for Python function ASTs (the real source of the functions in /repo)."""
import ast, builtins, inspect, operator, os, textwrap, types, sys, functools
import numpy as np
import z3
from .core import *
from .core import _stack
from . import core
from . import linalg
from .linalg import IndexSet
from .arrays import WRITE_LOG, SArr, Store, elementwise, member, any_, all_, reduce_, coerce, sort_of, SORTS, is1

REPO = os.environ.get('PYVC_REPO', '/repo')


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


_AST = {}


def py_function(f):
    """Underlying python function of numba dispatchers / wrappers."""
    for a in ('py_func', '__wrapped__'):
        if hasattr(f, a) and not isinstance(f, type):
            g = getattr(f, a)
            if isinstance(g, types.FunctionType):
                return g
    return f


def source_of(f):
    """(FunctionDef node) parsed from the current file on disk."""
    f = py_function(f)
    code = f.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key not in _AST:
        with open(code.co_filename, encoding='utf-8') as fh:
            tree = _file_ast(code.co_filename, fh.read())
        best = None
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                if first == code.co_firstlineno:
                    best = n
            elif isinstance(n, ast.Lambda) and code.co_name == '<lambda>' and n.lineno == code.co_firstlineno:
                cand = n
                if best is None or _lambda_matches(cand, code):
                    best = cand
        if best is None:
            raise Unsupported(f'no source for {code.co_name}')
        _AST[key] = best
    return _AST[key]


def _lambda_matches(n, code):
    names = [a.arg for a in n.args.args]
    if tuple(names) != code.co_varnames[:len(names)]:
        return False
    try:
        pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
        cols = {p[2] for p in pos if p[0] == n.body.lineno}
        return n.body.col_offset in cols and n.col_offset < min(cols) + 1
    except Exception:
        return True


_FILES = {}


def _file_ast(fn, txt):
    if fn not in _FILES:
        _FILES[fn] = ast.parse(txt)
    return _FILES[fn]


def in_repo(f):
    f = py_function(f)
    c = getattr(f, '__code__', None)
    return c is not None and os.path.isabs(c.co_filename) and os.path.realpath(c.co_filename).startswith(os.path.realpath(REPO) + os.sep)


class Frame:
    __slots__ = ('env', 'globals', 'parent', 'qual', 'loop_no', 'fnode', 'nonlocals', 'globalnames', 'cls', 'selfobj')

    def __init__(self, env, globs, parent, qual, fnode):
        self.env, self.globals, self.parent, self.qual, self.fnode = env, globs, parent, qual, fnode
        self.nonlocals, self.globalnames = set(), set()
        self.cls = None
        self.selfobj = None

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.env and not (f is self and name in self.globalnames):
                v = f.env[name]
                if v is UNDEF:
                    raise PyRaise(UnboundLocalError(name))
                return v
            f = f.parent
        ov = getattr(cur(), 'globals_overlay', None) if cur() is not None else None
        if ov and (id(self.globals), name) in ov:
            return ov[id(self.globals), name]
        if name in self.globals:
            return self.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(f"name '{name}' is not defined"))

    def assign(self, name, v):
        if name in self.globalnames:
            # module variables assigned by the code under proof live on the path, never in the real module
            c = cur_or_fail()
            if not hasattr(c, 'globals_overlay'):
                c.globals_overlay = {}
            c.globals_overlay[id(self.globals), name] = v
            return
        if name in self.nonlocals:
            f = self.parent
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.parent
        self.env[name] = v


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class IFunc:
    """A function defined by interpreted code (closure)."""

    def __init__(self, interp, node, frame, name):
        self.interp, self.node, self.frame, self.name = interp, node, frame, name
        self.__name__ = name
        a = node.args
        self.defaults = [interp.eval(d, frame) for d in a.defaults]
        self.kwdefaults = [None if d is None else interp.eval(d, frame) for d in a.kw_defaults]

    def __call__(self, *args, **kw):
        h = self.interp.local_contracts.get(self.name)
        if h is not None:
            return h(self, *args, **kw)
        return self.body(*args, **kw)

    def body(self, *args, **kw):
        return self.interp.call_node(self.node, args, kw, self.frame.globals, self.frame, self.frame.qual + '.' + self.name,
                                     self.defaults, self.kwdefaults)

    def __get__(self, obj, cls=None):
        return self


class SRange:
    """range() with symbolic bounds."""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if not isinstance(step, int) or step == 0:
            raise Unsupported('symbolic range step')

    def length(self):
        a, b = lift(self.start), lift(self.stop)
        if self.step > 0:
            n = (b - a + (self.step - 1)) / self.step if self.step != 1 else b - a
            return z3.simplify(z3.If(b > a, n, z3.IntVal(0)))
        m = -self.step
        n = (a - b + (m - 1)) / m if m != 1 else a - b
        return z3.simplify(z3.If(a > b, n, z3.IntVal(0)))

    def elem(self, k):
        return wrap(z3.simplify(lift(self.start) + lift(k) * self.step))


class SSeq:
    """Symbolic-length read-only sequence: elem(k) for 0<=k<length."""

    def __init__(self, length, elem):
        self._n, self._e = length, elem

    def length(self):
        return self._n

    def elem(self, k):
        return self._e(k)


def seq_of(x):
    """iterable -> object with length()/elem(k) when symbolic, else None."""
    if isinstance(x, (SRange, SSeq)):
        return x
    if isinstance(x, SArr):
        return SSeq(z3.simplify(lift(x._shape[0])), lambda k: x[wrap(k) if isinstance(k, z3.ExprRef) else k])
    return None


class LoopState:
    def __init__(self, frame, k, n, entry, elem=None):
        self.frame, self.k, self.n, self.entry, self.elem = frame, k, n, entry, elem

    @property
    def env(self):
        return self.frame.env


class Interp:
    MAX_DEPTH = 60

    def __init__(self, session, natives=(), contracts=None, loops=None, inline=None, oob='check'):
        self.session = session
        self.session.oob = oob
        self.contracts = dict(contracts or {})       # function object -> handler(interp, args, kwargs)
        self.loops = dict(loops or {})               # qualname -> template function
        self.local_contracts = {}                     # name of a nested function -> handler(ifunc, *args)
        self.depth = 0
        self.loop_stack = []      # (ordinal, element value) of enclosing cut loops
        self.functions = session.functions
        self.houdini_cache, self.kind_cache = session.houdini_cache, session.kind_cache
        self.store_cache, self.recorded = session.store_cache, session.recorded
        self.attr_log = []
        self.native = set(natives)
        self.max_unroll = 4000
        self.stmt_budget = 3_000_000
        from . import npmodel
        self.intrinsics = npmodel.table(self)

    # ------------------------------------------------------------------ entry
    def call(self, f, *args, **kw):
        return self.call_value(f, list(args), dict(kw))

    def run_function(self, f, args, kw, qual=None):
        f = py_function(f)
        node = source_of(f)
        parent = None
        if f.__closure__:
            env = {}
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env[n] = c.cell_contents
                except ValueError:
                    env[n] = UNDEF
            parent = Frame(env, f.__globals__, None, 'closure', None)
        q = f'{f.__module__}.{f.__qualname__}'
        self.functions[q] = self.functions.get(q, 0) + 1
        kd = f.__kwdefaults__ or {}
        kwd = [kd.get(a.arg) for a in node.args.kwonlyargs]
        return self.call_node(node, args, kw, f.__globals__, parent, q, list(f.__defaults__ or ()), kwd)

    def call_node(self, node, args, kw, globs, parent, qual, defaults, kwdefaults):
        if self.depth > self.MAX_DEPTH:
            raise Unsupported('call depth')
        fr = Frame({}, globs, parent, qual, node)
        a = node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(pos):
            if i < len(args):
                fr.env[n] = args[i]
            elif n in kw:
                fr.env[n] = kw.pop(n)
            else:
                j = i - (len(pos) - len(defaults))
                if j < 0:
                    raise PyRaise(TypeError(f'missing argument {n}'))
                fr.env[n] = defaults[j]
        rest = args[len(pos):]
        if a.vararg:
            fr.env[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(TypeError('too many positional arguments'))
        for x, d in zip(a.kwonlyargs, kwdefaults):
            fr.env[x.arg] = kw.pop(x.arg) if x.arg in kw else d
        if a.kwarg:
            g = kw.pop('**', None)                    # an arbitrary number of keywords (ghost mapping)
            if g is not None and kw:
                raise Unsupported('arbitrary keywords next to others')
            fr.env[a.kwarg.arg] = kw if g is None else g
        elif kw:
            raise PyRaise(TypeError(f'unexpected keyword {list(kw)}'))
        if isinstance(node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(node.body, fr)
            finally:
                self.depth -= 1
        # locals that are assigned somewhere but not yet bound
        if pos and pos[0] == 'self':
            fr.selfobj = fr.env[pos[0]]
        loops = [n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        fr.loop_no = {id(n): k for k, n in enumerate(loops)}
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            raise Unsupported('generator function')
        self.depth += 1
        try:
            self.block(node.body, fr)
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------------ calls
    def call_value(self, f, args, kw):
        try:
            h = self.contracts.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            h = self.contracts.get(fn)
            if h is not None:
                return h(self, f.__self__, *args, **kw)
            if in_repo(fn) and fn not in self.native:
                return self.run_function(fn, [f.__self__] + list(args), kw)
        h = self.intrinsic(f)
        if h is not None:
            r = h(*args, **kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, IFunc):
            return f(*args, **kw)
        if not isinstance(f, type) and hasattr(f, 'py_func') or isinstance(f, types.FunctionType):
            if in_repo(f) and f not in self.native:
                return self.run_function(f, args, kw)
        if isinstance(f, functools.partial):
            return self.call_value(f.func, list(f.args) + list(args), {**f.keywords, **kw})
        if isinstance(f, type) and f.__init__ is not object.__init__ and in_repo(getattr(f.__init__, '__func__', f.__init__)) \
                and f not in self.native and isinstance(f.__init__, types.FunctionType):
            o = f.__new__(f)
            self.run_function(f.__init__, [o] + list(args), kw)
            return o
        call = getattr(type(f), '__call__', None)
        if not isinstance(f, type) and isinstance(call, types.FunctionType) and in_repo(call) and call not in self.native:
            return self.run_function(call, [f] + list(args), kw)
        return self.native_call(f, args, kw)

    def intrinsic(self, f):
        try:
            return self.intrinsics.get(f)
        except TypeError:
            return None

    def native_call(self, f, args, kw):
        me = getattr(f, '__self__', None)
        if args and isinstance(args[0], Sym) and isinstance(me, dict) and getattr(f, '__name__', '') == 'get' and f == me.get:
            for k in list(me):
                if self.truth(args[0] == k):
                    return me[k]
            return args[1] if len(args) > 1 else None
        try:
            return f(*args, **kw)
        except (Unsupported, PyRaise, PathEnd, _Return, _Break, _Continue):
            raise
        except Exception as e:
            me = getattr(f, '__self__', None)
            if isinstance(me, (SArr, Sym)) and isinstance(e, (TypeError, AttributeError)):
                raise Unsupported(f'method {getattr(f, "__name__", f)} of {type(me).__name__}: {e}')
            if any(contains_sym(a) for a in list(args) + list(kw.values())) and (isinstance(e, (TypeError, AttributeError, RuntimeError)) or str(getattr(f, '__module__', '')).startswith('numpy')):
                raise Unsupported(f'native {getattr(f, "__name__", f)}: {type(e).__name__}: {e}')
            raise PyRaise(e)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.stmt_budget -= 1
        if self.stmt_budget < 0:
            raise Unsupported('statement budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, fr)

    def s_Pass(self, s, fr): pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = AUG[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            self.assign(t, self.binop(op, fr.lookup(t.id), self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            v = self.binop(op, self.getattr(o, t.attr), self.eval(s.value, fr))
            self.setattr(o, t.attr, v)
        else:
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            v = self.binop(BIN[type(s.op)], self.getitem(o, i), self.eval(s.value, fr))
            self.setitem(o, i, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for tt, vv in zip(t.elts, vals):
                self.assign(tt.value if isinstance(tt, ast.Starred) else tt, vv, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, elts):
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = list(self.iterate(v))
        if star:
            k = star[0]
            m = len(elts) - k - 1
            if len(vals) < len(elts) - 1:
                raise PyRaise(ValueError('not enough values to unpack'))
            return vals[:k] + [vals[k:len(vals) - m]] + vals[len(vals) - m:]
        if len(vals) != len(elts):
            raise PyRaise(ValueError('wrong number of values to unpack'))
        return vals

    def setattr(self, o, name, v):
        self.attr_log.append((o, name))
        d = getattr(type(o), name, None)
        if isinstance(d, property) and d.fset is not None and in_repo(d.fset):
            self.run_function(d.fset, [o, v], {})
            return
        try:
            setattr(o, name, v)
        except Exception as e:
            raise PyRaise(e)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                try:
                    del self.eval(t.value, fr)[self.eval(t.slice, fr)]
                except (Unsupported, PathEnd):
                    raise
                except Exception as e:
                    raise PyRaise(e)
            elif isinstance(t, ast.Attribute):
                delattr(self.eval(t.value, fr), t.attr)
            else:
                raise Unsupported('del')

    def s_Return(self, s, fr):
        raise _Return(None if s.value is None else self.eval(s.value, fr))

    def s_Break(self, s, fr): raise _Break()

    def s_Continue(self, s, fr): raise _Continue()

    def s_Global(self, s, fr): fr.globalnames.update(s.names)

    def s_Nonlocal(self, s, fr): fr.nonlocals.update(s.names)

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def truth(self, v):
        if hasattr(type(v), '__symlen__'):
            v = v.__symlen__()
            return v != 0 if isinstance(v, int) else cur_or_fail().decide(lift(v) != 0)
        if isinstance(v, SOpt):
            return (not cur_or_fail().decide(v.isnone)) and cur_or_fail().decide(v.t != 0)
        if isinstance(v, (SSeq, SRange)):
            return cur_or_fail().decide(lift(v.length()) > 0)
        try:
            return bool(v)
        except (Unsupported, PathEnd, PyRaise):
            raise
        except Exception as e:
            raise PyRaise(e)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise(AssertionError(self.eval(s.msg, fr) if s.msg else ''))

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(fr.lookup('__current_exc__'))
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = e()
        raise PyRaise(e)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as pr:
                e = pr.exc
                for h in s.handlers:
                    ok = h.type is None or self.exc_match(e, self.eval(h.type, fr))
                    if ok:
                        if h.name:
                            fr.assign(h.name, e)
                        old = fr.env.get('__current_exc__', UNDEF)
                        fr.env['__current_exc__'] = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            if old is UNDEF:
                                fr.env.pop('__current_exc__', None)
                            else:
                                fr.env['__current_exc__'] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                et = sys.exc_info()[0]
                if et is None or not issubclass(et, (PathEnd, Unsupported)):
                    self.block(s.finalbody, fr)

    def exc_match(self, e, t):
        return isinstance(e, t)

    def s_With(self, s, fr):
        items = []
        for it in s.items:
            cm = self.eval(it.context_expr, fr)
            try:
                v = cm.__enter__()
            except Exception as ex:
                raise Unsupported(f'context manager {ex}')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            items.append(cm)
        try:
            self.block(s.body, fr)
        finally:
            for cm in reversed(items):
                cm.__exit__(None, None, None)

    def s_FunctionDef(self, s, fr):
        fr.assign(s.name, IFunc(self, s, fr, s.name))

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for part in a.name.split('.')[1:]:
                    m = getattr(m, part)
            fr.assign(a.asname or a.name.split('.')[0], m)

    def s_ImportFrom(self, s, fr):
        g = {'__name__': fr.globals.get('__name__'), '__package__': fr.globals.get('__package__')}
        m = __import__(s.module or '', g, None, [a.name for a in s.names], s.level)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = __import__(m.__name__ + '.' + a.name, fromlist=['x'])
            fr.assign(a.asname or a.name, v)

    def s_While(self, s, fr):
        count = 0
        t = self.loop_template(fr, s)
        if isinstance(t, LoopContract):
            return self.cut_contract(s, fr, None, t)
        # run concretely while the condition is decided without forking; otherwise cut
        while True:
            c = self.eval(s.test, fr)
            if isinstance(c, Sym) or isinstance(c, (SSeq, SRange)):
                t = self.loop_template(fr, s)
                if t is not None and count == 0:
                    return self.cut_loop(s, fr, None, t)
            if not self.truth(c):
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
            count += 1
            if count > self.max_unroll:
                raise Unsupported('while unroll limit')

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        sq = seq_of(it)
        t = self.loop_template(fr, s)
        if isinstance(t, LoopContract) and isinstance(it, range):
            sq = SRange(it.start, it.stop, it.step)
        if sq is not None and isinstance(t, LoopContract):
            return self.cut_contract(s, fr, sq, t)
        if sq is not None:
            n = z3.simplify(lift(sq.length()))
            if not z3.is_int_value(n):
                t = self.loop_template(fr, s)
                if t is None:
                    bound = getattr(self, 'unroll_symbolic', 0)
                    if bound:
                        return self.unroll(s, fr, sq, n, bound)
                    if self.cut_map(s, fr, sq, n):
                        return
                    raise Unsupported(f'loop without invariant at {fr.qual}:{s.lineno}')
                return self.cut_loop(s, fr, sq, t)
            it = [sq.elem(z3.IntVal(k)) for k in range(n.as_long())]
        cnt = 0
        for v in self.iterate(it):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
            cnt += 1
            if cnt > self.max_unroll:
                raise Unsupported('for unroll limit')
        self.block(s.orelse, fr)

    def unroll(self, s, fr, sq, n, bound):
        """bounded stand-in: explores 0..bound iterations, drops longer runs (caller labels the result bounded)."""
        for k in range(bound + 1):
            if not cur_or_fail().decide(n > k):
                self.block(s.orelse, fr)
                return
            if k == bound:
                raise PathEnd()
            self.assign(s.target, sq.elem(z3.IntVal(k)), fr)
            try:
                self.block(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass

    def iterate(self, it):
        if isinstance(it, (SSeq, SRange)):
            n = z3.simplify(lift(it.length()))
            if not z3.is_int_value(n):
                raise Unsupported('iteration over symbolic-length sequence')
            return [it.elem(z3.IntVal(k)) for k in range(n.as_long())]
        try:
            return iter(it)
        except (Unsupported, PathEnd):
            raise
        except Exception as e:
            raise PyRaise(e)

    # ------------------------------------------------------------------ loop cutting (Houdini over candidate invariants)
    def loop_template(self, fr, node):
        t = self.loops.get(fr.qual) or self.loops.get(fr.qual.split('.')[-1])
        if isinstance(t, dict):
            t = t.get(fr.loop_no.get(id(node)))
        if isinstance(t, LoopContract) and not t.applies(node):
            return None
        return t

    def cut_map(self, node, fr, sq, n):
        """Rule for a `for` loop that needs no invariant because every iteration only writes its own cells.

        The body is explored once for an arbitrary iteration k of an arbitrary state H of the arrays it writes.  Side conditions
        (proved, otherwise the rule does not apply): the body reads no local left by an earlier iteration, mutates no list, dict
        or attribute, contains no break/return, and for one injective index map kinv a cell s of a written array is changed only
        by iteration kinv(s), which reads H only at that cell.  Then the array after the loop is N(kinv(s), s) applied to the
        array before it, where 0 <= kinv(s) < n, and the old array elsewhere."""
        c = cur_or_fail()
        body_mod = ast.Module(body=node.body, type_ignores=[])
        if node.orelse or any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.Global, ast.Nonlocal)) for x in ast.walk(body_mod)):
            return False
        assigned = {x.id for x in ast.walk(ast.Module(body=[node], type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        aug = {x.target.id for x in ast.walk(body_mod) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        keep = {nm for nm in aug if isinstance(fr.env.get(nm), SArr)
                and not any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) and not any(
                    isinstance(y, ast.AugAssign) and y.target is x for y in ast.walk(body_mod)) for x in ast.walk(node))}
        locs = assigned - keep
        outer, f = [], fr
        while f is not None:
            outer.append(f)
            f = f.parent
        born = Store.count

        def shape_of_env():
            r = []
            for f in outer:
                for nm, v in f.env.items():
                    if isinstance(v, (list, dict, set)):
                        r.append((id(f), nm, id(v), tuple(map(id, v.values() if isinstance(v, dict) else v))))
                    elif nm not in locs:
                        r.append((id(f), nm, id(v)))
            return set(r)
        k = z3.Int(fresh_name('k'))
        mod = {}                 # id(store) -> (store, getter before the loop, H)
        frozen = _next_counter()
        while True:
            new = {}
            outs = []

            def body():
                cc = cur()
                cc.havoc = True
                for nm in locs:
                    fr.env.pop(nm, None)
                for st, old, H in mod.values():
                    st.get = (lambda H: lambda *i: H(*i))(H)
                cc.assume(z3.And(k >= 0, k < n))
                wl, al = len(WRITE_LOG), len(self.attr_log)
                before = shape_of_env()
                try:
                    self.assign(node.target, sq.elem(k), fr)
                    self.loop_stack.append(('map', None))
                    try:
                        self.block(node.body, fr)
                    except _Continue:
                        pass
                    finally:
                        self.loop_stack.pop()
                    for nm in locs:
                        fr.env.pop(nm, None)
                    if len(self.attr_log) != al or shape_of_env() != before:
                        raise Unsupported('loop body changes objects other than arrays')
                    grew = False
                    for st, old in WRITE_LOG[wl:]:
                        if st.serial < born and id(st) not in mod and id(st) not in new:
                            new[id(st)] = (st, old)
                            grew = True
                    if new:
                        return None
                    r = {}
                    for i, (st, old, H) in mod.items():
                        sv = [z3.Int(f'{fresh_base}_s{i}_{j}') for j in range(len(st.shape))]
                        r[i] = coerce(lift(st.get(*sv)), st.sort) if not isinstance(st.get(*sv), z3.ExprRef) else st.get(*sv)
                    return r
                finally:
                    for i, (st, old) in new.items():
                        st.get = old
                    for st, old, H in mod.values():
                        st.get = old
                    del self.attr_log[al:]
            fresh_base = fresh_name('m')
            entry = {nm: fr.env[nm] for nm in locs if nm in fr.env}
            base = len(c.pc)
            fail = None
            try:
                for p, (kind, v) in explore(self.session, body, base_pc=c.pc, parent=c):
                    if kind == 'end':
                        continue
                    if kind == 'raise':
                        if isinstance(v, NameError):
                            raise Unsupported('loop body reads a value left by an earlier iteration')
                        fail = fail or (p.pc[base:], v)
                        continue
                    outs.append((p.pc[base:], v))
            except Unsupported as e:
                for nm in locs:
                    fr.env.pop(nm, None)
                fr.env.update(entry)
                if os.environ.get('PYVC_DEBUG'):
                    print('   map rule refused:', fr.qual, node.lineno, e)
                raise
            if fail is not None:
                # an iteration raises: follow it as a path of its own (k is arbitrary)
                if c.decide(z3.And(fail[0])):
                    raise PyRaise(fail[1])
            if not new:
                break
            for i, (st, old) in new.items():
                mod[i] = (st, st.get, z3.Function(fresh_name('H'), *([z3.IntSort()] * len(st.shape)), SORTS[st.sort]()))
        fr.env.update({nm: v for nm, v in entry.items() if nm in keep})
        n0 = z3.If(n > 0, n, z3.IntVal(0))
        for i, (st, old, H) in mod.items():
            sv = [z3.Int(f'{fresh_base}_s{i}_{j}') for j in range(len(st.shape))]
            if not outs:
                break
            N = outs[-1][1][i]
            for pc, v in reversed(outs[:-1]):
                N = z3.If(z3.And(pc), v[i], N)
            N = z3.simplify(N)
            h = z3.Const(fresh_name('h'), N.sort())
            N = z3.simplify(z3.substitute(N, (H(*sv), h)))
            for d in _decls(N):
                if any(d.eq(m[2]) for m in mod.values()):
                    raise Unsupported('loop iteration reads cells written by other iterations')
                nm = d.name()
                if '!' in nm and not nm.startswith(fresh_base) and nm not in (k.decl().name(), h.decl().name()):
                    try:
                        if int(nm.rsplit('!', 1)[1].split('_')[0]) >= frozen:
                            raise Unsupported(f'loop iteration depends on a value introduced in it: {nm}')
                    except ValueError:
                        pass
            sol = z3.Solver()
            sol.set('timeout', 5000)
            sol.add(*c.pc)
            sol.add(k >= 0, k < n, N != h)
            inv = None
            off = lift(sq.elem(z3.IntVal(0))) if not isinstance(sq.elem(z3.IntVal(0)), tuple) else z3.IntVal(0)
            step = getattr(sq, 'step', 1)
            for j in range(len(sv)):
                if not (isinstance(step, int) and step == 1):
                    break
                for cand in ([z3.simplify(sv[j] - off)] if z3.is_int(off) else []) + [sv[j]]:
                    if sol.check(k != cand) == z3.unsat:
                        inv = cand
                        break
                if inv is not None:
                    break
            if inv is None:
                raise Unsupported(f'loop at {fr.qual}:{node.lineno}: iterations do not write disjoint cells')
            self.session.algebraic(f'{fr.qual}#map{fr.loop_no.get(id(node), 0)}:iterations-write-disjoint-cells', True, backend='z3') \
                if (fr.qual, node.lineno, 'map') not in self.recorded else None
            self.recorded.add((fr.qual, node.lineno, 'map'))

            def get(*ix, N=N, h=h, inv=inv, sv=sv, old=old):
                ix = [lift(x) for x in ix]
                o = old(*ix)
                o = o if isinstance(o, z3.ExprRef) else lift(o)
                ki = z3.substitute(inv, *zip(sv, ix))
                v = z3.substitute(N, (k, ki), (h, coerce(o, st_sort(N)) if o.sort() != h.sort() else o), *zip(sv, ix))
                return z3.simplify(z3.If(z3.And(ki >= 0, ki < n0), v, o))
            WRITE_LOG.append((st, st.get))
            st.get = get
        return True

    def cut_contract(self, node, fr, sq, C):
        """Hoare rule for a loop with an explicit contract: check(state at entry); havoc to an arbitrary state satisfying the
        invariant; run the body once and check(state after); continue after the loop from an arbitrary state."""
        c = cur_or_fail()
        is_for = sq is not None
        n = lift(sq.length()) if is_for else None
        ordinal = fr.loop_no[id(node)]
        tn = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)} if is_for else set()
        assigned = {x.id for x in ast.walk(ast.Module(body=node.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        info = types.SimpleNamespace(interp=self, frame=fr, env=fr.env, ordinal=ordinal, n=n, sq=sq, entry=dict(fr.env), node=node, name=f'{fr.qual.split(".")[-1]}#loop{ordinal}')
        C.check(info, z3.IntVal(0), 'initiation')
        for nm in assigned | tn:
            v = fr.env.pop(nm, UNDEF)
            kd = kind_of(v)
            if kd in ('int', 'bool', 'real') and nm not in tn:
                fr.env[nm] = havoc_value(nm, {kd} if kd == 'bool' else {'int', 'real'} if kd == 'real' else {'int'}, v)
        k = z3.Int(fresh_name('k'))
        c.assume(k >= 0, check=False)
        if is_for:
            c.assume(k <= z3.If(n > 0, n, z3.IntVal(0)), check=False)
        c.havoc = True
        C.havoc(info, k)
        if c.solver.check() == z3.unsat:
            raise PathEnd()
        lists = {nm: (id(v), len(v)) for nm, v in fr.env.items() if isinstance(v, (list, dict, set))}
        own = {id(v) for v in fr.env.values()} | {id(v) for v in vars(fr.env['self']).values()} if hasattr(fr.env.get('self'), '__dict__') else {id(v) for v in fr.env.values()}
        olists = {}
        for v in list(fr.env.values()):
            if hasattr(v, '__dict__') and not isinstance(v, (type, types.ModuleType, types.FunctionType)):
                for a, w in vars(v).items():
                    if isinstance(w, (list, dict, set)):
                        olists[id(w)] = (w, len(w), a)
        stores = {id(v.store): v.store for v in fr.env.values() if isinstance(v, SArr)}
        wl, al = len(WRITE_LOG), len(self.attr_log)
        more = c.decide(k < n) if is_for else self.truth(self.eval(node.test, fr))
        if not more:
            self.block(node.orelse, fr)
            return
        ev = None
        if is_for:
            ev = sq.elem(k)
            self.assign(node.target, ev, fr)
        self.loop_stack.append((ordinal, ev))
        try:
            self.block(node.body, fr)
        except _Break:
            return
        except _Continue:
            pass
        finally:
            self.loop_stack.pop()
        for nm, (i, ln) in lists.items():
            v = fr.env.get(nm)
            if id(v) == i and len(v) != ln and nm not in C.modifies:
                raise Unsupported(f'list {nm} mutated in contract loop')
        for w, ln, a in olists.values():
            if len(w) != ln and a not in C.modifies:
                raise Unsupported(f'attribute list {a} mutated in contract loop')
        for o, name in self.attr_log[al:]:
            if id(o) in own and name not in C.modifies:
                raise Unsupported(f'attribute {name} modified in contract loop')
        for st, old in WRITE_LOG[wl:]:
            if id(st) in stores and st not in C.stores:
                raise Unsupported('array modified in contract loop')
        C.check(info, z3.simplify(k + 1), 'consecution')
        raise PathEnd()

    def cut_loop(self, node, fr, sq, template):
        c = cur_or_fail()
        is_for = sq is not None
        n = lift(sq.length()) if is_for else None
        ordinal = fr.loop_no[id(node)]
        for x in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                v = fr.env.get(x.id)
                if isinstance(v, np.ndarray) and v.dtype.kind in 'bif' and v.size <= 64 and not any(v is w for kk, w in fr.env.items() if kk != x.id):
                    fr.env[x.id] = SArr.from_np(v)
        entry_env = dict(fr.env)
        locs = {}       # key -> {'kinds': set, 'get','set'}

        def add_store(st):
            locs.setdefault(('store', id(st)), {'store': st, 'entry': st.get})

        tnames = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)] if is_for else []
        augs = [x.target for x in ast.walk(ast.Module(body=node.body, type_ignores=[])) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)]
        plain = {x.id for x in ast.walk(ast.Module(body=node.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                 and not any(x is t for t in augs)}
        for x in ast.walk(ast.Module(body=node.body + ([] if is_for else []), type_ignores=[])):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                if x.id not in plain and isinstance(fr.env.get(x.id), SArr):
                    continue                     # updated in place only: a store location, not a rebinding
                locs.setdefault(('var', x.id), {'kinds': set()})
        for nm in tnames:
            locs.setdefault(('var', nm), {'kinds': set()})
        for key, d in locs.items():
            if key[0] == 'var':
                v = fr.env.get(key[1], UNDEF)
                d['entry'] = v
                if key[1] not in tnames:
                    d['kinds'].add(kind_of(v))

        def restore():
            for key, d in locs.items():
                if key[0] == 'var':
                    if d['entry'] is UNDEF:
                        fr.env.pop(key[1], None)
                    else:
                        fr.env[key[1]] = d['entry']
                elif key[0] == 'store':
                    d['store'].get = d['entry']
                else:
                    if d['entry'] is not UNDEF:
                        setattr(key[2], key[1], d['entry'])

        def havoc():
            for key, d in locs.items():
                if key[0] == 'var':
                    fr.env[key[1]] = havoc_value(key[1], d['kinds'], d['entry'])
                elif key[0] == 'store':
                    st = d['store']
                    f = z3.Function(fresh_name('hv'), *([z3.IntSort()] * len(st.shape)), SORTS[st.sort]())
                    st.get = (lambda f: lambda *i: f(*i))(f)
                else:
                    setattr(key[2], key[1], havoc_value(key[1], d['kinds'], d['entry']))

        def one_body(k):
            """execute one iteration at the current state; returns 'next' or raises _Break/_Return"""
            if is_for:
                cur().assume(z3.And(k >= 0, k < n))
                ev = sq.elem(k)
                self.assign(node.target, ev, fr)
            else:
                ev = None
                if not self.truth(self.eval(node.test, fr)):
                    raise PathEnd()
            self.loop_stack.append((ordinal, ev))
            try:
                self.block(node.body, fr)
            except _Continue:
                pass
            finally:
                self.loop_stack.pop()

        def snapshot_lists():
            return {name: (id(v), len(v)) for name, v in fr.env.items() if isinstance(v, (list, dict, set))}

        # ---- warm start: locations / kinds / surviving candidates seen for this loop before
        lkey = (fr.qual, ordinal)
        for nm, ks in self.kind_cache.get(lkey, {}).items():
            if ('var', nm) in locs and nm not in tnames:
                locs[('var', nm)]['kinds'] |= {x for x in ks if x != 'undef'}
        for nm in self.store_cache.get(lkey, ()):
            v = fr.env.get(nm)
            if isinstance(v, SArr):
                locs.setdefault(('store', id(v.store)), {'store': v.store, 'entry': v.store.get})
        entry_stores = {}
        f = fr
        while f is not None:
            for nm, v in f.env.items():
                if isinstance(v, SArr):
                    entry_stores[id(v.store)] = v.store
            f = f.parent
        ckey = (fr.qual, ordinal, tuple(c.trail[:c.pos]), len(self.loop_stack))

        def evalc(fn, k):
            try:
                r = fn(LoopState(fr, k, n, None))
            except (KeyError, AttributeError, TypeError, z3.Z3Exception, PyRaise):
                return None
            return None if r is None else lift_bool(r)

        class Grow(Exception):
            pass

        def check_growth(wlog, alog, lists):
            grew = False
            for name, (i, ln) in lists.items():
                v = fr.env.get(name)
                if id(v) == i and len(v) != ln:
                    raise Unsupported(f'list mutated in cut loop: {name}')
            for st, old in WRITE_LOG[wlog:]:
                if ('store', id(st)) not in locs and not any(d.get('store') is st for d in locs.values()):
                    if id(st) in entry_stores or st not in local_stores:
                        locs[('store', id(st))] = {'store': st, 'entry': old}
                        grew = True
            for key, d in locs.items():
                if key[0] == 'var' and key[1] in fr.env and key[1] not in tnames:
                    kd = kind_of(fr.env[key[1]])
                    if kd != 'undef' and not kind_covered(kd, d['kinds']):
                        d['kinds'].add(kd)
                        grew = True
            for o, name in self.attr_log[alog:]:
                raise Unsupported(f'attribute {name} modified in cut loop')
            return grew

        local_stores = _IdSet()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported('loop location fixpoint')
            info = LoopInfo(self, fr, node, ordinal, sq, n, locs, entry_env, tnames)
            restore()
            cands = template(info)            # list of (label, fn(state)->z3 bool)
            warm = self.houdini_cache.get(ckey)
            if warm is not None:
                cands = [(l, f) for l, f in cands if l in warm]
            live = {}
            init = []
            for l, f in cands:
                g = evalc(f, z3.IntVal(0))
                if g is not None:
                    init.append((l, f, g))
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*c.pc)
            if init:
                s.push()
                s.add(z3.Not(z3.And([g for _, _, g in init])))
                allok = s.check() == z3.unsat
                s.pop()
            for l, f, g in init:
                if allok:
                    live[l] = f
                    continue
                s.push()
                s.add(z3.Not(g))
                if s.check() == z3.unsat:
                    live[l] = f
                s.pop()
            # ---- consecution fixpoint (also discovers modified locations)
            self.session.quiet += 1
            grew = [False]
            try:
                while True:
                    drop = set()

                    def body():
                        restore()
                        havoc()
                        k = z3.Int(fresh_name('k'))
                        cc = cur()
                        cc.havoc = True
                        cc.assume(k >= 0, check=False)
                        if is_for:
                            cc.assume(k < n, check=False)
                        for l, f in live.items():
                            g = evalc(f, k)
                            if g is not None:
                                cc.assume(g, check=False)
                        wlog, alog, lists = len(WRITE_LOG), len(self.attr_log), snapshot_lists()
                        try:
                            try:
                                one_body(k)
                            finally:
                                et = sys.exc_info()[0]
                                if et is None or not issubclass(et, Unsupported):
                                    if check_growth(wlog, alog, lists):
                                        grew[0] = True
                                del self.attr_log[alog:]
                        except (_Break, _Return):
                            return
                        if grew[0]:
                            return
                        after = {l: evalc(f, z3.simplify(k + 1)) for l, f in live.items() if l not in drop}
                        sv = z3.Solver()
                        sv.set('timeout', 4000)
                        sv.add(*cc.pc)
                        if after and all(g is not None for g in after.values()):
                            sv.push()
                            sv.add(z3.Not(z3.And(list(after.values()))))
                            r = sv.check()
                            sv.pop()
                            if r == z3.unsat:
                                return
                        for l, f in live.items():
                            if l in drop:
                                continue
                            g = after[l]
                            if g is None:
                                drop.add(l)
                                continue
                            sv.push()
                            sv.add(z3.Not(g))
                            r = sv.check()
                            if r == z3.unknown:
                                r = z3.unsat if core._cvc5_check(list(sv.assertions()), 3000) == 'unsat' else r
                            if r != z3.unsat:
                                drop.add(l)
                                if os.environ.get('PYVC_DEBUG'):
                                    print('   drop', fr.qual, ordinal, l, r, [str(x) for x in cc.trail])
                                    if os.environ['PYVC_DEBUG'] in l and r == z3.sat:
                                        print(sv.model())
                            sv.pop()
                    explore(self.session, body, base_pc=c.pc, parent=c)
                    if grew[0]:
                        break
                    for l in drop:
                        live.pop(l)
                    if not drop:
                        break
            finally:
                self.session.quiet -= 1
                restore()
            if not grew[0]:
                break
            for kk in [kk for kk in self.houdini_cache if kk[3] > len(self.loop_stack)]:
                del self.houdini_cache[kk]           # inner results obtained with too few outer facts
        self.kind_cache[lkey] = {k[1]: set(d['kinds']) for k, d in locs.items() if k[0] == 'var'}
        self.store_cache[lkey] = {nm for nm, v in fr.env.items() if isinstance(v, SArr) and ('store', id(v.store)) in locs}
        self.houdini_cache[ckey] = set(live)
        if self.session.quiet == 0:
            for l in live:
                for kind in ('initiation', 'consecution'):
                    nm = f'{fr.qual}#loop{ordinal}:{kind}[{l}]'
                    if nm not in self.recorded:
                        self.recorded.add(nm)
                        o = Obligation(nm)
                        o.status, o.backend = 'discharged', 'z3'
                        self.session.obls.append(o)

        # ---- continue the main path from an arbitrary iteration
        restore()
        havoc()
        c.havoc = True
        k = z3.Int(fresh_name('k'))
        c.assume(k >= 0, check=False)
        if is_for:
            c.assume(k <= z3.If(n > 0, n, z3.IntVal(0)), check=False)
        for l, f in live.items():
            g = evalc(f, k)
            if g is not None:
                c.assume(g, check=False)
        if c.solver.check() == z3.unsat:
            raise PathEnd()
        if is_for:
            more = c.decide(k < n)
        else:
            more = self.truth(self.eval(node.test, fr))
        if more:
            try:
                ev = None
                if is_for:
                    ev = sq.elem(k)
                    self.assign(node.target, ev, fr)
                self.loop_stack.append((ordinal, ev))
                try:
                    self.block(node.body, fr)
                finally:
                    self.loop_stack.pop()
            except _Break:
                return
            except _Continue:
                pass
            raise PathEnd()
        self.block(node.orelse, fr)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def e_Constant(self, e, fr): return e.value

    def e_Name(self, e, fr): return fr.lookup(e.id)

    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr): return list(self.elts(e.elts, fr))

    def e_Set(self, e, fr): return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.eval(k, fr)] = self.eval(v, fr)
        return d

    def binop(self, op, a, b):
        if isinstance(a, np.ndarray) and a.ndim and isinstance(b, (SArr,)):
            a = SArr.from_np(a)
        if isinstance(a, np.ndarray) and a.ndim and isinstance(b, Sym):
            a = SArr.from_np(a)
        try:
            return op(a, b)
        except (Unsupported, PathEnd, PyRaise):
            raise
        except Exception as e:
            if contains_sym(a) or contains_sym(b):
                raise Unsupported(f'binop {op.__name__} {type(a).__name__} {type(b).__name__}: {e}')
            raise PyRaise(e)

    def e_BinOp(self, e, fr):
        return self.binop(BIN[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return snot(v)
            return not self.truth(v)
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)](v)

    def e_BoolOp(self, e, fr):
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Sym) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else True

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if k == len(e.ops) - 1:
                if res is True:
                    return v
                return v
            if not self.truth(v):
                return False
            left = right
        return v

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, SOpt) and b is None:
                r = wrap(z3.simplify(a.isnone))
            elif isinstance(a, SBool) and isinstance(b, bool):
                r = a == b
            else:
                r = a is b
            return r if isinstance(op, ast.Is) else snot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else snot(r)
        f = CMP[type(op)]
        if isinstance(a, SOpt):
            if cur_or_fail().decide(a.isnone):
                a = None
            else:
                a = wrap(a.t)
        if isinstance(b, SOpt):
            if cur_or_fail().decide(b.isnone):
                b = None
            else:
                b = wrap(b.t)
        if isinstance(a, np.ndarray) and a.ndim and isinstance(b, (SArr, Sym)):
            a = SArr.from_np(a)
        try:
            return f(a, b)
        except (Unsupported, PathEnd, PyRaise):
            raise
        except Exception as e:
            raise PyRaise(e)

    def contains(self, c, x):
        if isinstance(c, SArr):
            if c.ndim == 1:
                return wrap(member(c)(lift(x)))
            return any_(c == x)
        if isinstance(c, SSeq):
            n = lift(c.length())
            k = z3.Int(fresh_name('c'))
            return wrap(z3.Exists([k], z3.And(k >= 0, k < n, lift(c.elem(k)) == lift(x))))
        if isinstance(x, Sym) and isinstance(c, (list, tuple, set, frozenset, np.ndarray, range, dict, type({}.keys()), type({}.values()))):
            ts = []
            for y in c:
                r = (x == y)
                ts.append(lift_bool(r) if not isinstance(r, bool) else z3.BoolVal(r))
            return wrap(z3.simplify(z3.Or(ts))) if ts else False
        if hasattr(type(c), '__symcontains__'):
            return c.__symcontains__(x)
        f = getattr(type(c), '__contains__', None)
        if isinstance(f, types.FunctionType) and in_repo(f):
            return self.run_function(f, [c, x], {})
        if isinstance(c, (list, tuple)) and any(contains_sym(y) for y in c):
            for y in c:
                if y is x or self.truth(x == y):
                    return True
            return False
        try:
            return x in c
        except (Unsupported, PathEnd, PyRaise):
            raise
        except Exception as e:
            raise PyRaise(e)

    def getattr(self, o, name):
        if isinstance(o, super):
            return getattr(o, name)
        cls = type(o)
        if not isinstance(o, (SArr, Sym, types.ModuleType, type)):
            d = inspect.getattr_static(cls, name, None)
            if isinstance(d, property) and d.fget is not None and in_repo(d.fget):
                h = self.contracts.get(d.fget)
                if h is not None:
                    return h(self, o)
                return self.run_function(d.fget, [o], {})
            fn = getattr(d, 'func', None)
            if d is not None and type(d).__name__ in ('cached_property',) and isinstance(fn, types.FunctionType) and in_repo(fn) \
                    and name not in getattr(o, '__dict__', {}):
                v = self.run_function(fn, [o], {})
                o.__dict__[name] = v
                return v
        if isinstance(o, SOpt):
            raise Unsupported('attribute of optional')
        from . import npmodel
        m = npmodel.method(self, o, name)
        if m is not None:
            return m
        try:
            return getattr(o, name)
        except (Unsupported, PathEnd, PyRaise):
            raise
        except AttributeError as e:
            if isinstance(o, (SArr, Sym)):
                raise Unsupported(f'attribute {name} of {type(o).__name__}')
            raise PyRaise(e)
        except Exception as e:
            raise PyRaise(e)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Slice(self, e, fr):
        return slice(*[None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def getitem(self, o, i):
        if isinstance(i, SOpt):
            i = wrap(i.t)
        if isinstance(o, (SArr,)):
            if isinstance(i, IndexSet) or isinstance(i, tuple) and any(isinstance(x, IndexSet) for x in i):
                return linalg.getitem(o, i)
            return o[i]
        if isinstance(o, SSeq):
            if isinstance(i, slice):
                raise Unsupported('slice of symbolic sequence')
            t = lift(i)
            if cur_or_fail().decide(t < 0):
                t = t + lift(o.length())
            if cur_or_fail().decide(z3.Not(z3.And(t >= 0, t < lift(o.length())))):
                raise PyRaise(IndexError('sequence index out of range'))
            return o.elem(z3.simplify(t))
        if isinstance(o, np.ndarray) and sym_index(i):
            return SArr.from_np(o)[i]
        if isinstance(i, Sym) and isinstance(o, (list, tuple, str)):
            n = len(o)
            t = i.t
            for k in range(n):
                if cur_or_fail().decide(z3.Or(t == k, t == k - n)):
                    return o[k]
            raise PyRaise(IndexError('list index out of range'))
        if isinstance(i, Sym) and isinstance(o, dict):
            for k in list(o):
                if self.truth(i == k):
                    return o[k]
            raise PyRaise(KeyError(i))
        if isinstance(i, slice) and isinstance(o, (list, tuple, str)) and any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
            c = cur_or_fail()

            def conc(x):
                if not isinstance(x, Sym):
                    return x
                for k in range(-len(o) - 1, len(o) + 2):
                    if c.decide(x.t == k):
                        return k
                raise Unsupported('slice bound')
            return o[slice(conc(i.start), conc(i.stop), conc(i.step))]
        f = getattr(type(o), '__getitem__', None)
        if isinstance(f, types.FunctionType) and in_repo(f):
            return self.run_function(f, [o, i], {})
        try:
            return o[i]
        except (Unsupported, PathEnd, PyRaise):
            raise
        except Exception as e:
            if contains_sym(o) or contains_sym(i):
                if isinstance(e, (TypeError, AttributeError)):
                    raise Unsupported(f'getitem {type(o).__name__}: {e}')
            raise PyRaise(e)

    def setitem(self, o, i, v):
        if isinstance(o, SArr):
            if isinstance(i, IndexSet) or isinstance(i, tuple) and any(isinstance(x, IndexSet) for x in i):
                linalg.setitem(o, i, v)
                return
            o[i] = v
            return
        if isinstance(o, np.ndarray) and o.dtype != object and (contains_sym(v) or sym_index(i)):
            raise Unsupported('symbolic store into concrete numpy array')
        if isinstance(i, Sym) and isinstance(o, list):
            for k in range(len(o)):
                if cur_or_fail().decide(z3.Or(i.t == k, i.t == k - len(o))):
                    o[k] = v
                    return
            raise PyRaise(IndexError('list assignment index out of range'))
        try:
            o[i] = v
        except (Unsupported, PathEnd, PyRaise):
            raise
        except Exception as e:
            raise PyRaise(e)

    def e_Lambda(self, e, fr):
        return IFunc(self, e, fr, '<lambda>')

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            out.append(v.value if isinstance(v, ast.Constant) else self.eval(v, fr))
        return ''.join(out)

    def e_FormattedValue(self, e, fr):
        v = self.eval(e.value, fr)
        spec = self.eval(e.format_spec, fr) if e.format_spec else ''
        if e.conversion == 114:
            v = repr(v)
        elif e.conversion == 115:
            v = str(v)
        return format(v, spec)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, list)

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, set)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, list)

    def e_DictComp(self, e, fr):
        out = {}

        def rec(k, f2):
            if k == len(e.generators):
                out[self.eval(e.key, f2)] = self.eval(e.value, f2)
                return
            g = e.generators[k]
            for v in self.iterate(self.eval(g.iter, f2)):
                self.assign(g.target, v, f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                    rec(k + 1, f2)
        rec(0, self.subframe(fr))
        return out

    def subframe(self, fr):
        f2 = Frame({}, fr.globals, fr, fr.qual, fr.fnode)
        f2.loop_no = getattr(fr, 'loop_no', {})
        f2.selfobj = fr.selfobj
        return f2

    def comp(self, e, fr, ctor):
        g0 = e.generators[0]
        it0 = self.eval(g0.iter, fr)
        sq = seq_of(it0)
        if sq is not None and not z3.is_int_value(z3.simplify(lift(sq.length()))):
            if len(e.generators) == 1 and g0.ifs and isinstance(g0.target, ast.Name) and isinstance(e.elt, ast.Name) \
                    and e.elt.id == g0.target.id and isinstance(sq, SRange) and str(sq.start) == '0' and str(sq.step) == '1':
                return self.filter_range(sq, g0, fr)
            if len(e.generators) != 1 or g0.ifs or ctor is set:
                raise Unsupported('comprehension over symbolic sequence with filter')
            return self.map_seq(sq, g0.target, e.elt, fr)
        out = []

        def rec(k, f2, first=None):
            if k == len(e.generators):
                out.append(self.eval(e.elt, f2))
                return
            g = e.generators[k]
            src = it0 if k == 0 else self.eval(g.iter, f2)
            for v in self.iterate(src):
                self.assign(g.target, v, f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                    rec(k + 1, f2)
        rec(0, self.subframe(fr))
        return ctor(out)

    def filter_range(self, sq, g, fr):
        k0 = z3.Int(fresh_name('m'))
        n = lift(sq.length())

        def one():
            f2 = self.subframe(fr)
            self.assign(g.target, wrap(k0), f2)
            for x in g.ifs:
                v = self.eval(x, f2)
                if not self.truth(v):
                    return z3.BoolVal(False), ()
            return z3.BoolVal(True), ()
        t, _ = pointwise(self.session, one, [k0], z3.And(k0 >= 0, k0 < n), _next_counter(), 'filtered comprehension')
        return IndexSet(n, lambda i: z3.substitute(t, (k0, lift(i))))

    def map_seq(self, sq, target, elt, fr):
        """[elt for target in symbolic sequence] as an index -> element function (paths merged by ITE)."""
        k0 = z3.Int(fresh_name('m'))
        n = lift(sq.length())
        c = cur_or_fail()

        def one():
            cur().assume(z3.And(k0 >= 0, k0 < n), check=False)
            f2 = self.subframe(fr)
            self.assign(target, sq.elem(k0), f2)
            return self.eval(elt, f2)
        res = merge_paths(self.session, one, c)
        if isinstance(res, Sym) or isinstance(res, (int, float, bool)):
            t = lift(res)
            a = SArr.make([n], sort_of(t), lambda i: z3.substitute(t, (k0, i)))
            s = SSeq(n, lambda k: a.at(k))
            s.arr = a
            return s
        raise Unsupported('map of non-scalars')

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return super(self.find_class(fr), fr.selfobj)
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if getattr(v, '__ghost_keywords__', False):
                    kw['**'] = v
                else:
                    kw.update(v)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call_value(f, args, kw)

    def find_class(self, fr):
        name = fr.qual.split('.')
        for c in type(fr.selfobj).__mro__:
            for v in c.__dict__.values():
                fn = py_function(v) if isinstance(v, types.FunctionType) else v
                if isinstance(fn, types.FunctionType) and fn.__name__ == fr.fnode.name and fn.__qualname__ and \
                        fn.__globals__ is fr.globals and fn.__code__.co_firstlineno in range(fr.fnode.lineno - 3, fr.fnode.lineno + 1):
                    return c
        raise Unsupported('super()')


class _IdSet(dict):
    def __contains__(self, x):
        return False


def kind_covered(kd, kinds):
    if kd in kinds:
        return True
    if kd == 'opt':
        return {'none', 'int'} <= kinds or 'opt' in kinds
    if kd == 'int' and ('opt' in kinds or 'real' in kinds and 'int' in kinds):
        return True
    if kd == 'none' and 'opt' in kinds:
        return True
    return False


class LoopContract:
    """Explicit loop contract: havoc(info, k) installs an arbitrary state satisfying the invariant, check(info, k, when) proves it."""
    modifies = ()
    stores = ()

    def applies(self, node):
        return True

    def __init__(self, havoc=None, check=None, modifies=()):
        if havoc:
            self.havoc = havoc
        if check:
            self.check = check
        self.modifies = modifies or self.modifies


class LoopInfo:
    """What a template may look at: live locals by kind, loop ordinal, iteration space."""

    def __init__(self, interp, fr, node, ordinal, sq, n, locs, entry_env, tnames):
        self.interp, self.frame, self.node, self.ordinal, self.sq, self.n = interp, fr, node, ordinal, sq, n
        self.modified = [k[1] for k in locs if k[0] == 'var' and k[1] not in tnames]
        self.locs, self.entry_env, self.targets = locs, entry_env, tnames
        self.mod_stores = {id(d['store']): d['entry'] for k, d in locs.items() if k[0] == 'store'}

    def elem(self, k):
        """k-th value of the iteration space (term)"""
        return z3.simplify(lift(self.sq.elem(lift(k))))

    def kinds(self, name):
        return self.locs[('var', name)]['kinds']

    @property
    def mod_ints(self):
        return [n for n in self.modified if self.kinds(n) <= {'int', 'undef'} and 'int' in self.kinds(n)]

    @property
    def mod_opts(self):
        return [n for n in self.modified if 'none' in self.kinds(n) and self.kinds(n) <= {'int', 'none', 'opt'}]

    @property
    def mod_bools(self):
        return [n for n in self.modified if self.kinds(n) <= {'bool', 'undef'} and 'bool' in self.kinds(n)]

    @property
    def mod_reals(self):
        return [n for n in self.modified if self.kinds(n) <= {'real', 'int', 'undef'} and 'real' in self.kinds(n)]

    @property
    def mod_arrays(self):
        out = []
        for n, v in self.frame.env.items():
            if isinstance(v, SArr) and id(v.store) in self.mod_stores:
                out.append(n)
        return out


def kind_of(v):
    if v is UNDEF:
        return 'undef'
    if v is None:
        return 'none'
    if isinstance(v, SOpt):
        return 'opt'
    if isinstance(v, (bool, SBool, np.bool_)):
        return 'bool'
    if isinstance(v, (int, SInt, np.integer)):
        return 'int'
    if isinstance(v, (float, SReal, np.floating)):
        return 'real'
    if isinstance(v, SArr):
        return ('arr', v.sort, v.ndim)
    return ('other', type(v).__name__)


def havoc_value(name, kinds, entry):
    ks = set(kinds) - {'undef'}
    if not ks:
        return UNDEF
    if 'opt' in ks or ('none' in ks and ks <= {'none', 'int', 'opt'}):
        if ks == {'none'}:
            return None
        return SOpt(z3.Bool(fresh_name(name + '_none')), z3.Int(fresh_name(name)))
    if ks == {'bool'}:
        return fresh_bool(name)
    if ks == {'int'} or ks == {'int', 'bool'}:
        return fresh_int(name)
    if ks <= {'int', 'real', 'bool'}:
        return fresh_real(name)
    if all(isinstance(k, tuple) and k[0] == 'arr' for k in ks) and isinstance(entry, SArr):
        f = z3.Function(fresh_name('hv_' + name), *([z3.IntSort()] * entry.ndim), SORTS[entry.sort]())
        return SArr.make(entry._shape, entry.sort, lambda *i: f(*i))
    if all(isinstance(k, tuple) and k[0] == 'other' for k in ks) and entry is not UNDEF:
        raise Unsupported(f'havoc of {name}: {ks}')
    if entry is UNDEF:
        return UNDEF
    raise Unsupported(f'havoc of {name}: {ks}')


def st_sort(t):
    return {z3.Z3_INT_SORT: 'int', z3.Z3_REAL_SORT: 'real', z3.Z3_BOOL_SORT: 'bool'}[t.sort().kind()]


def pointwise(session, fn, consts, assumption, frozen, tag):
    """Evaluate fn() once for arbitrary values of the integer constants `consts` (under `assumption`) and return the merged term;
    refuses values that depend on anything introduced during the evaluation other than `consts`.  fn may return extra data."""
    c = cur_or_fail()
    base = len(c.pc)
    outs, fail = [], None

    def run():
        cur().havoc = True
        cur().assume(assumption)
        return fn()
    for p, (kind, v) in explore(session, run, base_pc=c.pc, parent=c):
        if kind == 'end':
            continue
        if kind == 'raise':
            fail = fail or (p.pc[base:], v)
            continue
        outs.append((p.pc[base:], v))
    if fail is not None and c.decide(z3.And(fail[0])):
        raise PyRaise(fail[1])
    if not outs:
        raise PathEnd()
    t, extra = outs[-1][1]
    for pc, (u, e) in reversed(outs[:-1]):
        if u.sort() != t.sort():
            u, t = num2(u, t)
        t = z3.If(z3.And(pc), u, t)
        if str(e) != str(extra):
            raise Unsupported(f'{tag}: result shape differs between fibres')
    t = z3.simplify(t)
    own = {x.decl().name() for x in consts}
    for d in _decls(t):
        nm = d.name()
        if '!' in nm and nm not in own:
            try:
                if int(nm.rsplit('!', 1)[1].split('_')[0]) >= frozen:
                    raise Unsupported(f'{tag}: result depends on a value introduced in it: {nm}')
            except ValueError:
                pass
    return t, extra


def apply_along_axis(ip, f, axis, arr, args, kw):
    c = cur_or_fail()
    if isinstance(axis, Sym):
        raise Unsupported('symbolic axis')
    ax = axis + arr.ndim if axis < 0 else axis
    if not 0 <= ax < arr.ndim:
        raise PyRaise(np.exceptions.AxisError(axis, arr.ndim))
    frozen = _next_counter()
    vs = [z3.Int(fresh_name('fib')) for _ in range(arr.ndim)]
    others = [k for k in range(arr.ndim) if k != ax]
    for k in others:
        if not c.entails(lift(arr._shape[k]) >= 1) and c.decide(lift(arr._shape[k]) < 1):
            raise PyRaise(ValueError('Cannot apply_along_axis when any iteration dimensions are 0'))

    def fn():
        fib = arr[tuple(slice(None) if k == ax else wrap(vs[k]) for k in range(arr.ndim))]
        r = ip.call_value(f, [fib.copy()] + list(args), dict(kw))
        if isinstance(r, SArr):
            if r.ndim != 1:
                raise Unsupported('apply_along_axis: fibre result is not 1-D')
            return r.term(vs[ax]), tuple(z3.simplify(lift(d)) for d in r._shape)
        return lift(r), ()
    t, shape = pointwise(ip.session, fn, vs, z3.And([z3.And(vs[k] >= 0, vs[k] < lift(arr._shape[k])) for k in others]), frozen, 'apply_along_axis')
    for d in shape:
        if any(v.decl().name() in {x.name() for x in _decls(d)} for v in vs):
            raise Unsupported('apply_along_axis: fibre length varies')
    new = list(arr._shape)
    if shape:
        new[ax] = shape[0]
    else:
        del new[ax]
        vs = [v for k, v in enumerate(vs) if k != ax]
    return SArr.make(new, st_sort(t), lambda *i: z3.substitute(t, *zip(vs, [lift(x) for x in i])))


def _next_counter():
    return int(fresh_name('c').rsplit('!', 1)[1])


def _decls(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x.decl())
            todo.extend(x.children())
    return out


def merge_paths(session, fn, parent):
    """Run fn on all paths below the current one and merge scalar results with ITE."""
    outs = []

    def run():
        return fn()
    base = len(parent.pc)
    for p, (kind, v) in explore(session, run, base_pc=parent.pc, parent=parent):
        if kind == 'end':
            continue
        if kind == 'raise':
            raise Unsupported(f'exception inside merged expression: {v!r}')
        outs.append((p.pc[base:], v))
    if not outs:
        raise PathEnd()
    if len(outs) == 1:
        return outs[0][1]
    r = lift(outs[-1][1])
    for pc, v in reversed(outs[:-1]):
        a, b = lift(v), r
        if a.sort() != b.sort():
            a, b = num2(a, b)
        r = z3.If(z3.And(pc), a, b)
    return wrap(r)


def contains_sym(x, d=0):
    if isinstance(x, (Sym, SArr, SSeq, SRange)):
        return True
    if d < 3:
        if isinstance(x, (list, tuple, set)):
            return any(contains_sym(y, d + 1) for y in x)
        if isinstance(x, dict):
            return any(contains_sym(y, d + 1) for y in x.values())
        if isinstance(x, np.ndarray) and x.dtype == object:
            return any(contains_sym(y, d + 1) for y in x.ravel()[:50])
        if isinstance(x, slice):
            return any(isinstance(y, Sym) for y in (x.start, x.stop, x.step))
    return False


def sym_index(i):
    if isinstance(i, tuple):
        return any(sym_index(x) for x in i)
    if isinstance(i, slice):
        return any(isinstance(y, Sym) for y in (i.start, i.stop, i.step))
    return isinstance(i, (Sym, SArr))


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
       ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
       ast.RShift: operator.rshift}
AUG = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
       ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitAnd: operator.iand,
       ast.BitOr: operator.ior, ast.BitXor: operator.ixor, ast.MatMult: operator.imatmul}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
       ast.GtE: operator.ge}
