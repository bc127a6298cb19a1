"""C15: operator and variable tables of the genetic search; left-hand-side quantities never leak."""
import builtins, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp
from pyvc.report import need, check, Fail
from . import sga
from .c12 import C

ID = 'C15'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'seeded problems (1..3 spatial axes, arbitrary names, parameter fields, evolution axes) and seeded defective inputs; non-trivial when the seed is new'
CTX = sga.CTX
S = z3.StringSort()


# ------------------------------------------------------------------ ghost vocabulary
# Every symbolic collection (fields, parameters, axes, derivative arrays) is projected on two arbitrary distinct members (the witnesses): loops
# and comprehensions run for those members, so a fact about the resulting tables holds for any two members, hence for all of them.
class SStr:
    """symbolic text"""

    def __init__(self, t):
        self.t = t

    def _o(self, o):
        return o.t if isinstance(o, SStr) else z3.StringVal(o) if isinstance(o, str) else None

    def __eq__(self, o):
        t = self._o(o)
        return False if t is None else wrap(z3.simplify(self.t == t))

    def __ne__(self, o):
        r = self == o
        return snot(r) if isinstance(r, Sym) else not r

    def __hash__(self):
        raise Unsupported('symbolic text as a key')

    def __add__(self, o):
        return SStr(z3.Concat(self.t, self._o(o)))

    def __radd__(self, o):
        return SStr(z3.Concat(self._o(o), self.t))

    def __mul__(self, n):
        if isinstance(n, int) and n >= 1:
            return self if n == 1 else SStr(z3.Concat(*[self.t] * n))
        raise Unsupported('text repetition')

    def __symlen__(self):
        return wrap(z3.Length(self.t))

    def __symcontains__(self, x):
        return wrap(z3.Contains(self.t, self._o(x)))

    def __format__(self, spec):
        return f'<{self.t}>'

    def strip(self):
        return self


class Tok:
    """opaque array of the problem; two tokens are the same array exactly when they have the same tag"""

    def __init__(self, *tag):
        self.tag = tag

    def same(self, o):
        return isinstance(o, Tok) and all((a is b) or (not isinstance(a, (Tok, SStr)) and a == b) or (isinstance(a, Tok) and a.same(b)) for a, b in zip(self.tag, o.tag)) and len(self.tag) == len(o.tag)

    @property
    def shape(self):
        return ShapeOf(self)

    @property
    def size(self):
        return Int('size_of_' + str(self.tag[0]))


class ShapeOf:
    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, o):
        if isinstance(o, Grid):
            return wrap(self.tok.tag[-1])
        return isinstance(o, ShapeOf) and self.tok is o.tok

    def __ne__(self, o):
        r = self == o
        return snot(r) if isinstance(r, Sym) else not r

    __hash__ = object.__hash__


class Grid:
    """shape of the problem grid"""

    def __eq__(self, o):
        return o == self if isinstance(o, ShapeOf) else isinstance(o, Grid)

    def __ne__(self, o):
        r = self == o
        return snot(r) if isinstance(r, Sym) else not r

    __hash__ = object.__hash__


class Proj:
    """collection of arbitrary size seen through two arbitrary members"""

    def __init__(self, items):
        self.known = list(items)

    def __iter__(self):
        return iter(self.known)

    def __symlen__(self):
        return wrap(z3.Int(fresh_name('n')))

    def __add__(self, o):
        return Proj(self.known + list(o))

    def __radd__(self, o):
        return Proj(list(o) + self.known)

    def __and__(self, o):
        return Common([(a, b) for a in self.known for b in o])

    __rand__ = __and__

    def __or__(self, o):
        return Proj(self.known + list(o))

    __ror__ = __or__

    def intersection(self, o):
        return self & o

    def union(self, *o):
        return Proj(self.known + [x for s in o for x in s])

    def isdisjoint(self, o):
        return not cur_truth(self & o)


class Common:
    """intersection of two projected collections: when it is empty, no two known members are equal"""

    def __init__(self, pairs):
        self.pairs = pairs

    def __symlen__(self):
        c = cur()
        if c.choose(2) == 0:
            for a, b in self.pairs:
                c.assume(z3.Not(lift_bool(a == b)), check=False)
            return 0
        return 1

    def __iter__(self):
        return iter([])

    __format__ = lambda self, s: 'names'


def cur_truth(x):
    return x.__symlen__() != 0


class SDict:
    """dictionary with arbitrary content: two arbitrary distinct members"""

    def __init__(self, tag, mk, sort=S):
        self.tag = tag
        self.names = [SStr(z3.Const(f'{tag}{i}', sort)) for i in (1, 2)]
        self.vals = [mk(n, i) for i, n in enumerate(self.names)]
        cur().assume(self.names[0].t != self.names[1].t, check=False)

    def items(self):
        return Proj(list(zip(self.names, self.vals)))

    def keys(self):
        return Proj(self.names)

    def values(self):
        return Proj(self.vals)

    def __iter__(self):
        return iter(self.names)

    def look(self, k):
        for n, v in zip(self.names, self.vals):
            if k is n:
                return v
        raise Unsupported(f'lookup of another key of {self.tag}')

    __getitem__ = look

    def get(self, k, d=None):
        return self.look(k)

    def __symlen__(self):
        n = z3.Int('n_' + self.tag)
        cur().assume_axiom(n >= 2)
        return wrap(n)


class Ip(Interp):
    def e_JoinedStr(self, e, fr):
        import ast
        parts = []
        for v in e.values:
            x = v.value if isinstance(v, ast.Constant) else self.eval(v.value, fr) if isinstance(v, ast.FormattedValue) else self.eval(v, fr)
            parts.append(x)
        if any(isinstance(p, SStr) for p in parts):
            r = None
            for p in parts:
                p = SStr(z3.StringVal(p if isinstance(p, str) else f'{p}')) if not isinstance(p, SStr) else p
                r = p if r is None else r + p
            return r
        return Interp.e_JoinedStr(self, e, fr)

    def comp(self, e, fr, ctor):
        it = self.eval(e.generators[0].iter, fr)
        if isinstance(it, (Proj, SDict)):
            out = []

            def rec(k, f2):
                if k == len(e.generators):
                    out.append(self.eval(e.elt, f2))
                    return
                g = e.generators[k]
                src = it if k == 0 else self.eval(g.iter, f2)
                for v in src:
                    f3 = self.subframe(f2)
                    self.assign(g.target, v, f3)
                    if all(self.truth(self.eval(c, f3)) for c in g.ifs):
                        rec(k + 1, f3)
            rec(0, fr)
            return Proj(out)
        return Interp.comp(self, e, fr, ctor)


def base_contracts(ip, c):
    nm = need('kd.model.sga.sgapde.naming')

    def coll(ctor):
        def h(ip_, x=()):
            if isinstance(x, (Proj, SDict)):
                return Proj(x)
            if isinstance(x, list) and any(isinstance(y, SStr) for y in x):
                return Proj(x)
            return ctor(ip_.iterate(x))
        return h

    def srt(ip_, x, **k):
        if isinstance(x, (Common, Proj)):
            return x
        return sorted(x)

    def vname(ip_, n, reserved=None):
        for r in nm.DEFAULT_RESERVED:
            c.assume_axiom(n.t != z3.StringVal(r))
        c.assume_axiom(z3.Length(n.t) > 0)
        return n

    def vaxis(ip_, n, reserved=None):
        vname(ip_, n)
        c.assume_axiom(z3.Not(z3.Contains(n.t, z3.StringVal('_'))))
        return n
    ctxm = need(CTX)
    for f in (builtins.list, builtins.set, builtins.tuple, builtins.frozenset):
        ip.contracts[f] = coll(f)
    ip.contracts[builtins.sorted] = srt
    ip.contracts[nm.validate_name] = vname
    ip.contracts[nm.validate_axis_name] = vaxis


def np_array(ip_, x, dtype=None, **k):
    if isinstance(x, (list, Proj)):
        return x
    if isinstance(x, Tok):
        return x
    return np.array(x, dtype=dtype)


def world(c, S=S):
    """symbolic problem: any fields, parameters and axes (names: texts, or opaque names where only equality matters)"""
    def sh(tag):
        return Bool(tag + '_has_grid_shape').t
    w = types.SimpleNamespace()
    w.fields = SDict('field', lambda n, i: Tok('field', i, sh(f'field{i}')), S)
    w.params = SDict('param', lambda n, i: Tok('param', i, sh(f'param{i}')), S)
    w.grids = SDict('axis', lambda n, i: Tok('grid', i), S)
    w.axes = w.grids.names
    w.lhs = SStr(z3.Const('lhs_axis', S))
    w.target = SStr(z3.Const('target', S))
    w.fdtags = {}
    return w


def ghost_ctx(w, with_params=True):
    cls = need(CTX, 'ProblemContext')
    s = cls.__new__(cls)
    s.config = types.SimpleNamespace(param_fields=w.params if with_params else None, enforce_uniform_grid=Bool('uniform'), divide=need(sga.CFG, 'SolverConfig').divide)
    s.fields, s.coord_grids, s.axis_order = w.fields, w.grids, Proj(w.axes)
    s.lhs_axis, s.target_field = w.lhs, w.target
    s.zeros, s.u, s.x = Tok('zeros'), Tok('target'), Tok('x')
    return s


def same_name(a, b):
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.t == b.t
    if isinstance(a, SStr) or isinstance(b, SStr):
        a, b = (a, b) if isinstance(a, SStr) else (b, a)
        return a.t == z3.StringVal(b)
    return z3.BoolVal(a == b)


# ------------------------------------------------------------------ groups
def names_facts(ctx, c, w, s, axes=None):
    """run the real name validation; what follows holds because it returned"""
    ip = Ip(ctx.session)
    base_contracts(ip, c)
    try:
        ip.call(type(s)._validate_registry_names, s, w.fields, w.grids, Proj(w.axes))
    except PyRaise:
        raise PathEnd()


def rows_of(V):
    return [(r[0], r[1], r[2]) for r in V]


def g_tables(with_params):
    def g(ctx):
        ctxm = need(CTX)

        def run():
            c = cur()
            w = world(c)
            s = ghost_ctx(w, with_params)
            names_facts(ctx, c, w, s)
            gk = SDict('grad', lambda n, i: Tok('gradient', i))
            s.grad_fields = gk
            ip = Ip(ctx.session)
            base_contracts(ip, c)
            ip.contracts[np.array] = np_array
            try:
                V0 = ip.call(ctxm.ProblemContext._build_vars, s, include_grad=False)
                V1 = ip.call(ctxm.ProblemContext._build_vars, s, include_grad=True)
            except PyRaise as e:
                c.prove('tables: building the variable table does not fail', z3.BoolVal(False))
                return
            for lab, V, grad in (('plain', V0, False), ('full', V1, True)):
                rows = rows_of(V)
                want = [(n, v) for n, v in zip(w.fields.names, w.fields.vals)]
                want += [(n, v) for n, v in zip(w.params.names, w.params.vals)] if with_params else []
                want += [('0', s.zeros)]
                want += list(zip(gk.names, gk.vals)) if grad else []
                for n, v in want:
                    hit = [r for r in rows if r[0] is n or (isinstance(n, str) and isinstance(r[0], str) and r[0] == n)]
                    c.prove(f'tables({lab}): every field, parameter, zero and derivative entry appears exactly once with its own array', z3.BoolVal(len(hit) == 1 and hit[0][2] is v))
                for a, v in zip(w.axes, w.grids.vals):
                    hit = [r for r in rows if r[0] is a]
                    c.prove(f'tables({lab}): an axis is listed exactly once unless it is the evolution axis, which is not listed', z3.If(a.t == w.lhs.t, z3.BoolVal(not hit), z3.BoolVal(len(hit) == 1 and bool(hit) and hit[0][2] is v)))
                c.prove(f'tables({lab}): every entry is a leaf', z3.BoolVal(all(isinstance(r[1], int) and r[1] == 0 for r in rows)))
                known = [x for x, _ in want] + list(w.axes)
                c.prove(f'tables({lab}): nothing else is listed', z3.BoolVal(all(any(r[0] is k or (isinstance(k, str) and r[0] == k if isinstance(r[0], str) else False) for k in known) for r in rows)))
        ctx.run(run)
        ctx.assume_note('a coordinate grid exists for every axis (established by _init_variable_registry)', 'dictionary keys are distinct',
                        'two-member projection: loops over fields, parameters, axes and derivative arrays treat their members independently')
    return g


def g_names(ctx):
    """after validation, no two entries of the variable table share a name, and none names the target derivative or the evolution axis"""
    ctxm = need(CTX)
    nm = need('kd.model.sga.sgapde.naming')

    def run():
        c = cur()
        w = world(c)
        s = ghost_ctx(w)
        c.assume(w.axes[0].t == w.lhs.t, check=False) if c.choose(2) else None
        names_facts(ctx, c, w, s)
        f, p, a = w.fields.names, w.params.names, w.axes
        K = lambda x, y: z3.Concat(x.t, z3.StringVal('_'), y.t)
        c.prove('names: a field never has the name of an axis', z3.And([x.t != y.t for x in f for y in a]))
        c.prove('names: a parameter never has the name of an axis', z3.And([x.t != y.t for x in p for y in a]))
        c.prove('names: a parameter never has the name of a field', z3.And([x.t != y.t for x in p for y in f]))
        c.prove('names: no field or parameter has the name of a derivative of a field', z3.And([x.t != K(y, z) for x in f + p for y in f for z in a]))
        c.prove('names: no name is reserved or empty', z3.And([z3.And(x.t != z3.StringVal(r), z3.Length(x.t) > 0) for x in f + p + a for r in nm.DEFAULT_RESERVED]))
        c.prove('names: axis names contain no underscore', z3.And([z3.Not(z3.Contains(x.t, z3.StringVal('_'))) for x in a]))
        if c.entails(w.target.t == f[0].t) or c.choose(2):
            c.assume(z3.And(w.target.t == f[0].t, z3.Length(w.lhs.t) == 1), check=False)
            c.prove('names: no field or parameter is called like the target derivative (legacy spelling)', z3.And([x.t != z3.Concat(w.target.t, w.lhs.t) for x in f + p]))
    ctx.run(run)
    ctx.assume_note('validate_name / validate_axis_name return normally only for non-reserved names of letters, digits and underscores (axis names without underscore) [checked by the bounded cases]')


def g_keys(ctx):
    """derivative names determine field and axis"""
    nm = need('kd.model.sga.sgapde.naming')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        base_contracts(ip, c)
        f, g, a, b = (SStr(z3.Const(n, S)) for n in ('f', 'g', 'a', 'b'))
        k1 = ip.run_function(nm.build_derivative_key, [f, a], dict(order=1))
        k2 = ip.run_function(nm.build_derivative_key, [g, b], dict(order=1))
        c.prove('keys: the derivative name is field_axis', k1.t == z3.Concat(f.t, z3.StringVal('_'), a.t))
        c.prove('keys: different field or axis, different derivative name', z3.Implies(k1.t == k2.t, z3.And(f.t == g.t, a.t == b.t)))
    ctx.run(run)


class GDict:
    """dictionary being filled with derivative arrays"""

    def __init__(self):
        self.put = []

    def __symcontains__(self, k):
        ts = [k.t == x.t for x, _ in self.put]
        return wrap(z3.simplify(z3.Or(ts))) if ts else False

    def __setitem__(self, k, v):
        self.put.append((k, v))

    def __symlen__(self):
        return wrap(z3.Int(fresh_name('n')))

    def items(self):
        return Proj(self.put)


def g_grads(ctx):
    """derivative entries: one per field and non-evolution axis, each the derivative of its own field along its own axis"""
    ctxm = need(CTX)
    P = ctxm.ProblemContext

    def run():
        c = cur()
        w = world(c, z3.IntSort())
        s = ghost_ctx(w)
        KEY = z3.Function('KEY', z3.IntSort(), z3.IntSort(), z3.IntSort())
        K = lambda x, y: KEY(x.t, y.t)
        f, a = w.fields.names, w.axes
        prs = [(x, y) for x in f for y in a]
        for i, (x, y) in enumerate(prs):
            for x2, y2 in prs[i + 1:]:
                c.assume_axiom(K(x, y) != K(x2, y2))       # group keys
            for x2 in f:
                c.assume_axiom(z3.Implies(K(x, y) == K(x2, w.lhs), z3.And(x.t == x2.t, y.t == w.lhs.t)))
        s.grad_fields = GDict()

        class M:
            def __init__(self, what):
                self.what = what

            def look(self, k, d=None):
                return Tok(self.what, k)

            __getitem__ = look
            get = look

            def __symcontains__(self, k):
                return True
        s.axis_map, s.delta = M('index'), M('delta')
        s.primary_spatial_axis = SStr(z3.Const('primary', z3.IntSort()))
        c.assume(s.primary_spatial_axis.t != w.lhs.t, check=False)
        ip = Ip(ctx.session)
        base_contracts(ip, c)
        fd = lambda ip_, data, delta, axis, order=1: Tok('fd', data, delta, axis, order)
        ip.contracts[P._finite_diff_along_axis] = fd
        ip.contracts[need('kd.model.sga.sgapde.naming').build_derivative_key] = lambda ip_, x, y, order=1: SStr(K(x, y)) if order == 1 else None
        # the legacy derivatives of the target
        s.u = Tok('target')
        s.u_origin = Tok('target_origin')
        s._origin_delta = lambda ax: Tok('delta_origin', ax)
        ip.call(P._calculate_derivatives_difference, s)
        prim, T1 = s.primary_spatial_axis, Tok
        dp, ip_ = Tok('delta', prim), Tok('index', prim)
        ux = Tok('fd', s.u, dp, ip_, 1)
        c.prove('grads: the target derivative is that of the target along the evolution axis', z3.BoolVal(s.ut.same(Tok('fd', s.u, Tok('delta', w.lhs), Tok('index', w.lhs), 1))))
        c.prove('grads: u_x is the derivative of the target along the primary axis', z3.BoolVal(s.ux.same(ux)))
        uxx = Tok('fd', s.ux, dp, ip_, 1)
        c.prove('grads: higher derivatives are derivatives of the lower ones along the same axis', z3.BoolVal(s.uxx.same(uxx) and s.uxxx.same(Tok('fd', s.uxx, dp, ip_, 1))))
        ip.call(P._compute_grad_fields, s)
        put = s.grad_fields.put
        for i, x in enumerate(f):
            for j, y in enumerate(a):
                hit = [v for k, v in put if k.t.eq(K(x, y))]
                own = Tok('fd', w.fields.vals[i], Tok('delta', y), Tok('index', y), 1)
                tgt = z3.And(x.t == w.target.t, y.t == prim.t)
                good = z3.BoolVal(len(hit) == 1 and hit[0].same(own)) if not (len(hit) == 1 and hit[0] is s.ux) else tgt
                c.prove('grads: one derivative per field and non-evolution axis, of that field along that axis', z3.If(y.t == w.lhs.t, z3.BoolVal(not hit), good))
        c.prove('grads: nothing else is stored', z3.BoolVal(len(put) <= 4))
        # the guard against the target derivative accepts these tables
        try:
            ip.call(P._assert_no_lhs_in_grad_fields, s)
        except PyRaise:
            c.prove('grads: the guard accepts tables without evolution-axis derivatives', z3.BoolVal(False))
    ctx.run(run)
    ctx.assume_note('the derivative along an axis is C10; the target is fields[target_field]')


def g_guards(ctx):
    """the guards refuse tables that mention the evolution axis"""
    P = need(CTX, 'ProblemContext')

    def run():
        c = cur()
        w = world(c)
        s = ghost_ctx(w)
        ip = Ip3(ctx.session)
        base_contracts(ip, c)
        which = c.choose(3)
        if which == 0:
            s.VARS = [[w.fields.names[0], 0, None], [w.axes[0], 0, None]]
            f, bad = P._assert_no_lhs_in_vars, z3.Or(w.fields.names[0].t == w.lhs.t, w.axes[0].t == w.lhs.t)
        elif which == 1:
            s.den = [[w.axes[0], 0, None], [w.axes[1], 0, None]]
            f, bad = P._assert_no_lhs_in_den, z3.Or(w.axes[0].t == w.lhs.t, w.axes[1].t == w.lhs.t)
        else:
            key = SStr(z3.Const('some_key', S))
            g = GDict()
            g.put = [(key, None)]
            s.grad_fields = g
            f, bad = P._assert_no_lhs_in_grad_fields, z3.Or([key.t == z3.Concat(x.t, z3.StringVal('_'), w.lhs.t) for x in w.fields.names])
        ip.contracts[builtins.set] = lambda ip_, x=(): NameSet(list(x))
        try:
            ip.call(f, s)
            c.prove('guards: a table that mentions the evolution axis is refused', z3.Not(bad))
        except PyRaise:
            c.prove('guards: only tables that mention the evolution axis are refused', bad)
    class NameSet(list):
        def __symcontains__(self, x):
            return wrap(z3.simplify(z3.Or([same_name(x, y) for y in self]))) if self else False

    class Ip3(Ip):
        def e_SetComp(self, e, fr):
            return NameSet(self.comp(e, fr, list))
    ctx.run(run)


def g_den(ctx):
    """operator tables: known operators with their arities and functions; differentiation variables are the non-evolution axes"""
    P = need(CTX, 'ProblemContext')
    dif = need('kd.model.sga.sgapde.PDE_find')

    def run():
        c = cur()
        w = world(c)
        s = ghost_ctx(w)
        names_facts(ctx, c, w, s)
        ip = Ip(ctx.session)
        base_contracts(ip, c)
        ip.contracts[np.array] = np_array
        ip.contracts[np.zeros] = lambda ip_, sh, *a, **k: Tok('zeros')
        ip.contracts[P._build_vars] = lambda ip_, self, include_grad: []
        try:
            ip.call(P._init_operators, s)
        except PyRaise:
            c.prove('operators: tables are refused only when no axis is left to differentiate', z3.And([a.t == w.lhs.t for a in w.axes]))
            return
        for a, v in zip(w.axes, w.grids.vals):
            hit = [r for r in s.den if r[0] is a]
            c.prove('operators: the differentiation variables are exactly the other axes, each with its own grid', z3.If(a.t == w.lhs.t, z3.BoolVal(not hit), z3.BoolVal(len(hit) == 1 and bool(hit) and hit[0][2] is v and hit[0][1] == 0)))
        c.prove('operators: nothing else to differentiate with respect to', z3.BoolVal(all(any(r[0] is a for a in w.axes) for r in s.den)))
        ar = {'+': (2, np.add), '-': (2, np.subtract), '*': (2, np.multiply), '/': (2, s.config.divide), 'd': (2, dif.Diff), 'd^2': (2, dif.Diff2), '^2': (1, None), '^3': (1, None)}
        un = lambda f, p: f is (np.square if p == 2 else f) and np.allclose(f(np.array([-2., .5, 3.])), np.array([-2., .5, 3.]) ** p)
        for tb, among in (('OPS', set(ar)), ('ROOT', {'*', 'd', 'd^2', '/', '^2', '^3'}), ('OP1', {'^2', '^3'}), ('OP2', {'+', '-', '*', '/', 'd', 'd^2'})):
            rows = [tuple(r) for r in getattr(s, tb)]
            ok = all(r[0] in among and r[1] == ar[r[0]][0] and (r[2] is ar[r[0]][1] if ar[r[0]][1] is not None else np.allclose(r[2](np.array([-2., .5, 3.])), np.array([-2., .5, 3.]) ** int(r[0][1]))) for r in rows)
            c.prove(f'operators: table {tb} pairs each operator with its arity and function', z3.BoolVal(ok and len({r[0] for r in rows}) == len(rows) and {r[0] for r in rows} <= among))
        c.prove('operators: the unary and binary tables split the operator table', z3.BoolVal(sorted(r[0] for r in s.OP1) + sorted(r[0] for r in s.OP2) == sorted(r[0] for r in s.OPS if r[1] == 1) + sorted(r[0] for r in s.OPS if r[1] == 2)))
    ctx.run(run)


def g_grid(ctx):
    """grid validation: every field and parameter has the shape of the grid"""
    P = need(CTX, 'ProblemContext')

    def run():
        c = cur()
        w = world(c)
        s = ghost_ctx(w)
        coords = SDict('axis', lambda n, i: types.SimpleNamespace(shape=(Int(f'len{i}'),), ndim=Int(f'ndim{i}'), size=Int(f'len{i}')))
        coords.names = w.axes
        G = Grid()
        ip = Ip(ctx.session)
        base_contracts(ip, c)
        ip.contracts[builtins.tuple] = lambda ip_, x=(): G if isinstance(x, Proj) else tuple(x)
        ip.contracts[np.shape] = lambda ip_, x: x.shape
        ip.contracts[np.diff] = lambda ip_, x: _D(x)
        ip.contracts[np.allclose] = lambda ip_, x, y, *a, **k: Bool(fresh_name('uniform'))

        class _D:
            def __init__(self, x):
                self.x = x

            def __getitem__(self, i):
                return ('step', i)

        class PSet(Proj):
            def __eq__(self, o):
                return True

            def __ne__(self, o):
                return False

            __hash__ = object.__hash__

            def __sub__(self, o):
                return []

            def __symlen__(self):
                return Same('set of axes')

        class Same:
            def __init__(self, w):
                self.w = w
        ip.contracts[builtins.set] = lambda ip_, x=(): PSet(x)
        ip.contracts[builtins.len] = lambda ip_, x: 2 if isinstance(x, (Proj, SDict)) else len(x)
        try:
            ip.call(P._validate_structured_grid, s, w.fields, coords, Proj(w.axes))
        except PyRaise:
            return
        c.prove('grid: accepted only when every field has the grid shape', z3.And([v.tag[-1] for v in w.fields.vals]))
        c.prove('grid: accepted only when every parameter has the grid shape', z3.And([v.tag[-1] for v in w.params.vals]))
        c.prove('grid: accepted only when every coordinate is one-dimensional', z3.And([v.ndim.t == 1 for v in coords.vals]))
    ctx.run(run)
    ctx.assume_note('the coordinate keys are the axes (compared by the same function)')


def g_delta(ctx):
    P = need(CTX, 'ProblemContext')
    from pyvc.arrays import SArr

    def run():
        c = cur()
        n = Int('n')
        c.assume(n.t >= 0)
        cf = z3.Function('coord', z3.IntSort(), z3.RealSort())
        arr = SArr.make([n.t], 'real', lambda i: cf(i))
        ip = Interp(ctx.session)
        try:
            d = ip.call(P._compute_delta, arr, 'x')
        except PyRaise:
            j = z3.Int('j')
            up = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < n.t), cf(j + 1) > cf(j)))
            dn = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < n.t), cf(j + 1) < cf(j)))
            c.prove('spacing: strictly monotone coordinates are accepted', z3.Not(z3.Or(up, dn)))
            return
        i, j = z3.Int('i'), z3.Int('j')
        c.assume(z3.And(i >= 0, i + 1 < n.t, j >= 0, j + 1 < n.t))
        c.prove('spacing: accepted coordinates are strictly monotone', z3.Or(z3.And(cf(i + 1) > cf(i), cf(j + 1) > cf(j)), z3.And(cf(i + 1) < cf(i), cf(j + 1) < cf(j))))
        c.prove('spacing: the spacing is the first step', lift(d) == cf(z3.IntVal(1)) - cf(z3.IntVal(0)))
    ctx.run(run)


def groups():
    return [('tables', g_tables(True)), ('tables:no-parameters', g_tables(False)), ('names', g_names), ('keys', g_keys), ('grads', g_grads), ('guards', g_guards), ('operators', g_den), ('grid', g_grid), ('spacing', g_delta)]


# ------------------------------------------------------------------ observed problems
AX = ['x', 't', 'y', 'z', 'r', 's', 'lat', 'tt']
FN = ['u', 'v', 'w', 'rho', 'p1', 'w_1', 'U', 'u2', 'field_b', 'phi']
PN = ['nu', 'kappa', 'k1', 'mu_0', 'alpha', 'c']


def make(rng, big=False):
    """keyword arguments of a valid problem"""
    nd = rng.choice([2, 2, 2, 3, 3, 4])
    axes = rng.sample(AX, nd)
    r = np.random.RandomState(rng.randrange(2 ** 31))
    L = {a: (rng.choice([5, 6, 7, 11]) if nd < 4 else rng.choice([5, 6])) for a in axes}
    co = {a: np.linspace(*sorted(r.uniform(-2, 3, 2) + [0, .3]), L[a]) * rng.choice([1, 1, 1, -1]) for a in axes}
    order = rng.sample(axes, nd)
    shape = tuple(L[a] for a in order)
    lhs = rng.choice(axes)
    fields = {f: r.rand(*shape) + .5 for f in rng.sample(FN, rng.choice([1, 1, 2, 3]))}
    kw = dict(fields_data=fields, coords_1d=co, axis_order=order, lhs_axis=lhs, target_field=rng.choice(list(fields)))
    np_ = rng.choice([0, 0, 1, 2])
    if np_:
        kw['param_fields'] = {p: r.rand(*shape) for p in rng.sample(PN, np_)}
    if rng.random() < .3:
        kw['primary_spatial_axis'] = rng.choice([a for a in axes if a != lhs])
    if rng.random() < .3:
        kw['simple_mode'] = False
    return kw


def build(kw):
    SolverConfig, ProblemContext = need(sga.CFG, 'SolverConfig'), need(CTX, 'ProblemContext')
    return sga.quiet(ProblemContext, sga.quiet(SolverConfig, **kw))


def case_tables(seed):
    import random
    kw = make(random.Random(seed))
    f0 = {k: v.copy() for k, v in kw['fields_data'].items()}
    p0 = {k: v.copy() for k, v in kw.get('param_fields', {}).items()}
    c0 = {k: v.copy() for k, v in kw['coords_1d'].items()}
    ctx = build(kw)
    order, lhs, target = kw['axis_order'], kw['lhs_axis'], kw['target_field']
    shape = next(iter(f0.values())).shape
    rest = [a for a in order if a != lhs]
    grid = {a: np.broadcast_to(c0[a].reshape([-1 if b == a else 1 for b in order]), shape) for a in order}
    want = dict(f0)
    want.update({a: grid[a] for a in rest})
    want.update(p0)
    want['0'] = np.zeros(shape)
    for f in f0:
        for a in rest:
            want[f'{f}_{a}'] = sga.fd(f0[f], c0[a][1] - c0[a][0], order.index(a), 1)
    names = [r[0] for r in ctx.VARS]
    check(len(set(names)) == len(names), f'a name is listed twice: {sorted(names)}')
    check(set(names) == set(want), f'variables {sorted(set(names) ^ set(want))} are missing or unexpected')
    ut = sga.fd(f0[target], c0[lhs][1] - c0[lhs][0], order.index(lhs), 1)
    for nm, n, v in ctx.VARS:
        check(n == 0, f'variable {nm} has {n} children')
        check(np.shape(v) == shape, f'variable {nm} has shape {np.shape(v)} on a {shape} grid')
        check(np.allclose(np.asarray(v, dtype=float), want[nm], rtol=1e-9, atol=1e-9), f'variable {nm} carries other values')
        check(not np.allclose(np.asarray(v, dtype=float), ut), f'variable {nm} is the target derivative')
    den = [(r[0], r[1]) for r in ctx.den]
    check(sorted(d[0] for d in den) == sorted(rest), f'differentiation variables {den} instead of {rest}')
    for nm, n, v in ctx.den:
        check(n == 0 and np.shape(v) == shape and np.allclose(np.asarray(v, dtype=float), grid[nm]), f'differentiation variable {nm}')
    check(np.allclose(ctx.ut, ut), 'target derivative')
    prim = kw.get('primary_spatial_axis') or ('x' if 'x' in rest else rest[0])
    check(np.allclose(ctx.ux, want[f'{target}_{prim}']), 'u_x is not the derivative along the primary axis')
    a, b = np.array([[2., -3., .5]]), np.array([[4., 2., -1.]])
    fn = {'+': a + b, '-': a - b, '*': a * b, '/': a / b, '^2': a ** 2, '^3': a ** 3}
    for tb in ('OPS', 'ROOT', 'OP1', 'OP2'):
        for nm, n, f in getattr(ctx, tb):
            check(n == (1 if nm in ('^2', '^3') else 2), f'operator {nm} has {n} children in {tb}')
            if nm in fn:
                check(np.allclose(f(a, b) if n == 2 else f(a), fn[nm]), f'operator {nm} of {tb} computes something else')
            else:
                check(f.__name__ == {'d': 'Diff', 'd^2': 'Diff2'}.get(nm), f'operator {nm} of {tb} calls {f}')
    check(not ({r[0] for r in ctx.OPS} & set(names)), 'a variable is called like an operator')


def breakages(kw, rng):
    """(description, defective problem) pairs"""
    r = np.random.RandomState(rng.randrange(2 ** 31))
    order, lhs, tgt = kw['axis_order'], kw['lhs_axis'], kw['target_field']
    shape = kw['fields_data'][tgt].shape
    arr = lambda: r.rand(*shape)
    sp = [a for a in order if a != lhs]

    def F(**x):
        return dict(kw, fields_data={**kw['fields_data'], **x})

    def P(**x):
        return dict(kw, param_fields={**kw.get('param_fields', {}), **x})

    def Co(**x):
        return dict(kw, coords_1d={**kw['coords_1d'], **x})
    out = [(f'field {n!r}', F(**{n: arr()})) for n in ['1a', 'a b', '', '0', '^2', '+', '/', 'd', 'u-v', 'u\n', '_u', 'ux'] + [rng.choice(order), f'{tgt}_{rng.choice(order)}', f'{tgt}_{lhs}']]
    out += [(f'parameter {n!r}', P(**{n: arr()})) for n in ['1a', 'a b', '', '0', 'd', 'nu\n', '-'] + [rng.choice(order), rng.choice(list(kw['fields_data'])), f'{tgt}_{sp[0]}', f'{tgt}_{lhs}', lhs]]
    if len(lhs) == 1:
        out += [('field named like the target derivative', F(**{tgt + lhs: arr()})), ('parameter named like the target derivative', P(**{tgt + lhs: arr()}))]
    bad = arr()[..., :-1]
    out += [('field of another shape', F(extra=bad)), ('parameter of another shape', P(extra=bad)), ('transposed parameter', P(extra=np.zeros(shape[::-1] if shape[::-1] != shape else shape + (1,)))), ('scalar parameter', P(extra=np.array(2.0)))]
    a = rng.choice(order)
    c = kw['coords_1d'][a]
    i = rng.randrange(1, len(c) - 1)
    dup, sw, non = c.copy(), c.copy(), c.copy()
    dup[i] = dup[i - 1]
    sw[[i, i - 1]] = sw[[i - 1, i]]
    out += [(f'duplicate coordinate on {a}', Co(**{a: dup})), (f'non-monotone {a}', Co(**{a: sw})), (f'non-monotone {a} without uniformity', dict(Co(**{a: sw}), enforce_uniform_grid=False)),
            (f'duplicate coordinate on {a} without uniformity', dict(Co(**{a: dup}), enforce_uniform_grid=False)), (f'two-dimensional {a}', Co(**{a: c[:, None]})), (f'short {a}', Co(**{a: c[:-1]}))]
    non[i] += .4 * (c[1] - c[0])
    out += [(f'non-uniform {a}', Co(**{a: non})), ('repeated axis', dict(kw, axis_order=order + [order[0]])), ('missing axis', dict(kw, axis_order=order[:-1])), ('unknown axis', dict(kw, axis_order=order[:-1] + ['q'])),
            ('axis with underscore', dict(kw, axis_order=['a_b' if q == a else q for q in order], coords_1d={('a_b' if k == a else k): v for k, v in kw['coords_1d'].items()})),
            ('unknown evolution axis', dict(kw, lhs_axis='q')), ('unknown target', dict(kw, target_field='nope')), ('evolution axis as primary axis', dict(kw, primary_spatial_axis=lhs)),
            ('unknown primary axis', dict(kw, primary_spatial_axis='q'))]
    rng.shuffle(out)
    return out


def case_refused(seed):
    import random
    rng = random.Random(seed)
    kw = make(rng)
    for what, bad in breakages(kw, rng)[:8]:
        try:
            ctx = build(bad)
        except Exception:
            continue
        check(False, f'{what} was accepted ({sorted(bad["fields_data"])}, axes {bad["axis_order"]}, evolution axis {bad["lhs_axis"]}, parameters {sorted(bad.get("param_fields") or {})})', 'accepted:' + what)


def case_divide(seed):
    r = np.random.RandomState(seed)
    div = need(sga.CFG, 'SolverConfig').divide
    a, b = r.randn(3, 4), r.randn(3, 4)
    b[r.rand(3, 4) < .3] = 0
    if seed % 3 == 0:
        b = np.round(b).astype(int)
    b0 = b.copy()
    q = div(a, b)
    check(np.array_equal(b, b0), 'guarded division changed its divisor')
    nz = np.abs(b0) > 1e-3
    check(np.all(np.isfinite(q)) and np.allclose(q[nz], (a / np.where(nz, b0, 1))[nz], rtol=1e-5), 'guarded division of non-zero entries')


def cases(tier, rng):
    i = 0
    while True:
        s = rng.randrange(10 ** 8)
        yield C([case_tables, case_refused, case_divide][0 if i % 5 < 3 else 1 if i % 5 == 3 else 2]), dict(seed=s), ('s', s)
        i += 1
