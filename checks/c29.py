"""C29: symbolic-regression input checking and reporting are faithful."""
import ast, builtins, contextlib, io, os, random, re, tempfile, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq, SRange, seq_of
from pyvc.arrays import SArr
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C29'
LEVEL = 'proof'
BUDGET = {'quick': 30, 'thorough': 600}
RULE = 'random features, targets (right and wrong shapes and values), names (also names that look like other tokens) and expressions through the real model, predictions against an own evaluator; non-trivial when the seed is new'
KR = 'kd.model.kd_discover_regression'
PG = 'kd.model.discover.program'
FN = 'kd.model.discover.functions'
TR = 'kd.model.discover.task.regression'
ASSUMPTIONS = ['numpy: asarray/reshape/isfinite/all/full_like follow their documentation (arrays have at most 64 dimensions)',
               'evaluation of a complete prefix expression gives its value at every row (C06, python_execute)',
               'tokens of an expression contain no comma (they are the names of the library; constants are printed numbers)']


def prepare():
    import triton._C.libtriton


class Seq(SSeq):
    """a list of symbolic length"""

    def __symlen__(self): return wrap(lift(self.length()))

    def __bool__(self):
        return cur().decide(lift(self.length()) > 0)


class Feat:
    """the text x<i> for feature i (i >= 1)"""

    def __init__(self, i): self.i = lift(i)

    def __eq__(self, o):
        raise Unsupported('comparison of texts')
    __hash__ = None


class Name:
    """the name the user gave feature i (i >= 1); text=False: not yet made a text"""

    def __init__(self, i, text=True): self.i, self.text = lift(i), text


class GTok:
    """token q of the expression as text: x<i> when FEAT(q) = i >= 1, otherwise some other text"""

    def __init__(self, S, q): self.S, self.q = S, lift(q)


class Dict_:
    """{key(j): val(j) for all j < n}"""

    def __init__(self, n, at): self.n, self.at = n, at


class Joined:
    def __init__(self, sep, seq): self.sep, self.seq = sep, seq


class Ip(Interp):
    def __init__(self, session):
        Interp.__init__(self, session)
        I, K = self.intrinsics, self.contracts
        old_list, old_enum = I.get(builtins.list), I.get(builtins.enumerate)

        def list_(*a):
            if a and isinstance(a[0], Any1):
                return a[0]
            if a and isinstance(a[0], SSeq):
                return Seq(a[0].length(), a[0].elem)
            r = old_list(*a) if old_list else NotImplemented
            return list(*a) if r is NotImplemented else r

        def enum(x, start=0):
            if isinstance(x, SSeq):
                return Seq(x.length(), lambda k: (wrap(z3.simplify(lift(k) + lift(start))), x.elem(k)))
            return old_enum(x, start) if old_enum else list(enumerate(x, start))

        def str_(*a):
            if a and isinstance(a[0], Name):
                return Name(a[0].i, True)
            if a and isinstance(a[0], (Feat, GTok)):
                return a[0]
            if a and isinstance(a[0], Sym):
                raise Unsupported('text of a number')
            return str(*a)
        I[builtins.list] = I[builtins.tuple] = list_
        I[builtins.enumerate] = enum
        I[builtins.str] = str_
        K[builtins.print] = lambda ip_, *a, **k: None

    def comp(self, e, fr, ctor):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs:
            it = self.eval(g.iter, fr)
            sq = seq_of(it)
            if sq is not None and not z3.is_int_value(z3.simplify(lift(sq.length()))):
                def elem(k):
                    f2 = self.subframe(fr)
                    self.assign(g.target, sq.elem(lift(k)), f2)
                    return self.eval(e.elt, f2)
                return Seq(sq.length(), elem)
        return super().comp(e, fr, ctor)

    def e_SetComp(self, e, fr):
        g = e.generators[0]
        it = self.eval(g.iter, fr) if len(e.generators) == 1 and not g.ifs else None
        if isinstance(it, list) and it and isinstance(getattr(it[0], 'name', None), Feat):
            return set()          # names of features: only consulted for other parameters (none here)
        return super().e_SetComp(e, fr)

    def e_ListComp(self, e, fr): return self.comp(e, fr, list)
    def e_GeneratorExp(self, e, fr): return self.comp(e, fr, list)

    def e_DictComp(self, e, fr):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs:
            it = self.eval(g.iter, fr)
            if isinstance(it, SSeq) and not z3.is_int_value(z3.simplify(lift(it.length()))):
                def at(k):
                    f2 = self.subframe(fr)
                    self.assign(g.target, it.elem(lift(k)), f2)
                    return self.eval(e.key, f2), self.eval(e.value, f2)
                return Dict_(lift(it.length()), at)
        return super().e_DictComp(e, fr)

    def e_JoinedStr(self, e, fr):
        parts = [x.value if isinstance(x, ast.Constant) else x for x in e.values]
        if len(parts) == 2 and parts[0] == 'x' and isinstance(parts[1], ast.FormattedValue) and parts[1].format_spec is None:
            v = self.eval(parts[1].value, fr)
            if isinstance(v, Sym):
                return Feat(v)
            return f'x{v}'
        return super().e_JoinedStr(e, fr)

    def getitem(self, o, i, *a):
        if isinstance(o, Seq) and not isinstance(i, (slice, tuple)):
            k = lift(i)
            cur().prove('entries are read inside their list', z3.And(k >= 0, k < lift(o.length())))
            return o.elem(k)
        if isinstance(o, Dict_):
            return self.lookup(o, i, None)
        return super().getitem(o, i, *a)

    def lookup(self, d, key, default):
        """value under the text of a token"""
        if not isinstance(key, GTok):
            raise Unsupported('other key')
        c = cur()
        j = z3.Int(fresh_name('j'))
        c.assume_axiom(z3.And(j >= 0, j < d.n))
        kj = d.at(j)[0]
        if not isinstance(kj, Feat) or z3.is_int_value(kj.i):
            raise Unsupported('other keys')
        off = z3.simplify(kj.i - j)              # key of entry j is x<j + off>
        if not z3.is_int_value(off):
            raise Unsupported('other keys')
        i = key.S.FEAT(key.q)
        if c.decide(z3.And(i >= 1, i - off >= 0, i - off < d.n)):
            return d.at(z3.simplify(i - off))[1]
        if default is None:
            c.prove('every token looked up has a name', z3.BoolVal(False))
        return default

    def contains(self, o, x):
        if isinstance(o, Dict_):
            miss = object()
            return self.lookup(o, x, miss) is not miss
        return super().contains(o, x)

    def getattr(self, o, name):
        if isinstance(o, Dict_) and name == 'get':
            return lambda k, d=None: self.lookup(o, k, d)
        return super().getattr(o, name)

    def call_value(self, f, args, kw):
        if getattr(f, '__name__', '') == 'join' and isinstance(getattr(f, '__self__', None), str) and args and isinstance(args[0], SSeq):
            return Joined(f.__self__, args[0])
        if getattr(f, '__name__', '') == 'format' and isinstance(getattr(f, '__self__', None), str) and len(args) == 1 and isinstance(args[0], Sym):
            if f.__self__ not in ('x{}', 'x{0}', 'x{:d}'):
                raise Unsupported('other text')
            return Feat(args[0])
        return super().call_value(f, args, kw)


class Any1:
    """the names as the user gave them: any sequence of `length` names"""

    def __init__(self, n): self.n = n

    def length(self): return self.n

    def elem(self, k): return Name(z3.simplify(lift(k) + 1), False)


class Names(Seq):
    def __init__(self, n):
        Seq.__init__(self, n, lambda k: Name(z3.simplify(lift(k) + 1), False))


# ------------------------------------------------------------------ input checking
def arr(name, nd):
    ds = [Int(f'{name}_{k}') for k in range(nd)]
    for d in ds:
        cur().assume(d.t >= 1)
    return SArr.symbolic(name, [d.t for d in ds]), [d.t for d in ds]


class Bad:
    """an array of nd dimensions of which only the sizes matter"""

    def __init__(self, name, nd):
        self.ndim, self.shape = nd, tuple(Int(f'{name}_{k}') for k in range(nd))
        for d in self.shape:
            cur().assume(d.t >= 1)

    def __symlen__(self):
        if not self.shape:
            raise PyRaise(TypeError('len() of unsized object'))
        return self.shape[0]

    def __getattr__(self, n):
        raise Unsupported(n)


def g_validate(ctx):
    cls = need(KR, 'KD_Discover_Regression')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        FIN = z3.Function('finite', z3.RealSort(), z3.BoolSort())
        nx = c.choose(65)
        X, dx = (Bad('X', nx), None) if nx not in (1, 2, 3) else arr('X', nx)
        if nx == 2:
            ny = c.choose(65)
        else:
            ny = 1 + c.choose(2)
        y, dy = (Bad('y', ny), None) if ny not in (1, 2, 3) else arr('y', ny)
        one = False
        if ny == 2 and c.decide(dy[1] == 1):
            one = True
            n2 = dy[0]
            y0 = y
            y = SArr.make([n2, 1], 'real', lambda i, j: y0.term(i, z3.IntVal(0)))
        fx, fy = z3.Bool('X_finite'), z3.Bool('y_finite')

        def flag(ip_, a, neg=False):
            if not isinstance(a, SArr):
                raise Unsupported('finiteness of other values')
            b = fx if a.of == 'X' else fy
            return SArr.const(a._shape, z3.Not(b) if neg else b, 'bool')
        own = {}

        def tag(a, w):
            own[id(a)] = w, a
            return a
        tag(X, 'X'), tag(y, 'y')

        def which(a):
            if id(a) in own and own[id(a)][1] is a:
                return own[id(a)][0]
            if isinstance(a, SArr):
                v = [z3.Int(f'w{k}') for k in range(a.ndim)]
                s = str(a.term(*v))
                if 'X(' in s and 'y(' not in s:
                    return 'X'
                if 'y(' in s and 'X(' not in s:
                    return 'y'
            raise Unsupported('finiteness of other values')

        def finite(ip_, a):
            b = fx if which(a) == 'X' else fy
            return SArr.const(a._shape, b, 'bool')
        ip.contracts[np.isfinite] = finite
        ip.contracts[np.asarray] = ip.contracts[np.array] = lambda ip_, a, *x, **k: a
        how = c.choose(2)
        m = Int('names')
        c.assume(m.t >= 0)
        names = None if how else Names(m.t)
        me = cls.__new__(cls)
        good = z3.BoolVal(False)
        if nx == 2 and (ny == 1 or one):
            good = z3.And(dx[0] == dy[0], fx, fy)
            if names is not None:
                good = z3.And(good, m.t == dx[1])
        try:
            r = ip.run_function(cls._validate_inputs, [me, X, y, names], {})
        except PyRaise as e:
            c.prove('inputs: a rejection is a ValueError', z3.BoolVal(type(e.exc) is ValueError))
            c.prove('inputs: only wrong inputs are rejected', z3.Not(good))
            return
        c.prove('inputs: wrong inputs are rejected', good)
        if z3.is_false(z3.simplify(good)):
            return
        ok = isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], SArr) and isinstance(r[1], SArr) and r[0].ndim == 2 and r[1].ndim == 1
        c.prove('inputs: accepted inputs are used as given', z3.BoolVal(ok))
        if not ok:
            return
        i, j = z3.Int('i'), z3.Int('j')
        c.assume_axiom(z3.And(i >= 0, i < dx[0], j >= 0, j < dx[1]))
        c.prove('inputs: accepted inputs are used as given', z3.And(r[0].term(i, j) == X.term(i, j), lift(r[0]._shape[0]) == dx[0], lift(r[0]._shape[1]) == dx[1],
                                                                    lift(r[1]._shape[0]) == dy[0], r[1].term(i) == (y.term(i) if ny == 1 else y.term(i, z3.IntVal(0)))))
        if not isinstance(r[2], SSeq):
            raise Unsupported('other names')
        e = r[2].elem(j)
        c.prove('inputs: there is one name for each feature, in order', z3.And(lift(r[2].length()) == dx[1], z3.BoolVal(isinstance(e, Name if names is not None else Feat)), e.i == j + 1 if isinstance(e, (Name, Feat)) else z3.BoolVal(False)))
    ctx.run(run)


# ------------------------------------------------------------------ rendering
class Text:
    """the tokens of an expression joined by commas"""

    def __init__(self, S): self.S = S

    def split(self, sep=None, *a):
        if sep != ',' or a:
            raise Unsupported('other splitting')
        return Seq(self.S.n, lambda k: GTok(self.S, k))

    def __getattr__(self, n):
        raise Unsupported(f'text.{n}')


def g_render(ctx):
    cls = need(KR, 'KD_Discover_Regression')

    def run():
        c = cur()
        S = types.SimpleNamespace(n=z3.Int('tokens'), FEAT=z3.Function('feature', z3.IntSort(), z3.IntSort()))
        f = Int('features')
        q = z3.Int('q')
        c.assume(z3.And(S.n >= 1, f.t >= 1, q >= 0, q < S.n))
        c.assume(z3.And(S.FEAT(q) >= 0, S.FEAT(q) <= f.t))          # the expression uses features of the data only
        ip = Ip(ctx.session)
        r = ip.run_function(cls.__dict__['_render_named_expression'].__func__, [Text(S), Names(f.t)], {})
        if not isinstance(r, Joined):
            raise Unsupported('other text')
        c.prove('named expression: the tokens are joined by commas, none added or lost', z3.And(z3.BoolVal(r.sep == ','), lift(r.seq.length()) == S.n))
        e = r.seq.elem(q)
        i = S.FEAT(q)
        if isinstance(e, Name):
            c.prove('named expression: a feature is replaced by its own name', z3.And(i >= 1, e.i == i, z3.BoolVal(e.text)))
        elif isinstance(e, GTok):
            c.prove('named expression: every other token is unchanged', z3.And(i == 0, e.q == q))
        else:
            raise Unsupported('other tokens')
    ctx.run(run)


def g_serialize(ctx):
    """the reported expression lists the tokens of the traversal in order, constants by value"""
    cls = need(KR, 'KD_Discover_Regression')
    PC = need(FN, 'PlaceholderConstant')

    def run():
        c = cur()
        n = z3.Int('tokens')
        c.assume(n >= 1)
        VALUE = z3.Function('value', z3.IntSort(), z3.RealSort())
        kind = z3.Function('kind', z3.IntSort(), z3.IntSort())      # 0 other, 1 constant with a value, 2 constant without

        class T:
            def __init__(self, k): self.k = k

            def __repr__(self): return ('repr', self.k)

        class K(PC):
            def __init__(self, k, v): self.k, self.value = k, v
        out = {}

        def tok(k):
            k = lift(k)
            if c.decide(kind(k) == 0):
                return T(k)
            return K(k, wrap(VALUE(k)) if c.decide(kind(k) == 1) else None)
        ip = Ip(ctx.session)
        ip.contracts[cls.__dict__['_format_constant'].__func__] = lambda ip_, v: ('fmt', v)
        ip.intrinsics[builtins.repr] = lambda x: ('repr', x.k) if isinstance(x, (T, K)) else repr(x)
        ip.contracts[builtins.repr] = lambda ip_, x: ('repr', x.k) if isinstance(x, (T, K)) else repr(x)

        def right(e, k):
            if isinstance(e, tuple) and e[0] == 'fmt':
                return z3.And(kind(k) == 1, lift(e[1]) == VALUE(k)) if isinstance(e[1], Sym) else z3.BoolVal(False)
            if isinstance(e, tuple) and e[0] == 'repr':
                return z3.And(kind(k) != 1, e[1] == k)
            raise Unsupported('other text')

        class L(LoopContract):
            """before token k the list holds the texts of the first k tokens"""

            def role(self, info):
                d = [x for x, v in info.entry.items() if type(v) is list and not v]
                if len(d) != 1:
                    raise Unsupported('other lists')
                self.modifies = (d[0],)
                return d[0]

            def check(self, info, k, when):
                o = self.role(info)
                if when == 'initiation':
                    return
                v = info.env[o]
                c.prove('expression: each token adds one text', z3.BoolVal(isinstance(v, list) and len(v) == 2 and v[0] is out['head']))
                if isinstance(v, list) and len(v) == 2:
                    c.prove('expression: constants are printed by value, other tokens by name, in order', right(v[1], self.k))

            def havoc(self, info, k):
                self.k = k
                out['head'] = ('the texts of the first', k)
                info.env[self.role(info)] = out['list'] = [out['head']]
                c.assume(z3.And(kind(k) >= 0, kind(k) <= 2))
        ip.loop_template = lambda fr, node: L()
        tail = {}

        def join(f, a):
            tail['seq'] = a
            return Joined(f, a)

        class Ip2(type(ip)):
            pass

        def cv(f, args, kw, old=ip.call_value):
            if getattr(f, '__name__', '') == 'join' and isinstance(getattr(f, '__self__', None), str) and args:
                return Joined(f.__self__, args[0])
            return old(f, args, kw)
        ip.call_value = cv
        me = cls.__new__(cls)
        r = ip.run_function(cls._serialize_program, [me, types.SimpleNamespace(traversal=Seq(n, tok))], {})
        if not isinstance(r, Joined):
            raise Unsupported('other text')
        if isinstance(r.seq, SSeq):
            q = z3.Int('q')
            c.assume(z3.And(q >= 0, q < n, kind(q) >= 0, kind(q) <= 2))
            c.prove('expression: the tokens are joined by commas, none added or lost', z3.And(z3.BoolVal(r.sep == ','), lift(r.seq.length()) == n))
            c.prove('expression: constants are printed by value, other tokens by name, in order', right(r.seq.elem(q), q))
        else:
            ok = isinstance(r.seq, list) and len(r.seq) == 1 and r.seq is out.get('list')
            c.prove('expression: the tokens are joined by commas, none added or lost', z3.And(z3.BoolVal(ok and r.sep == ','), out['head'][1] == n if ok else z3.BoolVal(False)))
    ctx.run(run)


# ------------------------------------------------------------------ fit: who gets what
def g_fit(ctx):
    cls = need(KR, 'KD_Discover_Regression')

    def run():
        c = cur()
        X, dx = arr('X', 2)
        y, dy = arr('y', 1)
        c.assume(dx[0] == dy[0])
        names = [object()]
        ip = Ip(ctx.session)
        me = cls.__new__(cls)
        me.n_iterations, me.best_program_, me.result_, me.n_features_in_ = 9, None, None, None
        log = []
        rawX, rawy, rawn = object(), object(), [None, object()][c.choose(2)]

        class P:
            evaluate = {'nmse_test': .25, 'mse': .25}

            def get_constants(self): return [np.array([1.5]), 2.0][:]
        prog = P()
        P.get_constants = lambda self: [1.5, 2.0]
        other = P()

        def validate(ip_, s, a, b, n):
            c.prove('fit: the data given are the ones that are checked', z3.BoolVal(a is rawX and b is rawy and n is rawn))
            log.append('checked')
            return X, y, names
        ip.contracts[cls._validate_inputs] = validate

        def setup(ip_, s, *a, **k):
            log.append('setup')
            d = s.data_class
            c.prove('fit: the model is set up after the data were checked', z3.BoolVal(log == ['checked', 'setup'] and s.dataset_ is None))
            g = ip.call(type(d).get_data, d)
            cols = g['X']
            i, j = z3.Int('i'), z3.Int('j')
            c.assume_axiom(z3.And(i >= 0, i < dx[0], j >= 0, j < dx[1]))
            if not isinstance(cols, SSeq) or not isinstance(g['y'], SArr):
                raise Unsupported('other data')
            col = cols.elem(j)
            c.prove('fit: one column of data for each feature, in order', z3.And(lift(cols.length()) == dx[1], z3.BoolVal(col.ndim == 2), lift(col._shape[0]) == dx[0], lift(col._shape[1]) == 1, col.term(i, z3.IntVal(0)) == X.term(i, j)))
            c.prove('fit: the target is the one given', z3.And(z3.BoolVal(g['y'].ndim == 2), lift(g['y']._shape[0]) == dx[0], g['y'].term(i, z3.IntVal(0)) == y.term(i)))
            c.prove('fit: as many features as columns, with their names', z3.And(lift(g['n_input_var']) == dx[1], z3.BoolVal(g['var_names'] is names)))
            t = need(TR, 'RegressionTask')
            task = t.__new__(t)
            task.function_set, task.protected, task.decision_tree_threshold_set = ['add'], True, None
            got = {}
            ip.contracts[need(TR, 'create_tokens')] = lambda ip_, *a, **k: got.update(k) or ['tokens']
            ip.contracts[need(TR, 'Library')] = lambda ip_, toks, *a, **k: ('library', toks)
            ip.call(t.load_data, task, g)
            if not isinstance(task.x, SSeq):
                raise Unsupported('other data')
            xc = task.x.elem(j)
            c.prove('task: column j of the data is input j, row for row', z3.And(lift(task.x.length()) == dx[1], lift(xc._shape[0]) == dx[0], lift(xc._shape[1]) == 1, xc.term(i, z3.IntVal(0)) == X.term(i, j), lift(task.y._shape[0]) == dx[0], task.y.term(i, z3.IntVal(0)) == y.term(i)))
            c.prove('task: one token for each feature', z3.And(lift(got.get('n_input_var', -1)) == dx[1], z3.BoolVal(got.get('function_set') is task.function_set and got.get('task_type') == 'regression' and task.library == ('library', ['tokens']))))
        me_setup = inspect_attr(cls, 'setup')
        ip.contracts[me_setup] = setup

        def train(ip_, s, *a, **k):
            log.append('train')
            c.prove('fit: the search runs for the configured number of iterations after the setup', z3.BoolVal(log == ['checked', 'setup', 'train'] and (k.get('n_epochs') == 9 or a[:1] == (9,))))
            return {'program': prog, 'r': .75, 'expression': 'e', 'traversal': 't'}
        ip.contracts[inspect_attr(cls, 'train')] = train
        ip.contracts[cls._serialize_program] = lambda ip_, s, p: ('serialized', p)
        ip.contracts[cls.__dict__['_render_named_expression'].__func__] = lambda ip_, e, n: ('named', e, n)
        kw = {} if rawn is None else {'var_names': rawn}
        r = ip.run_function(cls.fit, [me, rawX, rawy], kw)
        c.prove('fit: expression, constants, reward, error and names belong to the program found', z3.BoolVal(
            isinstance(r, dict) and r.get('program') is prog and r.get('expression') == ('serialized', prog) and r.get('expression_named') == ('named', ('serialized', prog), names)
            and r.get('constants') == [1.5, 2.0] and r.get('reward') == .75 and r.get('mse') == .25 and r.get('var_names') is names))
        c.prove('fit: predictions will use the program found', z3.BoolVal(me.best_program_ is prog and me.result_ is r))
        c.prove('fit: the number of features is remembered', lift(me.n_features_in_) == dx[1] if me.n_features_in_ is not None else z3.BoolVal(False))
    ctx.run(run)


def inspect_attr(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name]


# ------------------------------------------------------------------ predictions
def g_predict(ctx):
    cls = need(KR, 'KD_Discover_Regression')
    P = need(PG, 'Program')
    ue = need('kd.model.discover.stridge', 'unsafe_execute')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        n, f = Int('rows'), Int('features')
        c.assume(z3.And(n.t >= 1, f.t >= 1))
        nd = c.choose(4)
        X, dx = arr('X', nd) if nd else (SArr.symbolic('X', []), [])
        want = Int('features_at_fit')
        c.assume(want.t >= 1)
        VAL = z3.Function('value_at_row', z3.IntSort(), z3.RealSort())
        me = cls.__new__(cls)
        me.n_features_in_ = want
        p = P.__new__(P)
        trav = ['tokens of the program']
        p.traversal = trav
        me.best_program_ = p
        st = {}
        form = c.choose(4)            # scalar, one value, one value for each row, a column

        def execute(ip_, tr, u, x, *a, **k):
            c.prove('prediction: the tokens of the program are evaluated', z3.BoolVal(tr is trav))
            if nd != 2:
                raise Unsupported('other features')
            if not isinstance(x, SSeq):
                raise Unsupported('other inputs')
            i, j = z3.Int('i'), z3.Int('j')
            c.assume_axiom(z3.And(i >= 0, i < dx[0], j >= 0, j < dx[1]))
            col = x.elem(j)
            c.prove('prediction: input j is column j of the rows given', z3.And(lift(x.length()) == dx[1], lift(col._shape[0]) == dx[0], col.term(i, z3.IntVal(0)) == X.term(i, j)) if isinstance(col, SArr) and col.ndim == 2 else z3.BoolVal(False))
            st['done'] = True
            v0 = z3.Real('value')
            if form == 0:
                y = wrap(v0)
            elif form == 1:
                y = SArr.make([1], 'real', lambda k: v0)
            elif form == 2:
                y = SArr.make([dx[0]], 'real', lambda k: VAL(k))
            else:
                y = SArr.make([dx[0], 1], 'real', lambda k, l: VAL(k))
            st['value'] = (lambda k: v0) if form < 2 else VAL
            return y, False, None, None
        ip.contracts[ue] = execute
        ip.contracts[need(PG, 'unsafe_execute_torch')] = lambda ip_, *a, **k: (c.prove('prediction: the rows are numpy arrays, evaluated as such', z3.BoolVal(False)), (0, True, None, None))[1]
        old = P.__dict__.get('execute_function')
        setattr(P, 'execute_function', need(PG, 'unsafe_execute_torch') if c.choose(2) else ue)
        try:
            y = ip.run_function(cls.predict, [me, X], {})
        except PyRaise as e:
            c.prove('prediction: wrong features raise ValueError', z3.BoolVal(type(e.exc) is ValueError and not st))
            c.prove('prediction: only wrong features are rejected', z3.Or(z3.BoolVal(nd != 2), dx[1] != want.t) if nd == 2 else z3.BoolVal(True))
            return
        finally:
            if old is not None:
                setattr(P, 'execute_function', old)
        c.prove('prediction: wrong features are rejected', dx[1] == want.t if nd == 2 else z3.BoolVal(False))
        if nd != 2:
            return
        ok = isinstance(y, SArr) and y.ndim == 1
        c.prove('prediction: one value for each row given', lift(y._shape[0]) == dx[0] if ok else z3.BoolVal(False))
        k = z3.Int('row')
        c.assume_axiom(z3.And(k >= 0, k < dx[0]))
        c.prove('prediction: the value of the expression at each row', y.term(k) == st['value'](k) if ok else z3.BoolVal(False))
    ctx.run(run)


def g_unsafe(ctx):
    ue = need('kd.model.discover.stridge', 'unsafe_execute')

    def run():
        c = cur()
        ip = Ip(ctx.session)
        mod = need('kd.model.discover.stridge')
        val, tr, u, x = object(), object(), object(), object()
        log = []

        def ex(ip_, a, b, d):
            log.append((a is tr, b is u, d is x))
            return val
        ip.contracts[need('kd.model.discover.stridge', 'python_execute')] = ex
        r = ip.call(ue, tr, u, x)
        c.prove('evaluation: the value of the expression on the arrays given, unchanged', z3.BoolVal(log == [(True,) * 3] and r[0] is val))
    ctx.run(run)


def g_tokens(ctx):
    """the tokens of the features: token i reads input i and is named x<i+1>"""
    ct = need(FN, 'create_tokens')
    T = need(FN, 'Token')

    def run():
        c = cur()
        n = Int('features')
        c.assume(n.t >= 1)
        ip = Ip(ctx.session)
        made = {}

        def token(ip_, *a, **k):
            return types.SimpleNamespace(**k)
        ip.contracts[T] = token

        class L(LoopContract):
            def role(self, info):
                app = {x.func.value.id for x in ast.walk(info.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name)}
                app |= {x.target.id for x in ast.walk(info.node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                d = [x for x, v in info.entry.items() if type(v) is list and not v and x in app]
                if len(d) != 1:
                    raise Unsupported('other lists')
                self.modifies = (d[0],)
                return d[0]

            def check(self, info, k, when):
                o = self.role(info)
                if when == 'initiation':
                    return
                v = info.env[o]
                good = isinstance(v, list) and len(v) == 2 and v[0] is made['head']
                t = v[1] if good else None
                good = good and isinstance(getattr(t, 'name', None), Feat) and t.arity == 0 and t.function is None and getattr(t, 'input_var', None) is not None
                c.prove('tokens: feature i is read from input i and named x<i+1>', z3.And(t.name.i == self.k + 1, lift(t.input_var) == self.k) if good else z3.BoolVal(False))

            def havoc(self, info, k):
                self.k = k
                made['head'] = types.SimpleNamespace(name=Feat(k), upto=k)
                info.env[self.role(info)] = made['list'] = [made['head']]

        def tmpl(fr, node):
            sq = seq_of(ip.eval(node.iter, fr))
            if sq is None or z3.is_int_value(z3.simplify(lift(sq.length()))):
                return None
            return L()
        ip.loop_template = tmpl
        ops = need(FN, 'function_map')
        r = ip.call(ct, n_input_var=n, function_set=('add', 'const', 'exp'), protected=False, task_type='regression')
        first = r[0] if isinstance(r, list) and r else None
        c.prove('tokens: all features have their token', first.upto == n.t if first is made.get('head') else z3.BoolVal(False))
        c.prove('tokens: the operators follow', z3.BoolVal(len(r) == 4 and r[1] is ops['add'] and isinstance(r[2], need(FN, 'PlaceholderConstant')) and r[3] is ops['exp']))
    ctx.run(run)


def groups():
    return [('input checking', g_validate), ('named expression', g_render), ('reported expression', g_serialize), ('fit', g_fit), ('predictions', g_predict), ('evaluation', g_unsafe), ('tokens of the features', g_tokens)]


# ------------------------------------------------------------------ bounded: the real model
def rt_inputs(seed):
    r = random.Random(seed)
    cls = need(KR, 'KD_Discover_Regression')
    me = cls.__new__(cls)
    n, f = r.randint(1, 6), r.randint(1, 12)
    g = np.random.default_rng(seed)
    X, y = g.normal(size=(n, f)), g.normal(size=n)
    names, wrong = None, False
    how = r.choice(['good', 'column', 'rows', 'nan', 'names', 'ndim', 'yndim', 'wide', 'row', 'ynan', 'lists'])
    if how == 'column':
        y = y.reshape(-1, 1)
    elif how == 'rows':
        m = r.choice([k for k in range(1, 12) if k != n])
        y, wrong = g.normal(size=m), True
    elif how in ('nan', 'ynan'):
        a = X if how == 'nan' else y
        a.flat[r.randrange(a.size)] = r.choice([np.nan, np.inf, -np.inf])
        wrong = True
    elif how == 'names':
        k = r.choice([k for k in range(0, 14)])
        names, wrong = [f'v{i}' for i in range(k)], k != f
    elif how == 'ndim':
        X, wrong = r.choice([X.reshape(-1), X[None], X[:, :, None], np.float64(1.0)]), True
    elif how == 'yndim':
        y, wrong = r.choice([y[None, :, None], y.reshape(n, 1, 1), np.float64(2.0)]), True
    elif how == 'wide':
        y, wrong = g.normal(size=(n, r.randint(2, 4))), True
    elif how == 'row':
        y, wrong = y.reshape(1, -1), n != 1
    elif how == 'lists':
        X, y = X.tolist(), y.tolist()
    if names is None and r.random() < .5:
        names = [r.choice(['x1', 'x10', 'exp', 'a b', 7, 'u']) for _ in range(f)]
    try:
        a, b, c = me._validate_inputs(X, y, names)
    except ValueError:
        check(wrong, f'{how}: good inputs are rejected', 'rejected')
        return
    check(not wrong, f'{how}: wrong inputs are accepted', 'accepted')
    check(np.array_equal(a, X) and b.shape == (n,) and np.array_equal(b, np.reshape(y, -1)) and len(c) == f, f'{how}: other inputs are used', 'used')
    check(list(c) == (list(names) if names is not None else [f'x{i + 1}' for i in range(f)]), f'{how}: names {c}', 'names')


def rt_format(seed):
    r = random.Random(seed)
    cls = need(KR, 'KD_Discover_Regression')
    for _ in range(40):
        v = r.choice([r.uniform(-5, 5), r.uniform(-1, 1) * 10 ** r.uniform(-12, 2), r.uniform(-1e7, 1e7), float(r.randint(-3, 3)), 10.0 ** r.randint(-9, 6)])
        s = cls._format_constant(r.choice([v, np.float64(v), np.array(v), np.array([v])]))
        w = float(s)
        tol = .5000001e-6 if abs(v) >= 1 else .5000001e-5 * abs(v)
        check(abs(w - v) <= tol + 1e-15 * abs(v), f'constant {v} is printed as {s}', 'constant')


FUN = {'add': (2, np.add), 'sub': (2, np.subtract), 'mul': (2, np.multiply), 'div': (2, None), 'sin': (1, np.sin), 'cos': (1, np.cos), 'n2': (1, np.square), 'n3': (1, lambda a: a ** 3)}


def grow(r, f, d):
    if d <= 0 or r.random() < .3:
        return ['const'] if r.random() < .35 else [f'x{r.randint(1, f)}']
    k = r.choice([x for x in FUN if x != 'div'])
    out = [k]
    for _ in range(FUN[k][0]):
        out += grow(r, f, d - 1)
    return out


def val(toks, row, consts):
    t = toks.pop(0)
    if t == 'const':
        return consts.pop(0)
    if t[0] == 'x' and t[1:].isdigit():
        return row[int(t[1:]) - 1]
    k, fn = FUN[t]
    a = [val(toks, row, consts) for _ in range(k)]
    return float(fn(*a))


def rt_fit(seed):
    import kd.model.discover.task.pde
    r = random.Random(seed)
    cls = need(KR, 'KD_Discover_Regression')
    P = need(PG, 'Program')
    fst = need(PG, 'from_str_tokens')
    g = np.random.default_rng(seed % 2 ** 32)
    f, n = r.choice([1, 2, 3, 9, 11, 12]), r.randint(2, 9)
    X, y = g.normal(size=(n, f)), g.normal(size=n)
    toks = grow(r, f, r.randint(1, 4))
    names = r.choice([None, [f'x{(i + 1) % f + 1}' for i in range(f)], [f'name {i}' for i in range(f)], list(range(f)), ['exp', 'x1', 'const', 'add', 'x12'][:f] + ['q'] * max(0, f - 5)])
    cs = [r.choice([0.0, 1.0, round(r.uniform(-3, 3), 3)]) * 10 ** r.choice([0, 0, -4, 2]) for _ in range(toks.count('const'))]

    after = r.random() < .5

    def train(self, n_epochs=100, verbose=True):
        check(n_epochs == 1, f'{n_epochs} iterations instead of 1', 'iterations')
        p = fst(','.join(toks), skip_cache=True)
        p.set_constants(list(cs))
        _ = p.r_ridge
        if after:
            p.set_constants(list(cs))
        return {'program': p, 'r': p.r_ridge, 'expression': 'other', 'traversal': 'other'}
    old = {k: cls.__dict__.get(k) for k in ('train',)}
    ex = P.__dict__.get('execute_function'), P.__dict__.get('const_optimizer'), P.library, P.task
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        cls.train = train
        try:
            P.clear_cache()
            m = cls(n_iterations=1, n_samples_per_batch=10, binary_operators=['add', 'sub', 'mul'], unary_operators=['sin', 'cos', 'n2', 'n3'], out_path=d)
            with np.errstate(all='ignore'):
                res = m.fit(X, y, var_names=names) if names is not None else m.fit(X, y)
            if r.random() < .5:
                P.set_execute(False, True)
            p = res['program']
            have = [float(c) for c in p.get_constants()]
            check(res['constants'] == have, f'constants {res["constants"]} of the program with {have}', 'constants')
            e = res['expression'].split(',')
            lib = [t for t in toks]
            it = iter(have)
            ok = len(e) == len(lib)
            for a, b in zip(e, lib):
                if b == 'const':
                    v = next(it)
                    ok = ok and abs(float(a) - v) <= .51e-6 * max(1, 10 * abs(v))
                else:
                    ok = ok and a == b
            check(ok, f'{",".join(toks)} with {have} is reported as {res["expression"]}', 'expression')
            nm = [f'x{i + 1}' for i in range(f)] if names is None else [str(x) for x in names]
            want = ','.join(nm[int(a[1:]) - 1] if b != 'const' and b[0] == 'x' else a for a, b in zip(e, lib))
            check(res['expression_named'] == want, f'{res["expression"]} with names {nm} becomes {res["expression_named"]}', 'named')
            Z = g.normal(size=(r.randint(1, 7), f))
            out = m.predict(Z.tolist() if r.random() < .3 else Z)
            exp = np.array([val(list(toks), row, list(have)) for row in Z])
            check(out.shape == exp.shape and np.allclose(out, exp, rtol=1e-9, atol=1e-12, equal_nan=True), f'{",".join(toks)} with {have}: predictions {out[:3]} expected {exp[:3]}', 'predict')
            for bad in (np.zeros((3, f + 1)), np.zeros(f), np.zeros((1, 1, f))):
                try:
                    m.predict(bad)
                except ValueError:
                    continue
                check(False, f'features of shape {bad.shape} are accepted by a model of {f} features', 'shape')
            mse = np.mean((np.array([val(list(toks), row, list(have)) for row in X]) - y) ** 2)
            nm_ = mse / np.var(y)
            check(after or np.isclose(res['mse'], mse, rtol=1e-6) or np.isclose(res['mse'], nm_, rtol=1e-6) or not np.isfinite(mse), f'error {res["mse"]} expected {mse} or {nm_}', 'mse')
        finally:
            if old['train'] is None:
                del cls.train
            else:
                cls.train = old['train']
            P.clear_cache()
            P.set_execute(False, False)


def cases(tier, rng):
    k = 0
    while True:
        k += 1
        yield C(rt_inputs), {'seed': rng.getrandbits(31)}, k
        yield C(rt_format), {'seed': rng.getrandbits(31)}, -k
        yield C(rt_fit), {'seed': rng.getrandbits(31)}, str(k)
