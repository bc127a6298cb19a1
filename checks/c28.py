"""C28: operator sets match the data dimension, however often a model is configured."""
import ast, builtins, collections, collections.abc, contextlib, copy, io, itertools, os, random, tempfile, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C28'
LEVEL = 'proof'
BUDGET = {'quick': 35, 'thorough': 600}
RULE = 'sequences of datasets of dimension one to three given to one model of each class with random settings, compared with fresh models; non-trivial when the sequence is new'
KD = 'kd.model.kd_discover'
KR = 'kd.model.kd_discover_regression'
UT = 'kd.model.discover.utils'
PR = 'kd.model.discover.dso.prior'
SM = 'kd.model.discover.state_manager'

GRID = {2: ['Diff', 'Diff2', 'lap'], 3: ['Diff_3', 'Diff2_3', 'lap_3']}
NET = {2: ['lap_t'], 3: ['lap_t']}
DIFF = {'diff', 'diff2', 'diff3', 'diff4', 'Diff', 'Diff2', 'lap', 'Diff_3', 'Diff2_3', 'lap_3', 'diff_t', 'diff2_t', 'diff3_t', 'diff4_t', 'lap_t'}


def expected_set(base, n):
    m = NET if any(t.endswith('_t') for t in base) else GRID
    if n <= 1 or n not in m:
        return list(base)
    return m[n] + list(dict.fromkeys(t for t in base if t not in DIFF))


# ------------------------------------------------------------------ base operator sets of any length
class Kind:
    """an operator that is not one of the differentiation operators"""

    def __init__(self, torch):
        self.torch = torch

    def endswith(self, s):
        if s != '_t':
            raise Unsupported('another ending')
        return self.torch

    def __eq__(self, o):
        if isinstance(o, Kind):
            return self is o
        return False

    def __hash__(self):
        return id(self)


class Ops(SSeq):
    """the configured operators: any number, each a differentiation operator or another one"""

    def __init__(self, has_t):
        self.n = z3.Int('operators')
        self.has_t = has_t

    def length(self):
        return self.n

    def elem(self, k):
        raise Unsupported('single operator')

    def copy(self):
        return self


class Kept:
    """the operators a filter keeps, in order"""

    def __init__(self, kept, unique=False):
        self.kept, self.unique = kept, unique


class Cat:
    def __init__(self, parts, unique=False):
        self.parts, self.unique = tuple(parts), unique

    def __add__(self, o):
        return Cat(self.parts + parts_of(o))

    def __radd__(self, o):
        return Cat(parts_of(o) + self.parts)


Kept.__add__ = lambda s, o: Cat(parts_of(s) + parts_of(o))
Kept.__radd__ = lambda s, o: Cat(parts_of(o) + parts_of(s))
Ops.__add__ = Kept.__add__
Ops.__radd__ = Kept.__radd__


def parts_of(x):
    if isinstance(x, (list, tuple)):
        return tuple(x)
    if isinstance(x, (Ops, Kept)):
        return (x,)
    if isinstance(x, Cat):
        return x.parts
    raise Unsupported('other operators')


class OIp(Interp):
    kinds = None

    def lists(self, x):
        return x if isinstance(x, (Ops, Kept, Cat)) else None

    def comp(self, e, fr, ctor):
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.eval(g.iter, fr)
            if isinstance(it, Ops):
                def per(kind):
                    f2 = self.subframe(fr)
                    self.assign(g.target, kind, f2)
                    return f2
                if not g.ifs:                      # any(test(t) for t in operators)
                    vals = {k: self.eval(e.elt, per(k)) for k in self.all_kinds()}
                    return Test(it, vals)
                kept = set()
                for k in self.all_kinds():
                    f2 = per(k)
                    if all(self.truth(self.eval(x, f2)) for x in g.ifs):
                        v = self.eval(e.elt, f2)
                        if v is not k and v != k:
                            raise Unsupported('changed operators')
                        kept.add(k)
                return Kept(kept)
        return super().comp(e, fr, ctor)

    def e_ListComp(self, e, fr): return self.comp(e, fr, list)
    def e_GeneratorExp(self, e, fr): return self.comp(e, fr, list)

    def all_kinds(self):
        return sorted(DIFF) + self.other

    def setup(self):
        self.other = [Kind(False), Kind(True)]
        I = self.intrinsics
        old_list, old_any = I.get(builtins.list), I.get(builtins.any)

        def list_(*a):
            if a and self.lists(a[0]) is not None:
                return a[0]
            r = old_list(*a) if old_list else NotImplemented
            return list(*a) if r is NotImplemented else r

        def any_(x):
            if isinstance(x, Test):
                return x.any()
            return any(x)

        def dedup(it, v=None):
            if self.lists(it) is None:
                return dict.fromkeys(it, v)
            return Cat(parts_of(it), unique=True)
        I[builtins.list] = list_
        I[builtins.any] = any_
        I[dict.fromkeys] = dedup
        return self

    def call_value(self, f, args, kw):
        if getattr(f, '__name__', '') == 'fromkeys' and getattr(f, '__self__', None) in (dict, collections.OrderedDict) and args and self.lists(args[0]) is not None:
            return Cat(parts_of(args[0]), unique=True)
        return super().call_value(f, args, kw)


class Test:
    """truth of a test for each kind of operator"""

    def __init__(self, ops, vals):
        self.ops, self.vals = ops, vals

    def any(self):
        want = {k: (k.torch if isinstance(k, Kind) else k.endswith('_t')) for k in self.vals}
        if {k: bool(v) for k, v in self.vals.items()} != want:
            raise Unsupported('another test')
        return cur().decide(self.ops.has_t)


def g_auto(ctx):
    cls = need(KD, 'KD_Discover')
    need(KD, 'KD_Discover._auto_select_function_set')

    def run():
        c = cur()
        ip = OIp(ctx.session).setup()
        has_t = z3.Bool('neural_operators')
        n = Int('n_dim')
        m = cls.__new__(cls)
        ops = Ops(has_t)
        m._base_function_set = ops
        stale = object()
        m.config_task = {'function_set': stale, 'other': 1}
        no_data = c.choose(2)
        how = c.choose(2)
        d = {'n_input_dim': n} if how else {}
        m.data_class = None if no_data else types.SimpleNamespace(get_data=lambda: d)
        tables = [(k, copy.deepcopy(v)) for k, v in vars(cls).items() if k.startswith('_DIFF') or k.startswith('_ALL')]
        ip.call(m._auto_select_function_set)
        r = m.config_task['function_set']
        dim = z3.If(z3.BoolVal(bool(how and not no_data)), n.t, 1)
        two = z3.Or(dim == 2, dim == 3)
        parts = parts_of(r) if not r is stale else ()
        as_is = len(parts) == 1 and isinstance(parts[0], Ops)
        c.prove('operators: the earlier operator set is not used', z3.BoolVal(r is not stale))
        c.prove('operators: the configured set is used as it is unless the data have two or three dimensions', z3.Implies(z3.Not(two), z3.BoolVal(as_is)))

        def exactly(want):
            return list(parts[:len(want)]) == want and len(parts) == len(want) + 1 and isinstance(parts[-1], Kept) and parts[-1].kept == set(ip.other)
        for k in (2, 3):
            for name, tab, cond in (('grid', GRID, z3.Not(has_t)), ('neural', NET, has_t)):
                c.prove(f'operators: {name} data of dimension {k} get the differentiation operators of that dimension and the other configured operators', z3.Implies(z3.And(dim == k, cond), z3.BoolVal(exactly(tab[k]))))
        c.prove('operators: no operator is listed twice', z3.Implies(two, z3.BoolVal(bool(getattr(r, 'unique', False)))))
        c.prove('operators: defaults and other settings are left as they were', z3.BoolVal(m._base_function_set is ops and m.config_task['other'] == 1 and all(getattr(cls, k) == v for k, v in tables)))
    ctx.run(run)
    ctx.assume_note('an operator is treated by its name: each differentiation operator, and any other name ending in _t or not')


# ------------------------------------------------------------------ setting the task
class Opaque:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f'<{self.s}>'


def g_task(name):
    def g(ctx):
        cls = need(KR, name) if name.endswith('Regression') else need(KD, name)
        base = need(KD, 'KD_Discover')
        tasks = need(KD, 'set_task')
        prog = need(KD, 'Program')

        def run():
            c = cur()
            ip = Interp(ctx.session)
            m = cls.__new__(cls)
            log = []
            ip.contracts[vars(base)['_auto_select_function_set']] = lambda ip_, self: self.config_task.__setitem__('function_set', 'selected')
            ip.contracts[tasks] = lambda ip_, *a: log.append((dict(a[0]), a[1:]))
            f = vars(prog).get('set_const_optimizer')
            ip.contracts[getattr(f, '__func__', f)] = lambda ip_, k, nm, **kw: log.append(('const', nm, kw))
            ops = c.choose(4)
            given = [[], [Opaque('a')], [Opaque('a'), Opaque('b')], ['const', Opaque('a')]][ops]
            m.operator = list(given)
            m.dataset = Opaque('dataset name')
            m.config_task = {'function_set': Opaque('stale'), 'dataset': Opaque('stale'), 'other': 1}
            params = [None, {}, {'p': 1}][c.choose(3)]
            m.config_training = {'const_optimizer': Opaque('optimizer'), 'const_params': params}
            data = Opaque('data')
            m.data_class = types.SimpleNamespace(get_data=lambda: data)
            for again in range(2):
                log.clear()
                ip.call(m.set_task)
                sets = [x for x in log if isinstance(x[0], dict)]
                c.prove('task: set once', z3.BoolVal(len(sets) == 1))
                cfg, rest = sets[0]
                want = 'selected' if not given else given + (['const'] if name.endswith('Regression') and 'const' not in given else [])
                got = cfg['function_set']
                c.prove('task: operators given by the user are used as they are, otherwise those of the dimension', z3.BoolVal(got == want))
                c.prove('task: name and data are those of the current dataset', z3.BoolVal(cfg['dataset'] is m.dataset and rest == (data,) and set(cfg) == {'function_set', 'dataset', 'other'}))
                k = [x for x in log if x[0] == 'const']
                c.prove('task: the configured optimiser is used', z3.BoolVal(len(k) == 1 and k[0][1] is m.config_training['const_optimizer'] and k[0][2] == (params or {})))
        ctx.run(run)
    return g


# ------------------------------------------------------------------ dimensions of the neural model
def g_inject(ctx):
    cls = need(KD, 'KD_Discover_SPR')
    need(KD, 'KD_Discover_SPR._inject_nd_config')

    def run():
        c = cur()
        ip = Interp(ctx.session)
        m = cls.__new__(cls)
        B = {k: Opaque('base ' + k) for k in ('input_dim', 'type', 'vars')}
        m._base_pinn_input_dim, m._base_generation_type, m._base_n_input_var = B['input_dim'], B['type'], B['vars']
        m.config_pinn = {'input_dim': Opaque('stale'), 'generation_type': Opaque('stale'), 'other': 1}
        m.config_task = {'n_input_var': Opaque('stale'), 'n_param_var': Opaque('stale'), 'other': 1}
        if c.choose(2):
            m.config_task['param_names'] = Opaque('stale')
        n, q = Int('n_dim'), Int('n_param')
        c.assume(q.t >= 0)
        d = {}
        if c.choose(2):
            d['n_input_dim'] = n
            nt = n.t
        else:
            nt = z3.IntVal(1)
        names = Opaque('names')
        if c.choose(2):
            d['n_param_var'], d['param_names'] = q, names
            qt = q.t
        else:
            qt = z3.IntVal(0)
        m.data_class = types.SimpleNamespace(get_data=lambda: d)
        ip.call(m._inject_nd_config)
        P, T = m.config_pinn, m.config_task
        nd, base = nt > 1, nt <= 1

        def val(x):
            return lift(x) if isinstance(x, (int, Sym)) else None
        def is_(x, t):
            v = val(x)
            return z3.BoolVal(False) if v is None else v == t
        c.prove('neural model: one input per space axis and one for time', z3.Implies(nd, is_(P['input_dim'], nt + 1)))
        c.prove('neural model: mixed derivatives for several space axes', z3.Implies(nd, z3.BoolVal(P['generation_type'] == 'multi_AD')))
        c.prove('neural model: one variable per space axis', z3.Implies(nd, is_(T['n_input_var'], nt)))
        c.prove('neural model: the configured values otherwise', z3.Implies(base, z3.BoolVal(P['input_dim'] is B['input_dim'] and P['generation_type'] is B['type'] and T['n_input_var'] is B['vars'])))
        c.prove('neural model: number of parameter fields', is_(T['n_param_var'], qt))
        c.prove('neural model: names of the parameter fields', z3.If(qt > 0, z3.BoolVal(T.get('param_names') is names), z3.BoolVal('param_names' not in T)))
        c.prove('neural model: nothing else is changed', z3.BoolVal(P['other'] == 1 and T['other'] == 1 and set(P) == {'input_dim', 'generation_type', 'other'} and set(T) - {'param_names'} == {'n_input_var', 'n_param_var', 'other'}))
        c.prove('neural model: the configured values are kept for the next dataset', z3.BoolVal(m._base_pinn_input_dim is B['input_dim'] and m._base_generation_type is B['type'] and m._base_n_input_var is B['vars']))
    ctx.run(run)


# ------------------------------------------------------------------ user settings over defaults
class Key:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Key) and self.k.eq(o.k)

    def __hash__(self):
        return 7


class Map(dict, collections.abc.Mapping):
    """mapping with arbitrary content"""

    def __init__(self, s):
        super().__init__()
        self.s = s

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self


class Upd(SSeq):
    """arbitrary settings: item k is (key k, value k); the value of the current item is a mapping or not"""

    def __init__(self, n, kind, vals):
        self.n, self.kind, self.vals = n, kind, vals

    def items(self):
        return SSeq(self.n, lambda k: (Key(z3.simplify(lift(k))), self.value()))

    def value(self):
        return self.vals[self.kind()]

    def length(self):
        return self.n


class Base:
    """arbitrary defaults; writes are recorded"""

    def __init__(self, what, old):
        self.what, self.old = what, old
        W[id(self)] = []

    def get(self, key, d=None):
        v = self.old()
        return d if v is ABSENT else v

    def __contains__(self, key):
        return self.old() is not ABSENT

    def __getitem__(self, key):
        v = self.old()
        if v is ABSENT:
            raise KeyError(key)
        return v

    def __setitem__(self, key, v):
        W[id(self)].append((key, v))

    def keys(self): raise Unsupported('another copy')
    __iter__ = copy = items = update = __or__ = keys


W = {}
ABSENT = object()


class MIp(Interp):
    def contains(self, b, a):
        if isinstance(b, Base):
            return b.__contains__(a)
        return super().contains(b, a)


def g_merge(ctx):
    F = need(UT, 'safe_merge_dicts')

    def run():
        c = cur()
        W.clear()
        ip = MIp(ctx.session)
        n = z3.Int('settings')
        c.assume(n >= 0)
        vals = {'value': Opaque('user value'), 'none': None, 'mapping': Map('user mapping')}
        olds = {'absent': ABSENT, 'value': Opaque('default'), 'none': None, 'mapping': Map('default mapping')}
        st = {}

        def kind():
            if 'kind' not in st:
                st['kind'] = list(vals)[c.choose(3)]
            return st['kind']

        def old():
            if 'old' not in st:
                st['old'] = list(olds)[c.choose(4)]
            return olds[st['old']]
        given = Base('defaults', old)
        upd = Upd(n, kind, vals)
        made = []

        def deep(x, *a):
            if x is not given:
                raise Unsupported('another copy')
            b = Base('copy', old)
            made.append(b)
            return b

        def rec(ip_, a, b):
            st['rec'] = (a, b)
            return Merged(a, b)
        first = [True]

        def entry(ip_, a, b):
            return rec(ip_, a, b)
        ip.contracts[F] = entry
        ip.intrinsics[copy.deepcopy] = deep

        class L(LoopContract):
            def check(self, info, k, when):
                if when == 'initiation':
                    c.prove('settings: a copy of the defaults is filled', z3.BoolVal(len(made) == 1))
                    st.clear()
                    return
                w = W[id(made[0])]
                c.prove('settings: the defaults are not changed', z3.BoolVal(not W[id(given)]))
                ok = len(w) == 1 and isinstance(w[0][0], Key)
                c.prove('settings: one entry per setting', w[0][0].k == self.k if ok else z3.BoolVal(False))
                if not ok:
                    return
                v = w[0][1]
                if kind() != 'mapping':
                    c.prove('settings: a value replaces the default', z3.BoolVal(v is vals[kind()]))
                else:
                    good = isinstance(v, Merged) and v.b is vals['mapping']
                    c.prove('settings: a mapping is merged with the default mapping', z3.BoolVal(good))
                    if good and (isinstance(v.a, Map) or v.a == {} and type(v.a) is dict):
                        if old() is olds['mapping']:
                            c.prove('settings: defaults of nested mappings are kept', z3.BoolVal(v.a is olds['mapping']))
                        else:
                            c.prove('settings: a mapping without default is taken over', z3.BoolVal(v.a == {} and type(v.a) is dict))
                    else:
                        c.prove('settings: a mapping replaces a default that is none', z3.BoolVal(False))

            def havoc(self, info, k):
                self.k = k
                st.clear()
                W[id(made[0])].clear()
        ip.loop_template = lambda fr, node: L()
        r = ip.run_function(F, [given, upd], {})
        c.prove('settings: the filled copy is the result', z3.BoolVal(made == [r] and W[id(r)] == [] and not W[id(given)]))

    def runs_none():
        c = cur()
        ip = Interp(ctx.session)
        a = Map('x')
        c.prove('settings: no settings', z3.BoolVal(ip.run_function(F, [a, None], {}) is a))
        c.prove('settings: no defaults', z3.BoolVal(ip.run_function(F, [None, a], {}) is a))
    ctx.run(run)
    ctx.run(runs_none)
    ctx.assume_note('merging nested mappings: by the contract of the function itself (induction on the nesting depth); copy.deepcopy returns an independent equal mapping')


class Merged:
    def __init__(self, a, b):
        self.a, self.b = a, b


# ------------------------------------------------------------------ reading the configuration again
def g_priors(ctx):
    F = need(PR, 'make_prior')
    J = need(PR, 'JointPrior')
    TNF = need(PR, 'TokenNotFoundError')
    table = {'relational': 'RelationalConstraint', 'length': 'LengthConstraint', 'repeat': 'RepeatConstraint', 'inverse': 'InverseUnaryConstraint', 'trig': 'TrigConstraint', 'const': 'ConstConstraint',
             'no_inputs': 'NoInputsConstraint', 'soft_length': 'SoftLengthPrior', 'uniform_arity': 'UniformArityPrior', 'diff_left': 'DiffConstraint_left', 'diff_left_strict': 'DiffConstraint_left_strict',
             'diff_right': 'DiffConstraint_right', 'diff_descedent': 'DiffConstraint_des', 'diff_descedent2': 'DiffConstraint_des2', 'laplace_child': 'LaplaceConstraint',
             'subgrid_des_constraint': 'SubgridDesConstraint', 'subgrid_des_constraint2': 'SubgridDesConstraint2'}

    def one(name):
        def run():
            c = cur()
            ip = Interp(ctx.session)
            lib = Opaque('library')
            log = []
            what = c.choose(3)                        # valid, warned about, uses unknown tokens

            def make(ip_, library, *a, **kw):
                if what == 2:
                    log.append((library, a, kw, None))
                    raise PyRaise(TNF('x'))
                o = types.SimpleNamespace(validate=lambda: None if what == 0 else 'warning', describe=lambda: '')
                log.append((library, a, kw, o))
                return o
            cls = need(PR, table[name])
            ip.contracts[cls] = make
            joint = []

            def jp(ip_, library, priors, count):
                o = types.SimpleNamespace(describe=lambda: '')
                joint.append((library, list(priors), count, o))
                return o
            ip.contracts[J] = jp
            ip.intrinsics[builtins.print] = lambda *a, **k: None
            on = z3.Bool('on')
            A, B = {'p': Opaque('p'), 'on': wrap(on)}, {'q': Opaque('q'), 'on': True}
            shape = c.choose(3)
            cfg = {name: [A, [A, B], {'p': 1}][shape]}
            cnt = c.choose(2)
            if cnt:
                cfg['count_constraints'] = Opaque('count')
            before = {k: ([dict(x) for x in v] if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in cfg.items()}
            for again in range(2):
                log.clear()
                joint.clear()
                r = ip.call(F, lib, cfg)
                c.prove('constraints: the configuration can be read again', z3.BoolVal(cfg == before))
                is_on = c.decide(on)
                want = [x for x in ([A] if shape == 0 else [A, B] if shape == 1 else []) if x is B or is_on]
                c.prove('constraints: exactly those switched on are built, with their settings, each time', z3.BoolVal(
                    [(l, a, kw) for l, a, kw, o in log] == [(lib, (), {k: v for k, v in (before[name] if shape == 0 else before[name][0] if x is A else before[name][1]).items() if k != 'on'}) for x in want]))
                ok = len(joint) == 1 and r is joint[0][3]
                c.prove('constraints: the valid ones are combined', z3.BoolVal(ok and joint[0][0] is lib and joint[0][1] == ([o for *_, o in log] if what == 0 else []) and joint[0][2] is (cfg['count_constraints'] if cnt else False)))
        return run
    for name in table:
        ctx.run(one(name))


def g_state(ctx):
    F = need(SM, 'make_state_manager')

    def run():
        c = cur()
        ip = Interp(ctx.session)
        got = []
        for nm in ('HierarchicalStateManager', 'GrammarStateManager'):
            ip.contracts[need(SM, nm)] = lambda ip_, _n=nm, **kw: got.append((_n, kw)) or got[-1]
        how = c.choose(4)
        cfg = [None, {'a': Opaque('a')}, {'type': 'hierarchical', 'a': Opaque('a')}, {'type': 'grammar', 'b': Opaque('b')}][how]
        before = dict(cfg) if cfg is not None else None
        for again in range(2):
            got.clear()
            ip.call(F, cfg)
            c.prove('states: the configuration can be read again', z3.BoolVal(cfg == before))
            c.prove('states: the configured kind is built, each time', z3.BoolVal(got == [('GrammarStateManager' if how == 3 else 'HierarchicalStateManager', {k: v for k, v in (before or {}).items() if k != 'type'})]))
    ctx.run(run)


# ------------------------------------------------------------------ importing datasets one after the other
class Path:
    def __init__(self, d, f):
        self.d, self.f = d, f

    def __eq__(self, o):
        return isinstance(o, Path) and o.d is self.d and o.f == self.f

    def __hash__(self):
        return 3


def g_import(name):
    def g(ctx):
        cls = need(KD, name)
        P = need('kd.dataset', 'PDEDataset')
        ad = need('kd.model.discover.adapter')

        def run():
            c = cur()
            ip = Interp(ctx.session)
            log = []
            ip.intrinsics[os.path.join] = lambda d, f: Path(d, f)
            ip.intrinsics[os.path.dirname] = lambda p: p.d if isinstance(p, Path) else (_ for _ in ()).throw(Unsupported('directory'))

            def adapter(kind):
                def h(ip_, ds, **kw):
                    o = types.SimpleNamespace(of=ds, kind=kind, kw=kw)
                    return o
                return h
            ip.contracts[ad.DiscoverRegularAdapter] = adapter('grid')
            ip.contracts[ad.DiscoverSparseAdapter] = adapter('sparse')
            ip.contracts[vars(cls)['setup'] if 'setup' in vars(cls) else cls.setup] = lambda ip_, self: log.append(('setup', dict(vars(self))))
            if '_inject_nd_config' in vars(cls):
                ip.contracts[vars(cls)['_inject_nd_config']] = lambda ip_, self: log.append(('dimensions', dict(vars(self))))
            m = cls.__new__(cls)
            user = Opaque('directory')
            m.seed = 3
            hist = c.choose(4)      # fresh; imported before; user named another directory since; no output
            m.dataset = None
            m.out_path = user
            if hist in (1, 2):
                m.dataset, m.dataset_, m.data_class = 'earlier', Opaque('earlier dataset'), Opaque('earlier data')
                m.out_path = Path(user, 'discover_earlier_3.csv')
                m._out_dir, m._out_file = user, m.out_path
                if hist == 2:
                    user = Opaque('another directory')
                    m.out_path = user
            if hist == 3:
                m.out_path = None
            ds = P.__new__(P)
            for a in ('legacy_name', 'registry_name', 'equation_name'):
                if c.choose(2):
                    setattr(ds, a, [None, a][c.choose(2)])
            named = c.choose(2)
            kw = {'dataset_name': 'mine'} if named else {}
            want = 'mine' if named else next((getattr(ds, a) for a in ('legacy_name', 'registry_name', 'equation_name') if getattr(ds, a, None)), 'custom_dataset')
            for again in range(2):
                log.clear()
                r = ip.call(m.import_dataset, ds, **kw)
                c.prove('import: data of the dataset given', z3.BoolVal(getattr(m.data_class, 'of', None) is ds and m.dataset_ is ds and m.data_class.kind == ('sparse' if name.endswith('SPR') else 'grid')))
                c.prove('import: name of the dataset given', z3.BoolVal(m.dataset == want))
                c.prove('import: output file of this dataset in the directory of the user', z3.BoolVal(m.out_path is None if hist == 3 else m.out_path == Path(user, f'discover_{want}_3.csv')))
                seq = [x for x, _ in log]
                c.prove('import: the model is set up once, after everything is known', z3.BoolVal(seq == (['dimensions', 'setup'] if name.endswith('SPR') else ['setup'])))
                at = log[-1][1]
                c.prove('import: the model is set up with this dataset', z3.BoolVal(all(at.get(k) is getattr(m, k) for k in ('data_class', 'dataset_', 'dataset', 'out_path'))))
                if name.endswith('SPR'):
                    c.prove('import: dimensions are those of this dataset', z3.BoolVal(log[0][1].get('data_class') is m.data_class))
                c.prove('import: the model is returned', z3.BoolVal(r is m))
        ctx.run(run)
        ctx.assume_note('the adapters and setup are contracts here (C23, C24; the parts of setup are checked in the groups on the task, the constraints and the state manager)')
    return g


# ------------------------------------------------------------------ configuration of the three models
def g_config(name):
    def g(ctx):
        cls = need(KR, name) if name.endswith('Regression') else need(KD, name)
        sm = need(UT, 'safe_merge_dicts')
        kd = need(KD)

        def run():
            c = cur()
            ip = Interp(ctx.session)
            secs = ('task', 'prior', 'state_manager', 'controller', 'gp_agg', 'training', 'pinn')
            log = []
            default = Opaque('defaults')
            ip.intrinsics[kd.json.load] = lambda f: (default, log.append(('load', getattr(f, 'name', None))))[0]
            ip.contracts[kd.json.load] = lambda ip_, f: (default, log.append(('load', getattr(f, 'name', None))))[0]
            fs = [Opaque('f1'), Opaque('f2')]
            kind = c.choose(3)
            user = {'s': 1}
            loaded = {'l': 1}
            merged = {s: {'from': s} for s in secs}
            merged['task']['function_set'] = fs
            merged['pinn'] = {'input_dim': 2, 'generation_type': 'AD'}

            def mg(ip_, a, b):
                log.append(('merge', a, b))
                return merged
            ip.contracts[kd.safe_merge_dicts] = mg
            ip.contracts[kd.load_config] = lambda ip_, p: (log.append(('user', p)), loaded)[1]
            m = cls.__new__(cls)
            m.base_config_file = {'KD_Discover': './discover/config/config_pde.json', 'KD_Discover_SPR': './discover/config/config_pde_pinn.json', 'KD_Discover_Regression': './discover/config/config_regression.json'}[name]
            ip.call(m.set_config, [None, user, 'path'][kind])
            ms = [x for x in log if x[0] == 'merge']
            c.prove('configuration: user settings are merged over the defaults of the model', z3.BoolVal(len(ms) == 1 and ms[0][1] is default and (ms[0][2] == {} if kind == 0 else ms[0][2] is (user if kind == 1 else loaded))))
            for s, a in (('task', 'config_task'), ('prior', 'config_prior'), ('state_manager', 'config_state_manager'), ('controller', 'config_controller'), ('gp_agg', 'config_gp_agg'), ('training', 'config_training')):
                c.prove('configuration: every part of the model gets its section', z3.BoolVal(getattr(m, a) is merged[s]))
            c.prove('configuration: the configured operators are kept apart', z3.BoolVal(m._base_function_set == fs and m._base_function_set is not m.config_task['function_set']))
            c.prove('configuration: settings of the user are left as they were', z3.BoolVal(user == {'s': 1} and loaded == {'l': 1}))
        ctx.run(run)
    return g


def groups():
    return [('operators by dimension', g_auto), ('dimensions of the neural model', g_inject), ('settings over defaults', g_merge), ('constraints read again', g_priors), ('state manager read again', g_state)] + \
        [(f'task {n}', g_task(n)) for n in ('KD_Discover', 'KD_Discover_SPR', 'KD_Discover_Regression')] + \
        [(f'import {n}', g_import(n)) for n in ('KD_Discover', 'KD_Discover_SPR')] + \
        [(f'configuration {n}', g_config(n)) for n in ('KD_Discover', 'KD_Discover_SPR', 'KD_Discover_Regression')]


# ------------------------------------------------------------------ bounded: real models
class Data:
    def __init__(self, d):
        self.d = d

    def get_data(self):
        return self.d


def rt_auto(seed):
    r = random.Random(seed)
    cls = need(KD, 'KD_Discover')
    m = cls.__new__(cls)
    pool = sorted(DIFF) + ['add', 'mul', 'div', 'n2', 'n3', 'add_t', 'mul_t', 'sin', 'const', 'exp_t']
    base = [r.choice(pool) for _ in range(r.randint(0, 9))] if r.random() < .4 else r.sample(pool, r.randint(0, 9))
    m._base_function_set = list(base)
    m.config_task = {}
    for step in range(4):
        n = r.choice([None, 0, 1, 2, 3, 4])
        m.data_class = Data({} if n is None else {'n_input_dim': n}) if r.random() < .9 else None
        m._auto_select_function_set()
        want = expected_set(base, 1 if n is None or m.data_class is None else n)
        check(m.config_task['function_set'] == want, f'base {base}, dimension {n}: {m.config_task["function_set"]} expected {want}', f'operators {n}')
        check(m._base_function_set == base, 'configured operators changed', 'base changed')
        m.config_task['function_set'].append('stale')


def rt_merge(seed):
    r = random.Random(seed)
    F = need(UT, 'safe_merge_dicts')

    def tree(d):
        return {r.choice('abcde'): (tree(d - 1) if d and r.random() < .5 else r.choice([1, None, 'x', [1, 2], {}])) for _ in range(r.randint(0, 4))}

    def merge(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = merge(a[k] if isinstance(a.get(k), dict) else {}, v) if isinstance(v, dict) else v
        return out
    a, b = tree(3), tree(3)
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    got = F(a, b)
    check(got == merge(a0, b0), f'{b0} over {a0}: {got}', 'merge')
    def spoil(x):
        for v in list(x.values()):
            if isinstance(v, dict):
                spoil(v)
        x['stale'] = 1
    spoil(got)
    check(a == a0 and b == b0, f'merging {b0} over {a0} or changing the result changed the sources', 'merge sources')


def dataset(dim, k):
    P = need('kd.dataset', 'PDEDataset')
    r = np.random.RandomState(k)
    n = 6
    if dim == 1:
        x, t = np.linspace(0, 1, n + 2), np.linspace(0, 1, n)
        return P(f'one{k}', x=x, t=t, usol=np.sin(x)[:, None] * (1 + t))
    axes = ['x', 'y', 'z'][:dim] + ['t']
    co = {a: np.linspace(0, 1, n + i) for i, a in enumerate(axes)}
    g = np.meshgrid(*[co[a] for a in axes], indexing='ij')
    return P(equation_name=f'nd{dim}{k}', fields_data={'u': sum(np.sin(v + i) for i, v in enumerate(g))}, coords_1d=co, axis_order=axes, target_field='u', lhs_axis='t')


def digest(m):
    Pg = need(KD, 'Program')
    t = Pg.task
    strip = lambda x: {k: strip(v) for k, v in x.items()} if isinstance(x, dict) else ([strip(v) for v in x] if isinstance(x, (list, tuple)) else x)
    cfg = strip({k: v for k, v in m.config.items()})
    d = dict(config=cfg, out=m.out_path, name=m.dataset, operators=list(m.config_task['function_set']), library=[str(x) for x in Pg.library.names], arities=[x.arity for x in Pg.library.tokens],
             constraints=[type(p).__name__ + p.describe() for p in m.prior.priors], counting=m.prior.do_count, state=type(m.state_manager).__name__, n_input=getattr(t, 'n_input_var', None), n_param=getattr(t, 'n_param_var', None),
             max_length=m.controller.max_length, execute=getattr(Pg.execute, '__name__', None), iterations=m.searcher.args['n_iterations'] if hasattr(m.searcher, 'args') else None)
    if hasattr(m, 'denoise_pinn'):
        d['net'] = [tuple(p.shape) for p in m.denoise_pinn.nn.parameters()]
    return d


SETTINGS = [None, {}, {'task': {'function_set': ['add', 'mul', 'diff2', 'n2']}}, {'prior': {'length': {'min_': 2, 'max_': 20, 'on': True}}, 'controller': {'max_length': 32}},
            {'state_manager': {'type': 'hierarchical', 'observe_dangling': True}, 'prior': {'count_constraints': True}}, {'prior': {'repeat': [{'tokens': 'add', 'min_': None, 'max_': 2, 'on': True}, {'tokens': 'mul', 'min_': None, 'max_': 3, 'on': True}]}}]


def prepare():
    """the compiled back end of torch has to be loaded before the other users of the same compiler library"""
    with contextlib.suppress(Exception):
        import triton._C.libtriton  # noqa


def rt_model(which, seed):
    r = random.Random(seed)
    cls = need(KD, which)
    sparse = which.endswith('SPR')
    cfg = r.choice(SETTINGS)
    if sparse and cfg and 'task' in cfg:
        cfg = {'task': {'function_set': ['add_t', 'mul_t', 'diff2_t', 'n2_t']}}
    ops = {} if r.random() < .6 else dict(binary_operators=['add_t', 'mul_t', 'div_t', 'diff_t'] if sparse else ['add', 'mul', 'div', 'diff'], unary_operators=['n2_t'] if sparse else ['n2'])
    kw = dict(config_out=copy.deepcopy(cfg), **ops)
    kwi = dict(sample=30, colloc_num=50) if sparse else {}
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        os.chdir(d)
        try:
            import logging
            logging.disable(logging.INFO)
            dims = [1, 2, 3] if not ops else [1, 1]
            m = cls(**kw)
            names = []
            for step in range(3):
                dim = r.choice(dims)
                ds = dataset(dim, step)
                names.append(dim)
                m.import_dataset(ds, **kwi)
                a = digest(m)
                if r.random() < .3:
                    m.setup()
                    a2 = digest(m)
                    check(a2 == a, f'{which}: setting up again changed {[k for k in a if a[k] != a2[k]]}', f'{which} setup twice')
                f = cls(**copy.deepcopy(kw))
                f.import_dataset(ds, **kwi)
                b = digest(f)
                bad = [k for k in b if a[k] != b[k]]
                check(not bad, f'{which}({kw}): after datasets of dimension {names} {bad[0] if bad else ""} is {a[bad[0]] if bad else ""}, of a fresh model {b[bad[0]] if bad else ""}', f'{which} reconfigured {bad[0] if bad else ""}')
                base = list(f._base_function_set)
                want = (ops['binary_operators'] + ops['unary_operators']) if ops else expected_set(base, dim)
                check(b['operators'] == want, f'{which}: operators {b["operators"]} expected {want}', f'{which} operators')
                check(kw['config_out'] == cfg, f'{which}: settings of the user changed', f'{which} settings')
                if cfg:
                    for s, sec in cfg.items():
                        for k, v in sec.items():
                            if k != 'function_set' and k != 'n_input_var':
                                got = m.config[s][k]
                                check(got == v or isinstance(v, dict) and all(got.get(x) == y for x, y in v.items()), f'{which}: setting {s}.{k}={v} became {got}', f'{which} override')
        finally:
            os.chdir(old)
            logging.disable(logging.NOTSET)


def rt_regression(seed):
    r = random.Random(seed)
    cls = need(KR, 'KD_Discover_Regression')
    A = need(KR, '_RegressionArrayData')
    old = os.getcwd()
    ops = {} if r.random() < .5 else dict(binary_operators=r.sample(['add', 'mul', 'sub'], 2), unary_operators=r.choice([[], ['sin'], ['const']]))
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        os.chdir(d)
        try:
            m = cls(**ops)
            for step in range(3):
                k = r.randint(1, 4)
                X = np.random.RandomState(seed % 1000 + step).rand(12, k)
                def put(q):
                    q.data_class, q.dataset, q.dataset_, q.n_features_in_ = A(X, X.sum(1), [f'f{i}' for i in range(k)]), 'custom_regression', None, k
                    q.setup()
                put(m)
                a = digest(m)
                f = cls(**copy.deepcopy(ops))
                put(f)
                b = digest(f)
                bad = [k for k in b if a[k] != b[k]]
                check(not bad, f'regression: {bad} of a reused model differ from a fresh one', f'regression {bad[:1]}')
                want = ops['binary_operators'] + ops['unary_operators'] + ([] if 'const' in ops['unary_operators'] else ['const']) if ops else list(f._base_function_set)
                check(b['operators'] == want, f'regression: operators {b["operators"]} expected {want}', 'regression operators')
                check(m.get_params()['binary_operators'] == ops.get('binary_operators', []) and m.get_params()['unary_operators'] == ops.get('unary_operators', []), 'regression: operators of the user changed', 'regression params')
        finally:
            os.chdir(old)


def cases(tier, rng):
    for s in range(4):
        for w in ('KD_Discover', 'KD_Discover_SPR'):
            yield C(lambda model, seed: rt_model(model, seed)), {'model': w, 'seed': s}, (w, s)
        yield C(lambda seed: rt_regression(seed)), {'seed': s}, ('regression', s)
    for s in range(200):
        yield C(lambda seed: rt_auto(seed)), {'seed': s}, ('auto', s)
        yield C(lambda seed: rt_merge(seed)), {'seed': s}, ('merge', s)
    while True:
        s = rng.randrange(10 ** 9)
        w = rng.choice(['KD_Discover', 'KD_Discover_SPR'])
        yield C(lambda model, seed: rt_model(model, seed)), {'model': w, 'seed': s}, (w, s)
        yield C(lambda seed: rt_regression(seed)), {'seed': s}, ('regression', s)
        yield C(lambda seed: rt_auto(seed)), {'seed': s}, ('auto', s)
        yield C(lambda seed: rt_merge(seed)), {'seed': s}, ('merge', s)
