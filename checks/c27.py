"""C27: model parameters round-trip and reject unknown names."""
import ast, builtins, collections, inspect, itertools, random, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .c12 import C

ID = 'C27'
LEVEL = 'proof'
BUDGET = {'quick': 25, 'thorough': 300}
RULE = 'random subsets of parameters of every model class and of nested estimators, with valid and invalid names; non-trivial when the case is new'
BASE = 'kd.base'


class Tok:
    """opaque value"""

    def __init__(self, s, true=True):
        self.s, self.true = s, true

    def __bool__(self):
        return self.true

    def __repr__(self):
        return f'<{self.s}>'


# ------------------------------------------------------------------ any number of names
class Key:
    """plain name number t"""

    def __init__(self, w, t):
        self.w, self.t = w, z3.simplify(lift(t))

    def __format__(self, s):
        return f'key({self.t})'

    def __str__(self):
        return f'key({self.t})'

    def __add__(self, o):
        return KeyText(self, (o,))


class KeyText:
    def __init__(self, key, parts):
        self.key, self.parts = key, parts

    def __add__(self, o):
        return KeyText(self.key, self.parts + (o,))


class Sub:
    """rest of the name of parameter i"""

    def __init__(self, i):
        self.i = i


class Name:
    """name of parameter i: key(i), or key(i)__rest(i) when nested(i)"""

    def __init__(self, w, i):
        self.w, self.i = w, i

    def partition(self, sep):
        if sep != '__':
            raise Unsupported('another separator')
        w = self.w
        if cur().decide(w.nested(self.i)):
            return Key(w, w.key(self.i)), '__', Sub(self.i)
        return Key(w, w.key(self.i)), '', ''

    def split(self, sep=None, maxsplit=-1):
        if sep != '__' or maxsplit != 1:
            raise Unsupported('another splitting')
        k, d, s = self.partition('__')
        return [k, s] if d else [k]

    def __contains__(self, x):
        if x != '__':
            raise Unsupported('another test')
        return cur().decide(self.w.nested(self.i))

    def __getattr__(self, a):
        raise Unsupported(f'name.{a}')


class Val:
    """value given for parameter i"""

    def __init__(self, w, i):
        self.w, self.i = w, i

    def __format__(self, s):
        return 'value'


class World:
    def __init__(self, c):
        I, B = z3.IntSort(), z3.BoolSort()
        self.n = z3.Int('names')
        c.assume(self.n >= 0)
        self.key = z3.Function('key_of', I, I)
        self.nested = z3.Function('is_nested', I, B)
        self.valid = z3.Function('is_parameter', I, B)
        self.hasown = z3.Function('given_itself', I, B)
        self.haspar_new = z3.Function('new_value_has_parameters', I, B)      # by key
        self.haspar_old = z3.Function('old_value_has_parameters', I, B)
        self.sub_ok = z3.Function('rest_valid', I, B)                        # by key: the group's names are valid for the value it ends up with
        self.m_own, self.own = z3.Int('own'), z3.Function('own_entry', I, I)
        self.m_nst, self.grp = z3.Int('groups'), z3.Function('group_key', I, I)
        self.rank = z3.Function('own_rank', I, I)
        self.grank = z3.Function('group_rank', I, I)
        c.assume(z3.And(self.m_own >= 0, self.m_nst >= 0))

    def own_entry(self, c, j):
        """the j-th own entry is a parameter that is not nested"""
        o = self.own(j)
        c.assume(z3.And(o >= 0, o < self.n, z3.Not(self.nested(o))), check=False)
        return o

    def at(self, c, i):
        """parameter i has its place among the own entries or its group"""
        k = self.key(i)
        c.assume(z3.If(self.nested(i),
                       z3.And(self.grank(k) >= 0, self.grank(k) < self.m_nst, self.grp(self.grank(k)) == k),
                       z3.And(self.rank(i) >= 0, self.rank(i) < self.m_own, self.own(self.rank(i)) == i, self.hasown(k))), check=False)

    def ok_key(self, k):
        """the group of k can be handed on"""
        return z3.And(z3.If(self.hasown(k), self.haspar_new(k), self.haspar_old(k)), self.sub_ok(k))


class Params(SSeq):
    __ghost_keywords__ = True

    def __init__(self, w):
        self.w = w

    def items(self):
        w = self.w
        return SSeq(w.n, lambda i: (Name(w, lift(i)), Val(w, lift(i))))

    def keys(self):
        return SSeq(self.w.n, lambda i: Name(self.w, lift(i)))

    def __iter__(self):
        raise Unsupported('iteration over the names')

    def length(self):
        return self.w.n

    def elem(self, i):
        return Name(self.w, lift(i))

    def __getitem__(self, nm):
        return Val(self.w, nm.i)

    def __bool__(self):
        return cur().decide(self.w.n > 0)


class Est:
    """an estimator's parameter value: may have parameters of its own"""

    def __init__(self, w, k, which):
        self.w, self.k, self.which = w, k, which

    def has(self):
        return self.w.haspar_new(self.k) if self.which == 'new' else self.w.haspar_old(self.k)


class Valid:
    """parameters of the estimator by name"""

    def __init__(self, w):
        self.w = w

    def __contains__(self, k):
        return cur().decide(self.w.valid(k.t))

    def __getitem__(self, k):
        return Est(self.w, k.t, 'old')

    def get(self, k, d=None):
        return Est(self.w, k.t, 'old')


WR = {}


class Own:
    """own parameters among the first k"""

    def __init__(self, w, k):
        self.w, self.k = w, k
        WR[id(self)] = []

    def __setitem__(self, key, v):
        WR[id(self)].append((key, v))

    def items(self):
        w = self.w

        def el(j):
            o = w.own_entry(cur(), lift(j))
            return Key(w, w.key(o)), Val(w, o)
        return SSeq(w.m_own, el)

    def __contains__(self, key):
        return cur().decide(self.w.hasown(key.t))

    def __getitem__(self, key):
        return Est(self.w, key.t, 'new')

    def get(self, key, d=None):
        return Est(self.w, key.t, 'new') if cur().decide(self.w.hasown(key.t)) else d


class Group:
    __ghost_keywords__ = True

    def __init__(self, w, key, owner=None):
        self.w, self.key, self.owner = w, key, owner

    def __setitem__(self, sub, v):
        WR[id(self.owner)].append((self.key, sub, v))


class Nested:
    """nested parameters among the first k, by name"""

    def __init__(self, w, k):
        self.w, self.k = w, k
        WR[id(self)] = []

    def __getitem__(self, key):
        return Group(self.w, key, self)

    def items(self):
        w = self.w
        return SSeq(w.m_nst, lambda j: (Key(w, w.grp(lift(j))), Group(w, Key(w, w.grp(lift(j))))))


class Ip(Interp):
    def contains(self, b, a):
        if isinstance(b, (Valid, Own, Name)):
            return b.__contains__(a)
        return super().contains(b, a)


class Split(LoopContract):
    """loop over the names: before name k the own and the nested parameters are those of the first k names, all valid"""

    def __init__(self, w, st):
        self.w, self.st = w, st
        self.modifies = ()

    def roles(self, info):
        if not self.st.get('roles'):
            d = [x for x, v in info.entry.items() if type(v) is dict and not v]
            e = [x for x, v in info.entry.items() if isinstance(v, collections.defaultdict) and v.default_factory is dict and not v]
            if not (len(d) == len(e) == 1):
                raise Unsupported('other containers')
            self.st['roles'] = d[0], e[0]
        return self.st['roles']

    def check(self, info, k, when):
        a, b = self.roles(info)
        self.modifies = (a, b)
        c, w = cur(), self.w
        if when == 'initiation':
            return
        O, N = info.env[a], info.env[b]
        if not (isinstance(O, Own) and isinstance(N, Nested)):
            raise Unsupported('containers replaced')
        i = self.k
        wo, wn = WR[id(O)], WR[id(N)]
        c.prove('split: a name is handed on only when it is valid', w.valid(w.key(i)))
        good_o = len(wo) == 1 and isinstance(wo[0][0], Key) and isinstance(wo[0][1], Val) and not wn
        good_n = len(wn) == 1 and isinstance(wn[0][1], Sub) and isinstance(wn[0][2], Val) and not wo
        own = z3.And(wo[0][0].t == w.key(i), wo[0][1].i == i) if good_o else z3.BoolVal(False)
        nst = z3.And(wn[0][0].t == w.key(i), wn[0][1].i == i, wn[0][2].i == i) if good_n else z3.BoolVal(False)
        c.prove('split: the name goes to the own or to the nested parameters, with its value', z3.If(w.nested(i), nst, own))

    def havoc(self, info, k):
        a, b = self.roles(info)
        self.k = k
        info.env[a], info.env[b] = Own(self.w, k), Nested(self.w, k)
        self.st['done'] = (info.env[a], info.env[b])
        cur().assume(z3.Implies(z3.And(self.st['q'] < k, self.st['q'] >= 0), self.w.valid(self.w.key(self.st['q']))), check=False)


def g_split(ctx):
    cls = need(BASE, 'BaseEstimator')
    F = need(BASE, 'BaseEstimator').__dict__.get('_split_params')
    if F is None:
        raise Unsupported('no splitting of the names')
    F = getattr(F, '__func__', F)

    def run():
        c = cur()
        w = World(c)
        WR.clear()
        q = z3.Int('q')                                # arbitrary parameter
        c.assume(z3.And(q >= 0, q < w.n))
        w.at(c, q)
        st = {'q': q, 'raise': None}

        class Me(cls):
            def get_params(self, deep=True):
                return Valid(w)

            def __repr__(self):
                return 'estimator'
        ip = Ip(ctx.session)

        def inner(ip_, est, sub):
            if not (isinstance(est, Est) and isinstance(sub, Group)):
                raise Unsupported('other recursion')
            k = sub.key.t
            c.prove('split: the rest of a name is checked against the value the name will have', z3.And(est.k == k, z3.BoolVal(est.which == 'new') == w.hasown(k)))
            if not c.decide(w.sub_ok(k)):
                st['raise'] = 'rest'
                raise PyRaise(ValueError('inner'))
            return {}, {}
        ip.contracts[F] = inner
        ip.intrinsics[builtins.hasattr] = lambda o, a: c.decide(o.has()) if isinstance(o, Est) and a in ('set_params', 'get_params') else hasattr(o, a)
        ip.intrinsics[builtins.setattr] = lambda *a: c.prove('split: nothing is changed', z3.BoolVal(False))

        class Rest(LoopContract):
            def check(self, info, k, when):
                if when == 'consecution':
                    c.prove('split: a group is accepted only when its names are valid for the value it ends up with', w.ok_key(w.grp(self.k)))

            def havoc(self, info, k):
                self.k = k
                g = w.grank(w.key(q))
                c.assume(z3.Implies(z3.And(w.nested(q), g < k), w.ok_key(w.key(q))), check=False)
        loops = {}

        def tmpl(fr, node):
            o = fr.loop_no.get(id(node))
            if o not in loops:
                loops[o] = Split(w, st) if not loops else Rest()
            return loops[o]
        ip.loop_template = tmpl
        me = Me.__new__(Me)
        try:
            r = ip.run_function(F, [me, Params(w)], {})
        except PyRaise as e:
            if st['raise'] == 'rest':
                return
            c.prove('split: only invalid names are rejected, with a ValueError', z3.BoolVal(type(e.exc) is ValueError))
            # the reason: the current name is no parameter, or the current group has no parameters
            ks = [x.k for x in loops.values() if hasattr(x, 'k')]
            reasons = [z3.Not(w.valid(w.key(ks[0])))]
            if len(ks) > 1:
                reasons = [z3.Not(w.ok_key(w.grp(ks[1])))]
            c.prove('split: a name is rejected only when it is no parameter, or its value has none', z3.Or(reasons))
            return
        ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Own) and isinstance(r[1], Nested)
        c.prove('split: own and nested parameters are returned', z3.BoolVal(ok))
        if ok:
            c.prove('split: all names were looked at', z3.And(r[0].k == w.n, r[1].k == w.n))
            c.prove('split: every name is a parameter', w.valid(w.key(q)))
            c.prove('split: every nested name is valid for the value its prefix ends up with', z3.Implies(w.nested(q), w.ok_key(w.key(q))))
        c.prove('split: nothing is changed', z3.BoolVal(not ip.attr_log))
    ctx.run(run)
    ctx.assume_note('recursion: the contract of _split_params is used for nested estimators (induction on the number of "__" in the names)')


def g_set(ctx):
    """set_params changes exactly the given parameters, or rejects and changes nothing"""
    cls = need(BASE, 'BaseEstimator')
    S = need(BASE, 'BaseEstimator').__dict__.get('_split_params')
    if S is None:
        raise Unsupported('no splitting of the names')
    S = getattr(S, '__func__', S)

    def run():
        c = cur()
        w = World(c)
        WR.clear()
        q = z3.Int('q')
        c.assume(z3.And(q >= 0, q < w.n))
        w.at(c, q)
        all_ok = z3.Bool('all_valid')
        st = {'writes': [], 'calls': [], 'phase': None}

        class Me(cls):
            def __repr__(self):
                return 'estimator'
        me = Me.__new__(Me)
        ip = Ip(ctx.session)

        def split(ip_, est, params):
            c.prove('set: the names given are the ones that are checked', z3.BoolVal(est is me and isinstance(params, Params)))
            c.prove('set: names are checked before anything is changed', z3.BoolVal(not st['writes'] and not st['calls']))
            if not c.decide(all_ok):
                raise PyRaise(ValueError('invalid'))
            st['checked'] = True
            return Own(w, w.n), Nested(w, w.n)
        ip.contracts[S] = split

        def seta(o, k, v):
            if o is not me or not isinstance(k, Key):
                raise Unsupported('other attribute')
            st['writes'].append((k, v))

        def geta(o, k, *d):
            if o is me and isinstance(k, Key):
                c.prove('set: the rest of a name goes to the value its prefix has afterwards', z3.BoolVal(st['phase'] == 'own done'))
                return types.SimpleNamespace(set_params=lambda **kw: st['calls'].append((k, kw)))
            return ip.getattr(o, k)
        ip.intrinsics[builtins.setattr] = seta
        ip.intrinsics[builtins.getattr] = geta

        class L1(LoopContract):
            def check(self, info, k, when):
                if when == 'initiation':
                    c.prove('set: nothing is changed before', z3.BoolVal(not st['writes'] and not st['calls']))
                    return
                ws = st['writes']
                o = w.own(self.k)
                ok = len(ws) == 1 and isinstance(ws[0][1], Val) and not st['calls']
                c.prove('set: the parameter is set to the value given for it, and nothing else', z3.And(ws[0][0].t == w.key(o), ws[0][1].i == o) if ok else z3.BoolVal(False))

            def havoc(self, info, k):
                self.k = k
                st['writes'] = []
                st['phase'] = 'own done'
                w.own_entry(c, k)

        class L2(LoopContract):
            def check(self, info, k, when):
                if when == 'initiation':
                    c.prove('set: all own parameters are set before the nested ones', z3.BoolVal(st['phase'] == 'own done'))
                    return
                cs = st['calls']
                ok = len(cs) == 1 and set(cs[0][1]) == {'**'} and isinstance(cs[0][1]['**'], Group) and not st['writes']
                c.prove('set: the group goes to the parameter it names', z3.And(cs[0][0].t == w.grp(self.k), cs[0][1]['**'].key.t == w.grp(self.k)) if ok else z3.BoolVal(False))

            def havoc(self, info, k):
                self.k = k
                st['calls'] = []
                st['phase2'] = 'nested done'
        loops = {}

        def tmpl(fr, node):
            o = fr.loop_no.get(id(node))
            if o not in loops:
                loops[o] = L1() if not loops else L2()
            return loops[o]
        ip.loop_template = tmpl
        try:
            r = ip.run_function(cls.set_params, [me], {'**': Params(w)})
        except PyRaise as e:
            c.prove('set: invalid names raise ValueError', z3.BoolVal(type(e.exc) is ValueError))
            c.prove('set: only invalid names are rejected', z3.Not(all_ok))
            c.prove('set: nothing is changed when a name is rejected', z3.BoolVal(not st['writes'] and not st['calls'] and not ip.attr_log))
            return
        c.prove('set: names were checked', z3.Or(w.n == 0, z3.BoolVal(bool(st.get('checked')))))
        c.prove('set: own and nested parameters were set', z3.Or(w.n == 0, z3.BoolVal(st['phase'] == 'own done' and st.get('phase2') == 'nested done')))
        # lemma: parameter q is set, or handed on, in one of the iterations
        c.prove('set: every parameter given has its turn', z3.If(w.nested(q), z3.And(w.grank(w.key(q)) < w.m_nst, w.grp(w.grank(w.key(q))) == w.key(q)),
                                                               z3.And(w.rank(q) < w.m_own, w.own(w.rank(q)) == q)))
        c.prove('set: no other attribute is changed', z3.BoolVal(not ip.attr_log))
        c.prove('set: the estimator itself is returned', z3.BoolVal(r is me))
    ctx.run(run)


class Deep:
    """parameters of the value of name j"""

    def __init__(self, w, j):
        self.w, self.j = w, j

    def items(self):
        return DeepItems(self)


class DeepItems:
    def __init__(self, d):
        self.d = d


class DeepKey:
    def __init__(self, j):
        self.j = j


class DeepVal:
    def __init__(self, j):
        self.j = j


class DeepPairs:
    """the pairs (prefix + sep + k, v) for all k, v of the nested parameters"""

    def __init__(self, d, text, val):
        self.d, self.text, self.val = d, text, val


class Held:
    """value of parameter j"""

    def __init__(self, w, j):
        self.w, self.j = w, j

    def get_params(self, deep=True):
        if not deep:
            raise Unsupported('part of the nested parameters')
        return Deep(self.w, self.j)


class OutD:
    def __init__(self):
        WR[id(self)] = []

    def update(self, x):
        WR[id(self)].append(('deep', x))

    def __setitem__(self, k, v):
        WR[id(self)].append(('own', k, v))


class GIp(Ip):
    def pairs(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.eval(g.iter, fr)
            if isinstance(it, DeepItems):
                f2 = self.subframe(fr)
                k, v = DeepKey(it.d.j), DeepVal(it.d.j)
                self.assign(g.target, (k, v), f2)
                return it, k, v, f2

    def e_GeneratorExp(self, e, fr):
        r = self.pairs(e, fr)
        if r:
            it, k, v, f2 = r
            t = self.eval(e.elt, f2)
            if not (isinstance(t, tuple) and len(t) == 2):
                raise Unsupported('other pairs')
            return DeepPairs(it.d, *t) if self.fresh(t, k, v) else unsupported()
        return super().e_GeneratorExp(e, fr)

    e_ListComp = e_GeneratorExp

    def fresh(self, t, k, v):
        return True

    def e_DictComp(self, e, fr):
        r = self.pairs(e, fr)
        if r:
            it, k, v, f2 = r
            return DeepPairs(it.d, self.eval(e.key, f2), self.eval(e.value, f2))
        return super().e_DictComp(e, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            elif isinstance(x, ast.FormattedValue) and x.conversion == -1 and x.format_spec is None:
                parts.append(self.eval(x.value, fr))
        if parts and isinstance(parts[0], Key) and len(parts) == len(e.values):
            return KeyText(parts[0], tuple(parts[1:]))
        return super().e_JoinedStr(e, fr)


def unsupported():
    raise Unsupported('other form')


def g_get(ctx):
    """get_params reports every constructor parameter with its current value, and the parameters of nested estimators"""
    cls = need(BASE, 'BaseEstimator')

    def run():
        c = cur()
        WR.clear()
        w = types.SimpleNamespace()
        m = z3.Int('parameters')
        c.assume(m >= 0)
        has = z3.Function('has_parameters', z3.IntSort(), z3.BoolSort())
        deep = z3.Bool('deep')

        class Me(cls):
            pass
        me = Me.__new__(Me)
        ip = GIp(ctx.session)
        names = need(BASE, 'BaseEstimator').__dict__['_get_param_names']
        ip.contracts[names.__func__] = lambda ip_, k, *a: SSeq(m, lambda j: Key(w, lift(j)))
        st = {}

        def geta(o, k, *d):
            if o is me and isinstance(k, Key):
                st['read'] = k
                return Held(w, k.t)
            return ip.getattr(o, k)
        ip.intrinsics[builtins.getattr] = geta
        ip.intrinsics[builtins.setattr] = lambda *a: c.prove('get: nothing is changed', z3.BoolVal(False))
        ip.intrinsics[builtins.hasattr] = lambda o, a: c.decide(has(o.j)) if isinstance(o, Held) and a in ('get_params', 'set_params') else hasattr(o, a)

        class L(LoopContract):
            """before name k the result holds the parameters of the first k names"""

            def role(self, info):
                if 'role' not in st:
                    d = [x for x, v in info.entry.items() if type(v) is dict and not v]
                    if len(d) != 1:
                        raise Unsupported('other containers')
                    st['role'] = d[0]
                self.modifies = (st['role'],)
                return st['role']

            def check(self, info, k, when):
                o = self.role(info)
                if when == 'initiation':
                    return
                ws = WR[id(info.env[o])] if isinstance(info.env[o], OutD) else unsupported()
                own = [x for x in ws if x[0] == 'own']
                dp = [x for x in ws if x[0] == 'deep']
                c.prove('get: a parameter is reported once, with its current value', z3.And(own[0][1].t == self.k, own[0][2].j == self.k) if len(own) == 1 and isinstance(own[0][1], Key) and isinstance(own[0][2], Held) else z3.BoolVal(False))
                want = z3.And(deep, has(self.k))
                if dp:
                    x = dp[0][1]
                    good = len(dp) == 1 and isinstance(x, DeepPairs) and isinstance(x.text, KeyText) and isinstance(x.val, DeepVal)
                    if good:
                        ps = x.text.parts
                        good = [p for p in ps if isinstance(p, DeepKey)] == [ps[-1]] and ''.join(p for p in ps if isinstance(p, str)) == '__' and all(isinstance(p, (str, DeepKey)) for p in ps)
                    c.prove('get: nested parameters are reported as name__rest, with their values', z3.And(want, x.text.key.t == self.k, x.d.j == self.k, x.val.j == self.k) if good else z3.BoolVal(False))
                else:
                    c.prove('get: nested parameters are reported', z3.Not(want))

            def havoc(self, info, k):
                o = self.role(info)
                self.k = k
                info.env[o] = st['out'] = OutD()
        ip.loop_template = lambda fr, node: L()
        r = ip.run_function(cls.get_params, [me], {'deep': c.decide(deep)})
        c.prove('get: the parameters collected are returned', z3.BoolVal(r is st.get('out')))
        c.prove('get: nothing is added after the last name, nothing is changed', z3.BoolVal(WR[id(r)] == [] and not ip.attr_log))
    ctx.run(run)
    ctx.assume_note('parameter names contain no "__"; so a nested name never equals a plain one')


# ------------------------------------------------------------------ all short combinations, run through the whole code
def classes():
    B = need(BASE, 'BaseEstimator')

    class R(B):
        def __init__(self, e=0):
            self.e = e

    class Q(B):
        def __init__(self, c=0, deep=None, d=0):
            self.c, self.deep, self.d = c, deep, d

    class P(B):
        def __init__(self, b=0, a=0, est=None, n=None):
            self.b, self.a, self.est, self.n = b, a, est, n
    return P, Q, R


KEYS = ['a', 'b', 'n', 'est', 'est__c', 'est__deep', 'est__deep__e', 'zz', 'est__zz', 'est__deep__zz', 'n__x', 'zz__c', 'a__']


def flat(o):
    """all attributes reachable"""
    out = {}

    def rec(x, pre):
        for k, v in vars(x).items():
            out[pre + k] = v
            if hasattr(v, 'set_params'):
                rec(v, pre + k + '__')
    rec(o, '')
    return out


def model(P, Q, R):
    return P(Tok('b'), Tok('a'), Q(Tok('c'), R(Tok('e')), Tok('d')), Tok('n'))


def expected(before, params, Q):
    """None when some name is invalid, otherwise the attributes afterwards"""
    own = {k: v for k, v in params.items() if '__' not in k}
    after = dict(before)

    def store(k, v):
        for x in [x for x in after if x.startswith(k + '__')]:
            del after[x]
        after[k] = v
        if hasattr(v, 'set_params'):
            for x, y in flat(v).items():
                after[f'{k}__{x}'] = y
    for depth in range(4):
        for k, v in params.items():
            if k.count('__') != depth:
                continue
            if k not in after:
                return None
            store(k, v)
    return after


def short_group(first):
    def g(ctx):
        P, Q, R = classes()
        ip = Interp(ctx.session)
        for size in (1, 2, 3):
            for ks in itertools.permutations(KEYS, size):
                if ks[0] != first:
                    continue
                for est in (['tok', 'obj'] if 'est' in ks else ['']):
                    one(ctx, P, Q, R, ks, est)

    def one(ctx, P, Q, R, ks, est):
        def run():
            c = cur()
            ip = Interp(ctx.session)
            o = model(P, Q, R)
            params = {k: Tok('new ' + k) for k in ks}
            if est == 'obj':
                params['est'] = Q(Tok('c2'), R(Tok('e2')), Tok('d2'))
            before = flat(o)
            want = expected(before, params, Q)
            sub = [v for v in params.values() if hasattr(v, 'set_params')]
            subs = [flat(v) for v in sub]
            lab = '' if size_ok(ks) else ''
            try:
                r = ip.call(o.set_params, **params)
            except PyRaise as e:
                c.prove('names: only invalid names raise, with ValueError', z3.BoolVal(want is None and type(e.exc) is ValueError))
                c.prove('names: nothing is changed when a name is rejected', z3.BoolVal(same(flat(o), before) and all(same(flat(v), s) for v, s in zip(sub, subs))))
                return
            c.prove('names: unknown names are rejected', z3.BoolVal(want is not None))
            if want is None:
                return
            c.prove('names: exactly the parameters given are changed', z3.BoolVal(same(flat(o), want)))
            c.prove('names: the estimator itself is returned', z3.BoolVal(r is o))
            d = ip.call(o.get_params)
            c.prove('names: parameters read back', z3.BoolVal(same(d, want)))
            d = ip.call(o.get_params, deep=False)
            c.prove('names: own parameters read back', z3.BoolVal(same(d, {k: v for k, v in want.items() if '__' not in k})))
        ctx.run(run)
    return g


def size_ok(ks):
    return True


def same(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


# ------------------------------------------------------------------ the model classes
def model_classes():
    out = {}
    for mod, names in (('kd.model.kd_discover', ['KD_Discover', 'KD_Discover_SPR']), ('kd.model.kd_discover_regression', ['KD_Discover_Regression']),
                       ('kd.model.kd_sga', ['KD_SGA']), ('kd.model.dlga', ['DLGA']), ('kd.model.kd_dlga', ['KD_DLGA']), ('kd.model.kd_pysr', ['KD_PySR'])):
        for n in names:
            out[n] = need(mod, n)
    return out


LISTS = {'binary_operators', 'unary_operators', 'operators'}
CFG = {'config_out'}


def accepted(cls):
    """documented constructor parameters: those of the class or, with **kwargs, of its bases"""
    out = []
    for k in cls.__mro__:
        if '__init__' not in vars(k) or k.__module__ == BASE:
            continue
        s = inspect.signature(k.__init__).parameters.values()
        out += [p.name for p in s if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) and p.name != 'self' and p.name not in out]
        if not any(p.kind == p.VAR_KEYWORD for p in s):
            break
    return out


def stubs(ip):
    kdd = need('kd.model.kd_discover')
    dl = need('kd.model.dlga')
    ip.contracts[dl.NN] = lambda ip_, *a, **k: Tok('network')
    for k in (kdd.KD_Discover, kdd.KD_Discover_SPR):
        f = vars(k).get('set_config')
        if f is not None:
            ip.contracts[f] = lambda ip_, self, *a, **kw: setattr(self, '_configured', (getattr(self, 'base_config_file', None), a, kw))


def value(k, tag, true=True):
    if k in LISTS and not true:
        return []
    if k in LISTS:
        return [Tok(f'{tag} {k} 1'), Tok(f'{tag} {k} 2')]
    if k == 'extra_model_kwargs':
        return {'x': Tok(f'{tag} {k}')} if true else {}
    if k == 'niterations':
        return fresh_int(k)
    return Tok(f'{tag} {k}', true)


def eq(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t.eq(b.t)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return same(a, b)
    return a is b


def class_group(name):
    def g(ctx):
        cls = model_classes()[name]
        names = accepted(cls)

        def build(some, true=True):
            def run():
                c = cur()
                ip = Interp(ctx.session)
                stubs(ip)
                given = {k: value(k, 'given', true) for k in some}
                copies = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in given.items()}
                defaults = {k: p.default for k, p in inspect.signature(cls.__init__).parameters.items() if p.default is not inspect.Parameter.empty}
                o = ip.call(cls, **given)
                d = ip.call(o.get_params)
                c.prove('model: the parameters reported are the constructor parameters', z3.BoolVal(set(d) == set(names)))
                for k in names:
                    if k in given:
                        c.prove(f'model: {k} is reported as passed in', z3.BoolVal(k in d and eq(d[k], given[k])))
                    elif k in defaults:
                        c.prove(f'model: {k} is reported as its default', z3.BoolVal(k in d and (eq(d[k], defaults[k]) or d[k] == defaults[k])))
                c.prove('model: values passed in are left as they were', z3.BoolVal(all(eq(given[k], copies[k]) for k in given)))
                # set any single parameter, and all together
                for sub in [[k] for k in names] + [list(names)]:
                    o = ip.call(cls, **given)
                    before = ip.call(o.get_params)
                    new = {k: value(k, 'new', not true) for k in sub}
                    r = ip.call(o.set_params, **new)
                    after = ip.call(o.get_params)
                    c.prove('model: the model itself is returned', z3.BoolVal(r is o))
                    for k in names:
                        c.prove(f'model: {k} reads back as set, the others as before', z3.BoolVal(eq(after[k], new[k] if k in new else before[k])))
                o = ip.call(cls, **given)
                before, attrs = ip.call(o.get_params), dict(vars(o))
                for bad in [{'nope': 1}, {names[0]: Tok('x'), 'nope': 1}, {'nope': 1, names[-1]: Tok('x')}, {names[0] + '__x': 1}, {names[-1]: Tok('x'), names[0] + '__x': 1}]:
                    try:
                        ip.call(o.set_params, **bad)
                        c.prove('model: unknown names are rejected', z3.BoolVal(False))
                    except PyRaise as e:
                        c.prove('model: unknown names are rejected with ValueError', z3.BoolVal(type(e.exc) is ValueError))
                    c.prove('model: rejected settings change nothing', z3.BoolVal(same(vars(o), attrs)))
            return run
        req = [k for k, p in inspect.signature(cls.__init__).parameters.items() if p.default is inspect.Parameter.empty and k != 'self' and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]
        ctx.run(build(names))
        ctx.run(build(names, False))
        ctx.run(build(req))
        ctx.assume_note('opaque values for every parameter (lists of opaque values for operator lists, a mapping for extra_model_kwargs); set_config and the network constructor are contracts that do not touch the parameters (checked at run time)')
    return g


def groups():
    return [('splitting the names', g_split), ('setting parameters', g_set), ('reporting parameters', g_get)] + \
        [(f'names after {k}', short_group(k)) for k in KEYS] + [(f'model {n}', class_group(n)) for n in model_classes()]


# ------------------------------------------------------------------ bounded: the real classes
def rt_model(name, seed):
    r = random.Random(seed)
    cls = model_classes()[name]
    names = accepted(cls)
    cfg = [None, None, {'training': {'n_epochs': 3}}, {'task': {'task_type': 'pde'}}]

    def val(k):
        if k in ('binary_operators', 'unary_operators'):
            return r.sample(['add', 'mul', 'div', 'n2', 'n3', 'diff'], r.randint(0, 3))
        if k == 'operators':
            return r.sample(['u', 'u_x', 'u_xx', 'u_t'], r.randint(1, 3))
        if k == 'config_out':
            return r.choice(cfg)
        if k == 'extra_model_kwargs':
            return r.choice([None, {}, {'x': 1}])
        if k == 'input_dim':
            return r.randint(1, 3)
        if k in ('out_path', 'target_field', 'lhs_axis', 'primary_spatial_axis'):
            return r.choice(['./a/', 'b', 'u'])
        return r.randint(1, 9) if k in ('niterations', 'n_iterations') else r.choice([0, 1, 2, 3, 0.5, None, False, True])
    req = [k for k, p in inspect.signature(cls.__init__).parameters.items() if p.default is inspect.Parameter.empty and k != 'self' and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]
    given = {k: val(k) for k in names if k in req or r.random() < .5}
    import copy
    keep = copy.deepcopy(given)
    o = cls(**given)
    d = o.get_params()
    check(set(d) == set(names), f'{name}: parameters {sorted(d)} reported, constructor takes {sorted(names)}', f'{name} names')
    for k, v in given.items():
        check(d[k] == v, f'{name}: {k}={v!r} given, {d[k]!r} reported', f'{name} {k}')
    check(given == keep, f'{name}: arguments changed', f'{name} args')
    for step in range(4):
        ks = r.sample(names, r.randint(0, len(names)))
        new = {k: val(k) for k in ks}
        before = o.get_params()
        bad = r.random() < .35
        if bad:
            items = list(new.items())
            items.insert(r.randint(0, len(items)), (r.choice(['nope', names[0] + 's', 'nope__x', names[0] + '__x', '']), 1))
            try:
                o.set_params(**dict(items))
            except ValueError:
                pass
            else:
                raise Fail(f'{name}: set_params({dict(items)}) accepted', f'{name} accepts unknown')
            check(o.get_params() == before, f'{name}: rejected set_params({dict(items)}) changed {[k for k in before if o.get_params()[k] != before[k]]}', f'{name} rejected changes')
            continue
        check(o.set_params(**new) is o, f'{name}: set_params returned something else', f'{name} return')
        after = o.get_params()
        for k in names:
            want = new.get(k, before[k])
            check(after[k] == want, f'{name}: after set_params({new}) {k} is {after[k]!r}, expected {want!r}', f'{name} set {k}')
    again = cls(**{k: v for k, v in o.get_params().items()})
    check(again.get_params() == o.get_params(), f'{name}: a model built from the reported parameters reports others', f'{name} rebuild')
    fresh = cls(**{k: v for k, v in given.items() if k in req})
    dflt = {k: p.default for k, p in inspect.signature(cls.__init__).parameters.items() if p.default is not inspect.Parameter.empty}
    for k, v in dflt.items():
        check(fresh.get_params()[k] == v, f'{name}: default of {k} is {fresh.get_params()[k]!r} after other models were configured, {v!r} in the signature', f'{name} default {k}')
        if isinstance(v, list):
            check(v == [], f'{name}: default list of {k} changed', f'{name} default {k}')


def rt_nested(seed):
    r = random.Random(seed)
    P, Q, R = classes()
    S = model_classes()['KD_SGA']
    def inner():
        return r.choice([lambda: Q(r.randint(1, 9), R(r.randint(1, 9)), r.randint(1, 9)), lambda: S(num=r.randint(1, 9)), lambda: Q(1, Q(2, R(3)), 4), lambda: None])()
    o = P(1, 2, inner(), inner())
    for step in range(5):
        before = flat(o)
        names = list(before) + [x + '__' + y for x in ('a', 'est', 'n', 'est__deep') for y in ('zz', 'c', 'num', 'e')] + ['zz']
        ks = r.sample(names, min(len(names), r.randint(1, 5)))
        new = {k: (inner() if k in ('est', 'n', 'est__deep') and r.random() < .6 else r.randint(10, 99)) for k in ks}
        subs = {k: flat(v) for k, v in new.items() if hasattr(v, 'set_params')}
        want = expected(before, new, Q)
        try:
            o.set_params(**new)
        except ValueError:
            check(want is None, f'set_params({new}) rejected on {sorted(before)}', 'nested rejected')
            check(same(flat(o), before), f'rejected set_params({new}) changed the model', 'nested rejected changes')
            for k, s in subs.items():
                check(same(flat(new[k]), s), f'rejected set_params({new}) changed the estimator passed in', 'nested rejected changes argument')
            continue
        check(want is not None, f'set_params({new}) accepted on {sorted(before)}', 'nested accepted')
        check(same(flat(o), want), f'set_params({new}): {flat(o)} expected {want}', 'nested set')
        check(same(o.get_params(), want), 'nested parameters are not the ones set', 'nested get')


def cases(tier, rng):
    for n in model_classes():
        for s in range(3):
            yield C(lambda model, seed: rt_model(model, seed)), {'model': n, 'seed': s}, (n, s)
    while True:
        s = rng.randrange(10 ** 9)
        yield C(lambda nested: rt_nested(nested)), {'nested': s}, ('nested', s)
        n = rng.choice(list(model_classes()))
        yield C(lambda model, seed: rt_model(model, seed)), {'model': n, 'seed': s}, (n, s)
