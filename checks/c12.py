"""C12: expression trees of the genetic search stay well-formed."""
import ast, copy, types
import numpy as np
from pyvc.core import *
from pyvc.interp import Interp, LoopContract, SSeq
from pyvc.report import need, check, Fail
from .sgatree import *
from . import sga

ID = 'C12'
LEVEL = 'proof'
BUDGET = {'quick': 40, 'thorough': 600}
RULE = 'random trees and candidates of several depths, probabilities, grids and axis sets, mutated / replaced / crossed many times, every node list re-checked after each step; non-trivial when the tree text is new'
TREE = 'kd.model.sga.sgapde.tree'
PDE = 'kd.model.sga.sgapde.pde'


class Builder(SSeq):
    """a level under construction: node k must be child j of parent p where S(p)+j == k"""

    def __init__(self, T, P, depth, maxd):
        self.T, self.P, self.depth, self.maxd = T, P, depth, maxd
        self.cnt, self.total, self.cur = z3.IntVal(0), z3.IntVal(0), None
        SSeq.__init__(self, None, None)

    def length(self):
        return self.cnt

    def elem(self, k):
        raise Unsupported('node of a level under construction')

    def __symlen__(self):
        return wrap(z3.simplify(self.cnt))

    def append(self, nd):
        c, T, P = cur(), self.T, self.P
        if self.cur is None:
            raise Unsupported('node appended outside the loop over the parents')
        p, made = self.cur
        self.cur = (p, made + 1)
        par = P.node(p)
        nm = T.fn
        c.prove(f'{nm}: no parent gets more children than its operator takes', z3.BoolVal(made < par.child_num))
        c.prove(f'{nm}: a node is the next child of its parent', self.cnt == P.S(p) + made)
        row = nd.full
        c.prove(f'{nm}: a node carries the name, arity and value of one table row', z3.BoolVal(isinstance(row, Row) and nd.name is row[0] and nd.child_num == row[1] and nd.var is row[2]))
        if not isinstance(row, Row):
            raise PathEnd()
        c.prove(f'{nm}: a node knows its parent', lift(nd.parent_idx) == p)
        c.prove(f'{nm}: a node knows its level and position', z3.And(lift(nd.depth) == self.depth, lift(nd.idx) == self.cnt))
        ar = nd.child_num
        c.prove(f'{nm}: leaves are registered variables', z3.BoolVal(ar > 0 or row.table.name in ('VARS', 'den')))
        c.prove(f'{nm}: the bottom level has leaves only', z3.Implies(self.depth == self.maxd - 1, z3.BoolVal(ar == 0)))
        if made == 1 and par.name.is_d():
            c.prove(f'{nm}: the second argument of a derivative is a coordinate', T.DEN(nd.name.t) if isinstance(nd.name, SName) else z3.BoolVal(False))
        if ar:
            c.prove(f'{nm}: the children of an operator start where the earlier ones end', lift(nd.child_st) == self.total if nd.child_st is not None else z3.BoolVal(False))
        self.cnt = self.cnt + 1
        self.total = self.total + ar


class Levels:
    """the node lists: level depth-1 is complete, level depth is being filled, deeper ones are empty"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, i):
        c = cur()
        t = lift(i)
        for off, lv in self.d:
            if c.entails(t == off):
                return lv
        raise Unsupported('level outside the current step')

    def __symlen__(self):
        raise Unsupported('number of levels')


class Empty(SSeq):
    """[[] for _ in range(n)] with a symbolic n"""

    def __init__(self, n):
        self.lists, self.n = {}, lift(n)
        SSeq.__init__(self, self.n, None)

    def __getitem__(self, i):
        t = z3.simplify(lift(i))
        return self.lists.setdefault(t.sexpr(), [])

    elem = __getitem__


class Ip(Interp):
    def comp(self, e, fr, ctor):
        if isinstance(e.elt, ast.List) and not e.elt.elts and len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.eval(e.generators[0].iter, fr)
            if isinstance(it, SSeq) or hasattr(it, 'length'):
                n = z3.simplify(lift(it.length()))
                if not z3.is_int_value(n):
                    return Empty(n)
        return Interp.comp(self, e, fr, ctor)

    def contains(self, c, x):
        if isinstance(x, (SName, OpName)) and isinstance(c, (set, frozenset, list, tuple)):
            if any(y is x for y in c):
                return True
            ts = [lift_bool(r) for r in (x == y for y in c)]
            return wrap(z3.simplify(z3.Or(ts))) if ts else False
        return Interp.contains(self, c, x)

    def getitem(self, o, i):
        if isinstance(o, (Empty, Level, Builder, Levels, Table, Row)):
            return o[i]
        return Interp.getitem(self, o, i)


def rand_contracts(T, mod):
    def randint(ip, lo, hi=None, *a, **k):
        if hi is None:
            lo, hi = 0, lo
        v = z3.Int(fresh_name('rnd'))
        cur().assume(z3.And(v >= lift(lo), v < lift(hi)))
        return wrap(v)

    def rnd(ip, *a):
        v = z3.Real(fresh_name('rnd'))
        cur().assume(z3.And(v >= 0, v < 1), check=False)
        return wrap(v)

    return {np.random.randint: randint, np.random.random: rnd, np.random.rand: rnd,
            np.random.choice: lambda ip, seq, **k: seq[cur().choose(len(seq))],
            copy.deepcopy: lambda ip, x, *a: x, mod.dfs: lambda ip, ret, *a, **k: None, mod.tree2str_merge: lambda ip, t: 'text'}


class Resample(LoopContract):
    """drawing again until acceptable: the variable stays a row of the same table"""

    def applies(self, node):
        return isinstance(node, ast.While)

    def havoc(self, info, k):
        for nm, v in info.entry.items():
            if isinstance(v, Row) and nm in self.names(info):
                i = z3.Int(fresh_name('row'))
                cur().assume(z3.And(i >= 0, i < v.table.n), check=False)
                info.env[nm] = Row(v.table, i)

    def names(self, info):
        return {x.id for x in ast.walk(ast.Module(body=info.node.body, type_ignores=[])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def check(self, info, k, when):
        for nm, v in info.entry.items():
            if isinstance(v, Row) and nm in self.names(info):
                w = info.env.get(nm)
                cur().prove(f'mutate: a redrawn node comes from the same table [{when}]', z3.BoolVal(isinstance(w, Row) and w.table is v.table))


def picker(ip, outer, parents, redraw, children=None):
    def tmpl(fr, node):
        if fr.qual.split('.')[-1] not in ('__init__', 'mutate') or 'Tree' not in fr.qual:
            return None
        nest = [n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While)) and n is not node]
        if isinstance(node, ast.While) and not nest:
            return redraw
        if len(ip.cuts) == 0:
            return outer
        if len(ip.cuts) == 1 and isinstance(node, ast.For):
            return parents
        if len(ip.cuts) == 2 and isinstance(node, ast.For):
            return children
        return None
    return tmpl


class Ip2(Ip):
    cuts = ()

    def cut_contract(self, node, fr, sq, C):
        if isinstance(C, Resample):
            return Interp.cut_contract(self, node, fr, sq, C)
        old, self.cuts = self.cuts, self.cuts + (C,)
        try:
            return Interp.cut_contract(self, node, fr, sq, C)
        finally:
            self.cuts = old

    def loop_template(self, fr, node):
        return self.pick(fr, node)


def g_generate(ctx):
    mod = need(TREE)
    Tree = need(TREE, 'Tree')
    real = sga.context_for(seed=0)

    def run():
        c = cur()
        T = Tables('Tree', real)
        ip = Ip2(ctx.session, contracts=rand_contracts(T, mod))
        D = Int('max_depth')
        c.assume(D.t >= 1)
        tree = Tree.__new__(Tree)
        st = types.SimpleNamespace()

        class Outer(LoopContract):
            modifies = ()

            def havoc(self, info, k):
                cc = cur()
                d = info.env['depth']
                st.d0 = lift(d)
                cc.assume(st.d0 >= 1, check=False)
                st.P = Level(T, 'P')
                cc.assume(st.P.n >= 0, check=False)
                st.B = Builder(T, st.P, st.d0, D.t)
                tree.tree = Levels([(st.d0 - 1, st.P), (st.d0, st.B)])

            def check(self, info, k, when):
                cc = cur()
                if when == 'initiation':
                    cc.prove('Tree: generation starts below the root', lift(info.env['depth']) == 1)
                    lv = tree.tree
                    r = lv.lists.get('0', []) if isinstance(lv, Empty) else []
                    ok = len(r) == 1 and all(not v for k2, v in lv.lists.items() if k2 != '0')
                    cc.prove('Tree: one root, nothing else before generation', z3.BoolVal(ok))
                    cc.prove('Tree: as many levels as the declared depth', lv.n == D.t if isinstance(lv, Empty) else z3.BoolVal(False))
                    if ok:
                        row = r[0].full
                        cc.prove('Tree: the root is an operator of the root table with its own children first', z3.And(z3.BoolVal(isinstance(row, Row) and row.table.name == 'ROOT' and r[0].name is row[0] and r[0].child_num == row[1] and r[0].var is row[2]), lift(r[0].child_st) == 0, lift(r[0].depth) == 0))
                else:
                    cc.prove('Tree: levels are filled one after the other', lift(info.env['depth']) == st.d0 + 1)
                    cc.prove('Tree: every operator of the level above has got all its children', st.B.cnt == st.P.S(st.P.n))

        class Parents(LoopContract):
            modifies = ()

            def nxt(self, info):
                # the running count of grandchildren: the one integer local that starts at 0 in this level
                return info.env.get('next_cnt')

            def havoc(self, info, k):
                cc = cur()
                st.P.step(k)
                st.B.cnt = st.P.S(k)
                tot = z3.Int(fresh_name('total'))
                cc.assume(tot >= 0, check=False)
                st.B.total = tot
                st.B.cur = (k, 0)
                if 'next_cnt' in info.env:
                    cc.assume(lift(info.env['next_cnt']) == tot, check=False)

            def check(self, info, k, when):
                cc = cur()
                cc.prove(f'Tree: every earlier parent has got all its children [{when}]', st.B.cnt == st.P.S(k))
                if 'next_cnt' in info.env:
                    cc.prove(f'Tree: grandchildren are counted [{when}]', lift(info.env['next_cnt']) == st.B.total)

        ip.pick = picker(ip, Outer(), Parents(), Resample())
        ip.run_function(Tree.__init__, [tree, T.context, D, Real('p_var')], {})
    ctx.run(run)
    ctx.assume_note('numpy.random draws an index inside the requested range (any one)', 'prefix sums of non-negative child counts are monotone', 'dfs / tree2str_merge do not change the node lists (tree2str_merge gets a deep copy)',
                    'variable names are never operator names (naming.validate_name, C15)')


def g_mutate(ctx):
    mod = need(TREE)
    Tree = need(TREE, 'Tree')
    real = sga.context_for(seed=0)

    def run():
        c = cur()
        T = Tables('mutate', real)
        ip = Ip2(ctx.session, contracts=rand_contracts(T, mod))
        D = Int('max_depth')
        c.assume(D.t >= 1)
        tree = Tree.__new__(Tree)
        tree.max_depth = D
        tree.tree = types.SimpleNamespace()
        st = types.SimpleNamespace()

        class Mid(Level):
            """the level being mutated: same shape before and after; children of a derivative keep a coordinate on the right"""

            def adjust(self, i, nd):
                cc = cur()
                p = getattr(st, 'k', None)
                if p is None:
                    return
                par = st.P.node(p)
                if par.child_num == 2 and isinstance(par.name, OpName) and par.name.is_d() and cc.decide(i == st.P.S(p) + 1):
                    # invariant of the level above: a derivative has a coordinate on its right
                    if nd.child_num:
                        raise PathEnd()
                    cc.assume(T.DEN(nd.name.t))
                if nd.child_num == 2 and nd.name.is_d():
                    r = st.C.node(z3.simplify(self.S(i) + 1))
                    if r.child_num:
                        raise PathEnd()
                    cc.assume(T.DEN(r.name.t))

            def __setitem__(self, i, nd):
                cc = cur()
                i = z3.simplify(lift(i))
                k = st.k
                par = st.P.node(k)
                cc.prove('mutate: a child of the current parent is replaced', z3.And(i >= st.P.S(k), i < st.P.S(k) + par.child_num))
                old = self.node(i)
                row = nd.full
                cc.prove('mutate: a node carries the name, arity and value of one table row', z3.BoolVal(isinstance(row, Row) and nd.name is row[0] and nd.child_num == row[1] and nd.var is row[2]))
                if not isinstance(row, Row):
                    raise PathEnd()
                cc.prove('mutate: a node keeps its number of children', z3.BoolVal(nd.child_num == old.child_num))
                cc.prove('mutate: leaves stay registered variables', z3.BoolVal(nd.child_num > 0 or row.table.name in ('VARS', 'den')))
                cc.prove('mutate: the parent and the level are kept', z3.And(lift(nd.parent_idx) == k, lift(nd.depth) == st.d0))
                if nd.child_num:
                    cc.prove('mutate: an operator keeps its own children', lift(nd.child_st) == self.S(i) if nd.child_st is not None else z3.BoolVal(False))
                if par.child_num == 2 and par.name.is_d() and not cc.decide(i == st.P.S(k)):
                    cc.prove('mutate: the second argument of a derivative stays a coordinate', T.DEN(nd.name.t) if isinstance(nd.name, SName) else z3.BoolVal(False))
                if nd.child_num == 2 and nd.name.is_d():
                    r = st.C.node(z3.simplify(self.S(i) + 1))
                    cc.prove('mutate: only an operator with a coordinate on its right becomes a derivative', T.DEN(r.name.t) if isinstance(r.name, SName) else z3.BoolVal(False))
                self.memo[i.sexpr()] = nd

        class Outer(LoopContract):
            def havoc(self, info, k):
                cc = cur()
                st.d0 = lift(info.env['depth'])
                cc.assume(st.d0 >= 1, check=False)
                st.k = None
                st.P, st.L, st.C = Level(T, 'P'), Mid(T, 'L'), Level(T, 'C')
                cc.assume(st.L.n == st.P.S(st.P.n), check=False)
                cc.assume(st.C.n == st.L.S(st.L.n), check=False)
                tree.tree = Levels([(st.d0 - 1, st.P), (st.d0, st.L), (st.d0 + 1, st.C)])

            def check(self, info, k, when):
                cur().prove(f'mutate: levels are visited one after the other from the root [{when}]', lift(info.env['depth']) == (1 if when == 'initiation' else st.d0 + 1))

        class Parents(LoopContract):
            def havoc(self, info, k):
                cc = cur()
                st.k = k
                st.P.step(k)
                if 'next_cnt' in info.env:
                    cc.assume(lift(info.env['next_cnt']) == st.L.S(st.P.S(k)), check=False)

            def check(self, info, k, when):
                if 'next_cnt' in info.env:
                    st.P.step(k)
                    cur().prove(f'mutate: grandchildren are counted [{when}]', lift(info.env['next_cnt']) == st.L.S(st.P.S(k)))

        class Children(LoopContract):
            def at(self, j):
                return z3.simplify(st.P.S(st.k) + j)

            def havoc(self, info, j):
                if 'next_cnt' in info.env:
                    cur().assume(lift(info.env['next_cnt']) == st.L.S(self.at(j)), check=False)

            def check(self, info, j, when):
                if 'next_cnt' in info.env:
                    cur().prove(f'mutate: grandchildren are counted after every child [{when}]', lift(info.env['next_cnt']) == st.L.S(self.at(j)))

        ip.pick = picker(ip, Outer(), Parents(), Resample(), Children())
        ip.run_function(Tree.mutate, [tree, T.context, Real('p_mute')], {})
    ctx.run(run)
    ctx.assume_note('the tree is well-formed before the mutation (established by generation and kept by every earlier mutation)')


def g_text(ctx):
    """dfs lists a subtree: its root, then its children in order"""
    mod = need(TREE)

    def run():
        c = cur()
        T = Tables('dfs', sga.context_for(seed=0))
        ip = Ip2(ctx.session, contracts={})
        ip.pick = lambda fr, node: None
        d, i = Int('depth'), Int('idx')
        c.assume(z3.And(d.t >= 0, i.t >= 0))
        L = Level(T, 'L')
        c.assume(i.t < L.n)
        nd = L.node(i.t)
        out = []
        first = [True]

        def dfs(ip_, ret, tree, depth, idx):
            if first[0]:
                first[0] = False
                return ip_.run_function(mod.dfs, [ret, tree, depth, idx], {})
            out.append((lift(depth), lift(idx)))
            ret.append(out[-1])
        ip.contracts[mod.dfs] = dfs
        ret = []
        ip.call(mod.dfs, ret, Levels([(d.t, L)]), d, i)
        m = nd.child_num
        c.prove('dfs: the name of the node comes first, followed by one subtree per child', z3.BoolVal(len(ret) == m + 1 and ret[0] is nd.name))
        if len(ret) == m + 1:
            for j in range(m):
                c.prove('dfs: the children follow in order', z3.And(ret[j + 1][0] == d.t + 1, ret[j + 1][1] == L.S(i.t) + j))
    ctx.run(run)


def groups():
    return [('tree:generate', g_generate), ('tree:mutate', g_mutate), ('tree:prefix', g_text)]


# ------------------------------------------------------------------ run-time contracts
def case_tree(seed, dim, depth, p_var, p_mute, rounds, simple=True):
    ctx = sga.context_for(seed=seed % 5, dim=dim, simple=simple)
    Tree = need(TREE, 'Tree')
    np.random.seed(seed % (2**32))
    tr = Tree(ctx, depth, p_var)
    sga.well_formed(tr, ctx, depth, 'after generation')
    for r in range(rounds):
        before = [(len(l)) for l in tr.tree]
        tr.mutate(ctx, p_mute)
        sga.well_formed(tr, ctx, depth, f'after mutation {r + 1}')
        check([len(l) for l in tr.tree] == before, f'mutation {r + 1} changed the number of nodes per level: {before} -> {[len(l) for l in tr.tree]}')
    return tr


def case_pde(seed, dim, depth, width, p_var, p_mute, steps):
    ctx = sga.context_for(seed=seed % 5, dim=dim)
    PDEc = need(PDE, 'PDE')
    np.random.seed(seed % (2**32))
    p = PDEc(ctx, depth, width, p_var)
    check(1 <= len(p.elements) <= width and p.W == len(p.elements), f'a candidate of declared width {width} has {len(p.elements)} terms (W={p.W})')
    for s in range(steps):
        keep = copy.deepcopy(p)
        text = sga.dump(keep)
        q = copy.deepcopy(p)
        if np.random.rand() < 0.6:
            q.mutate(p_mute)
        else:
            q.replace()
        check(len(q.elements) == len(p.elements) == q.W, 'mutation/replacement changed the number of terms')
        check(sga.dump(p) == text, 'mutating a copy changed the candidate it was copied from')
        for t in q.elements:
            sga.well_formed(t, ctx, depth, 'in a mutated candidate')
        p = q


def case_search(seed, dim, num, depth, width, gens):
    """crossover and change on a running search: candidates kept in the pool are never altered"""
    ctx = sga.context_for(seed=seed % 5, dim=dim)
    s = sga.search(ctx, seed, num, depth, width)
    for g in range(gens):
        for op in ('cross_over', 'change'):
            held = list(s.eqs)
            snap = [sga.dump(e) for e in held]
            old = sga.quiet(getattr(s, op), *((0.5,) if op == 'cross_over' else (0.5, 0.5)))
            for e, t in zip(held, snap):
                check(sga.dump(e) == t, f'{op} altered a candidate of the pool in place')
            seen = {}
            for k, e in enumerate(s.eqs):
                for t in e.elements:
                    sga.well_formed(t, ctx, depth, f'after {op}')
                    check(id(t) not in seen or seen[id(t)] == k, f'after {op} two candidates share one tree object')
                    seen[id(t)] = k
                check(e.W == len(e.elements), f'after {op} the width of a candidate is not its number of terms')


def C(f):
    def g(p):
        return f(**p)
    g.__name__ = f.__name__
    return g


def cases(tier, rng):
    for dim in ('2d', 'y', '3d', 'multi'):
        for depth in (2, 3, 4, 5):
            for p_var in (0.0, 0.3, 0.6, 1.0):
                for p_mute in (0.2, 0.7, 1.0):
                    s = rng.randrange(10**6)
                    yield C(case_tree), dict(seed=s, dim=dim, depth=depth, p_var=p_var, p_mute=p_mute, rounds=6, simple=s % 2 == 0), ('t', s, dim, depth)
    for i in range(12):
        yield C(case_search), dict(seed=rng.randrange(10**6), dim=('2d', 'y', '3d', 'multi')[i % 4], num=5, depth=3, width=3, gens=3), ('s', i)
    i = 0
    while True:
        i += 1
        s = rng.randrange(10**6)
        dim = ('2d', 'y', '3d', 'multi')[i % 4]
        if i % 5 == 0:
            yield C(case_search), dict(seed=s, dim=dim, num=rng.randrange(3, 8), depth=rng.randrange(2, 5), width=rng.randrange(1, 5), gens=3), ('s', s)
        elif i % 2:
            yield C(case_tree), dict(seed=s, dim=dim, depth=rng.randrange(2, 7), p_var=rng.random(), p_mute=rng.random(), rounds=8, simple=bool(s % 2)), ('t', s)
        else:
            yield C(case_pde), dict(seed=s, dim=dim, depth=rng.randrange(2, 5), width=rng.randrange(1, 6), p_var=rng.random(), p_mute=rng.random(), steps=6), ('p', s)
