"""Concrete helpers for the genetic search: small problem contexts, tree well-formedness, dumps, an independent term evaluator."""
import contextlib, io, copy
import numpy as np
from pyvc.report import need, check

CFG = 'kd.model.sga.sgapde.config'
CTX = 'kd.model.sga.sgapde.context'
_cache = {}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def problem(seed, dim):
    """(fields, coords, axis order, extra config) of a small problem"""
    r = np.random.RandomState(seed)
    n, m = 7 + seed % 3, 8 + seed % 2
    x, t, y = np.linspace(0.2, 1.7, n), np.linspace(0.1, 1.1, m), np.linspace(0.3, 1.3, 6)
    k = 1 + 0.3 * seed
    if dim == '2d':
        return {'u': np.outer(np.sin(k * x) + 1.5, np.exp(-t)) + 0.3 * np.outer(x, t)}, {'x': x, 't': t}, ['x', 't'], {}
    if dim == 'y':
        return {'u': np.outer(np.exp(-t), np.sin(k * y) + 1.2)}, {'t': t, 'y': y}, ['t', 'y'], {}
    if dim == '3d':
        return ({'u': np.sin(k * x)[:, None, None] * np.cos(y)[None, :, None] * np.exp(-t)[None, None, :] + 1.1}, {'x': x, 'y': y, 't': t}, ['x', 'y', 't'], {})
    return ({'u': np.outer(np.sin(k * x) + 1.5, np.exp(-t)), 'v': np.outer(np.cos(x), 1 + t * t) + 0.2, 'w': np.outer(x * x, np.cos(t)) + 0.5}, {'x': x, 't': t}, ['x', 't'],
            dict(param_fields={'nu': 0.1 + 0.05 * r.rand(n, m)}))


def context_for(seed=0, dim='2d', simple=True, fresh=False, **kw):
    key = (seed, dim, simple, tuple(sorted(kw.items())) if not fresh else None)
    if not fresh and key in _cache:
        return _cache[key]
    SolverConfig, ProblemContext = need(CFG, 'SolverConfig'), need(CTX, 'ProblemContext')
    f, c, o, ex = problem(seed, dim)
    cfg = SolverConfig(fields_data=f, coords_1d=c, axis_order=o, simple_mode=simple, **{**ex, **kw})
    ctx = quiet(ProblemContext, cfg)
    if not fresh:
        _cache[key] = ctx
    return ctx


def search(ctx, seed, num, depth, width, p_var=0.5, p_mute=0.3, p_rep=0.5, p_cro=0.5):
    import random
    SGA = need('kd.model.sga.sgapde.solver', 'SGA')
    np.random.seed(seed % 2**32)
    random.seed(seed)
    return quiet(SGA, ctx, num, depth, width, p_var, p_mute, p_rep, p_cro, [], [])


def nested(tr):
    """(name, [children]) of the root, following child_st/child_num"""
    def rec(d, i):
        nd = tr.tree[d][i]
        if nd.child_num == 0:
            return (nd.name, [])
        return (nd.name, [rec(d + 1, nd.child_st + j) for j in range(nd.child_num)])
    return rec(0, 0)


def dump(e):
    return [[[(n.name, n.child_num, n.child_st if n.child_num else None) for n in lv] for lv in t.tree] for t in e.elements]


def arities(ctx):
    ar = {}
    for tb in ('OPS', 'ROOT', 'OP1', 'OP2'):
        for r in getattr(ctx, tb):
            ar[r[0]] = int(r[1])
    return ar


def well_formed(tr, ctx, depth, when):
    ar = arities(ctx)
    var = {r[0] for r in ctx.VARS} | {r[0] for r in ctx.den}
    den = {r[0] for r in ctx.den}
    vals = {r[0]: r[2] for r in list(ctx.VARS) + list(ctx.den)}
    roots = {r[0] for r in ctx.ROOT}
    T = tr.tree
    check(len(T) == depth, f'{when}: {len(T)} levels instead of {depth}')
    check(len(T[0]) == 1, f'{when}: {len(T[0])} roots')
    check(T[0][0].name in roots, f'{when}: root {T[0][0].name} is not a root operator')
    for d, lv in enumerate(T):
        pos = 0
        for i, nd in enumerate(lv):
            if nd.name in ar:
                check(nd.child_num == ar[nd.name], f'{when}: operator {nd.name} has {nd.child_num} children instead of {ar[nd.name]}')
                if d + 1 < depth:
                    check(nd.child_st == pos, f'{when}: children of {nd.name} at level {d} start at {nd.child_st} instead of {pos}')
                    check(nd.child_st + nd.child_num <= len(T[d + 1]), f'{when}: operator {nd.name} at level {d} lacks children')
                    kids = T[d + 1][nd.child_st:nd.child_st + nd.child_num]
                    for k in kids:
                        check(k.parent_idx == i, f'{when}: a child of node {i} of level {d} names {k.parent_idx} as its parent')
                    if nd.name in ('d', 'd^2'):
                        check(kids[1].name in den, f'{when}: derivative with respect to {kids[1].name}')
                else:
                    check(depth == 1, f'{when}: operator {nd.name} at the bottom level')
                pos += nd.child_num
            else:
                check(nd.child_num == 0, f'{when}: leaf {nd.name} has {nd.child_num} children')
                check(nd.name in var, f'{when}: {nd.name} is neither an operator nor a registered variable')
                check(nd.var is vals[nd.name] or np.array_equal(nd.var, vals[nd.name]), f'{when}: leaf {nd.name} carries another value')
            check(nd.depth == d, f'{when}: node {nd.name} of level {d} says level {nd.depth}')
        if d + 1 < depth:
            check(pos == len(T[d + 1]), f'{when}: level {d + 1} has {len(T[d + 1])} nodes for {pos} children')
    if depth > 1:
        want = []

        def rec(t):
            want.append(t[0])
            for k in t[1]:
                rec(k)
        rec(nested(tr))
        check(tr.preorder == ' '.join(want), f'{when}: prefix text {tr.preorder!r} is not that of the tree')


# ------------------------------------------------------------------ independent evaluation of a term
def fd(u, h, axis, order):
    v = np.moveaxis(np.asarray(u, dtype=float), axis, 0)
    o = np.zeros_like(v)
    if order == 1:
        o[1:-1] = (v[2:] - v[:-2]) / (2 * h)
        o[0] = (-1.5 * v[0] + 2 * v[1] - 0.5 * v[2]) / h
        o[-1] = (1.5 * v[-1] - 2 * v[-2] + 0.5 * v[-3]) / h
    else:
        o[1:-1] = (v[2:] - 2 * v[1:-1] + v[:-2]) / h ** 2
        o[0] = (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) / h ** 2
        o[-1] = (2 * v[-1] - 5 * v[-2] + 4 * v[-3] - v[-4]) / h ** 2
    return np.moveaxis(o, 0, axis)


class Invalid(Exception):
    pass


def value(t, ctx, mode='legacy', leaves=None):
    """value of a nested tree (name, children) on the problem grid"""
    leaves = leaves or {r[0]: np.asarray(r[2], dtype=float) for r in list(ctx.VARS) + list(ctx.den)}
    nm, kids = t
    if not kids:
        return leaves[nm]
    if nm in ('d', 'd^2'):
        ax = kids[1][0]
        if ax == ctx.lhs_axis:
            raise Invalid
        c = ctx.coords_1d[ax]
        return fd(value(kids[0], ctx, mode, leaves), c[1] - c[0], list(ctx.axis_order).index(ax), 1 if nm == 'd' else 2)
    v = [value(k, ctx, mode, leaves) for k in kids]
    if nm == '+':
        return v[0] + v[1]
    if nm == '-':
        return v[0] - v[1]
    if nm == '*':
        return v[0] * v[1]
    if nm == '^2':
        return v[0] ** 2
    if nm == '^3':
        return v[0] ** 3
    if nm == '/':
        b = v[1]
        if np.allclose(b, 0.0, atol=1e-10):
            if mode == 'guard':
                raise Invalid
            b = b + 1e-6
        while np.any(b == 0):
            b = b + 1e-10
        return v[0] / b
    raise KeyError(nm)


def set_leaf(tr, ctx, rng, name):
    """turn a random leaf (not the right child of a derivative) into the named variable"""
    val = {r[0]: r for r in ctx.VARS}[name]
    spots = []
    for d in range(1, len(tr.tree)):
        for i, nd in enumerate(tr.tree[d]):
            par = tr.tree[d - 1][nd.parent_idx]
            if nd.child_num == 0 and not (par.name in ('d', 'd^2') and i != par.child_st):
                spots.append(nd)
    if spots:
        nd = spots[rng.randrange(len(spots))]
        nd.name, nd.var, nd.full, nd.cache = val[0], val[2], val, copy.deepcopy(val[2])


def lhs_derivative(tr, ctx):
    """turn the coordinate of one derivative into the evolution axis; True when the tree has one"""
    for d in range(len(tr.tree) - 1):
        for nd in tr.tree[d]:
            if nd.name in ('d', 'd^2'):
                k = tr.tree[d + 1][nd.child_st + 1]
                k.name = ctx.lhs_axis
                return True
    return False
