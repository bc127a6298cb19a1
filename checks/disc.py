"""Concrete helpers for the expression-generation engine: libraries, expression trees, enumerations."""
import itertools
import numpy as np
from pyvc.report import need


def make_library(spec):
    """spec: list of (name, arity, kind) with kind in '', 'x', 'u', 'c', 'p'."""
    lib = need('kd.model.discover.library')
    toks = []
    for name, arity, kind in spec:
        if kind == 'x':
            toks.append(lib.Token(None, name, 0, 1, input_var=int(''.join(ch for ch in name if ch.isdigit()) or 1) - 1))
        elif kind == 'u':
            toks.append(lib.Token(None, name, 0, 1, state_var=0))
        elif kind == 'p':
            toks.append(lib.Token(None, name, 0, 1, param_var=0))
        elif kind == 'c':
            toks.append(lib.PlaceholderConstant(1.0))
        else:
            toks.append(lib.Token((lambda *a: a), name, arity, 1))
    return lib.Library(toks)


STD = [('add', 2, ''), ('sub', 2, ''), ('diff', 2, ''), ('sin', 1, ''), ('exp', 1, ''), ('log', 1, ''), ('u1', 0, 'u'), ('x1', 0, 'x'), ('const', 0, 'c')]
SMALL = [('add', 2, ''), ('diff', 2, ''), ('sin', 1, ''), ('u1', 0, 'u'), ('x1', 0, 'x')]


class Nd:
    __slots__ = ('tok', 'parent', 'kids', 'arity', 'idx')

    def __init__(self, tok, parent, arity, idx):
        self.tok, self.parent, self.kids, self.arity, self.idx = tok, parent, [], arity, idx


def partial_tree(seq, arities):
    """(nodes, parent node of the next open slot, number of open slots); the sequence must not over-run."""
    nodes, stack = [], []
    for n, t in enumerate(seq):
        while stack and len(stack[-1].kids) == stack[-1].arity:
            stack.pop()
        par = stack[-1] if stack else None
        if n and par is None:
            raise ValueError('over-run')
        nd = Nd(t, par, int(arities[t]), n)
        nodes.append(nd)
        if par is not None:
            par.kids.append(nd)
        stack.append(nd)
    while stack and len(stack[-1].kids) == stack[-1].arity:
        stack.pop()
    nxt = stack[-1] if stack else None
    open_ = (1 if not nodes else 0) + sum(nd.arity - len(nd.kids) for nd in nodes)
    return nodes, nxt, open_


def next_relations(seq, arities):
    """(parent token or None, sibling token or None, ancestor tokens list, open slots) of the next slot."""
    nodes, p, o = partial_tree(seq, arities)
    anc = []
    q = p
    while q is not None:
        anc.append(q.tok)
        q = q.parent
    return (p.tok if p else None), (p.kids[0].tok if p and p.kids else None), anc, o


def incomplete_prefixes(arities, n):
    """All sequences of length n whose every prefix (including itself) is incomplete."""
    T = len(arities)

    def rec(seq, open_):
        if len(seq) == n:
            yield tuple(seq)
            return
        for t in range(T):
            o = open_ + arities[t] - 1
            if o >= 1:
                yield from rec(seq + [t], o)
    yield from rec([], 1)


def complete_exprs(arities, n):
    """All complete prefix expressions with exactly n tokens."""
    T = len(arities)

    def rec(seq, open_):
        if open_ == 0:
            if len(seq) == n:
                yield tuple(seq)
            return
        if len(seq) >= n or open_ > n - len(seq):
            return
        for t in range(T):
            yield from rec(seq + [t], open_ + arities[t] - 1)
    yield from rec([], 1)


def random_expr(rng, arities, maxlen, leafp=0.4):
    T = len(arities)
    terms = [t for t in range(T) if arities[t] == 0]
    seq, open_ = [], 1
    while open_:
        room = maxlen - len(seq) - open_
        cand = terms if (room < 1 or rng.random() < leafp) else [t for t in range(T) if arities[t] - 1 <= room]
        t = rng.choice(cand)
        seq.append(t)
        open_ += int(arities[t]) - 1
    return tuple(seq)


def random_prefix(rng, arities, n):
    """random incomplete sequence of length n (None when impossible)"""
    seq, open_ = [], 1
    for _ in range(n):
        cand = [t for t in range(len(arities)) if open_ + arities[t] - 1 >= 1]
        if not cand:
            return None
        t = rng.choice(cand)
        seq.append(t)
        open_ += int(arities[t]) - 1
    return tuple(seq)


def arr(seq):
    return np.array([list(seq)], dtype=np.int32)
