"""C23: max-product inference is exact on chains, trees and forests.

The dispatcher is interpreted with a concrete list of edges and symbolic
potentials for a symbolic number of labels.  The labels it returns are nested
argmax expressions; the score of the labelling is rewritten with
b(argmax_t b(t)) = max_t b(t) until no argmax is left, and the result is
compared with the dynamic program max-sum recursion over the forest, which is
the maximum over all labellings (max distributes over +)."""
import itertools
import random

from ..vals import *
from ..expr import (E, ZERO, ONE, Expr, atom, atom_atoms, subst, mk_fn,
                    mk_key, fresh_var, Key, renorm, evaluate, Valuation,
                    Undefined, show, mk_read, is_unk)
from ..interp import RaiseEvent
from .base import guarded, spread
from .infer import IW, IM, attempt, sym
from .rel import num_of
from .relations import Opaque

TRUST = ["the analyser's model of Python, Cython loops and numpy",
         "max distributes over + (the recursion over the forest is the "
         "maximum over all labellings)", "exact real arithmetic"]


# -- forests --------------------------------------------------------------------
def forests(n):
    """all labelled forests on n nodes, edges as unordered pairs"""
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(n):
        for es in itertools.combinations(pairs, k):
            comp = list(range(n))

            def find(x):
                while comp[x] != x:
                    x = comp[x]
                return x
            ok = True
            for a, b in es:
                a, b = find(a), find(b)
                if a == b:
                    ok = False
                    break
                comp[a] = b
            if ok:
                yield es


def variants(es, every, rnd):
    """orders and orientations of the edges"""
    orient = list(itertools.product((0, 1), repeat=len(es)))
    if not every and len(orient) > 8:
        orient = [orient[0], orient[-1]] + rnd.sample(orient[1:-1], 4)
    seen = set()
    for o in orient:
        e = [tuple(p[::-1]) if f else tuple(p) for p, f in zip(es, o)]
        orders = [list(e), list(e)[::-1]]
        if every:
            orders = [list(q) for q in itertools.permutations(e)][:6]
        else:
            q = list(e)
            rnd.shuffle(q)
            orders.append(q)
        for q in orders:
            if tuple(q) not in seen:
                seen.add(tuple(q))
                yield q


def best_score(W, n, edges, root_of):
    """max over all labellings, as nested maxima"""
    nb = {i: [] for i in range(n)}
    for k, (a, b) in enumerate(edges):
        nb[a].append((k, b, 0))
        nb[b].append((k, a, 1))
    done = set()

    def belief(i, s, parent):
        done.add(i)
        r = W.una(E(i), s)
        for k, j, flip in nb[i]:
            if j == parent:
                continue
            t = fresh_var(W.S)
            p = W.pair(E(k), atom(t), s) if flip else \
                W.pair(E(k), s, atom(t))
            r = r + mk_fn('max', [mk_key([t], p + belief(j, atom(t), i))])
        return r
    tot = ZERO
    for i in root_of:
        if i in done:
            continue
        s = fresh_var(W.S)
        tot = tot + mk_fn('max', [mk_key([s], belief(i, atom(s), None))])
    return tot


# -- rewriting -------------------------------------------------------------------
def is_pick(a):
    return a[0] == 'fn' and a[1] == 'argmax' and isinstance(a[2][0], Key) and \
        len(a[2][0].binders) == 1


def resolve(score):
    """replace b(argmax b) by max b, innermost dependency last"""
    for _ in range(24):
        picks = [a for a in score.atoms() if is_pick(a)]
        if not picks:
            return score
        inner = set()
        for a in picks:
            inner |= {x for x in atom_atoms(a) if x != a and is_pick(x)}
        outer = [a for a in picks if a not in inner]
        progress = False
        for a in outer:
            k = a[2][0]
            at = subst_binder(k, atom(a))
            s2 = score - at + mk_fn('max', [k])
            if a not in s2.atoms():
                score, progress = s2, True
                break
        if not progress:
            return score
    return score


def subst_binder(k, e):
    v = fresh_var(k.binders[0][2])
    elem = subst(k.elem, {k.binders[0]: atom(v)})
    return subst(elem, {v: e})


GRIDS = [(0, 1), (-1, 0, 1), (0, 0, 0, 1), (-10 ** 7, -10 ** 7 + 1),
         (-2, 0, 3), (10 ** 9, 3)]


def separate(a, b, tries):
    """a valuation at which a and b differ; None when there is none among
    the ones looked at, False when they cannot be evaluated"""
    ok = 0
    for s in range(tries):
        v = Valuation('m%d' % s)
        if s % 2:
            v.grid = GRIDS[(s // 2) % len(GRIDS)]
        try:
            x, y = evaluate(a, v), evaluate(b, v)
        except (Undefined, RecursionError):
            continue
        ok += 1
        if x != y:
            return dict(left=str(x), right=str(y), sizes=dict(v.syms),
                        valuation=s)
    return None if ok else False


# -- obligations -----------------------------------------------------------------
def labels(W, r, n):
    I = W.I
    if isinstance(r, Tup):
        return None
    if not I.is_arr(r):
        raise Opaque('labels are not an array: %r' % (r,))
    c = I.snap(r)
    if c.ndim != 1:
        raise Opaque('labels have %d dimensions' % c.ndim)
    return [c.fn([E(i)]) for i in range(n)]


def score_of(W, n, edges, y):
    s = ZERO
    for i in range(n):
        s = s + W.una(E(i), y[i])
    for k, (a, b) in enumerate(edges):
        s = s + W.pair(E(k), y[a], y[b])
    return s


def one(rep, P, n, edges, shared, S=None):
    W = IW(P, 0, shared, sizes=(n, S if S is not None else sym('S', 2)),
           edges=edges)
    W.mark = 0
    oid = 'exact:n%d:%s%s%s' % (n, ','.join('%d%d' % e for e in edges),
                                ':shared' if shared else '',
                                ':S%d' % S if S is not None else '')
    ok, r = attempt(rep, W, oid, lambda: W.run(Const('max-product')))
    if not ok:
        return
    y = labels(W, r, n)
    if y is None:
        rep.violate(oid, W.f.qual, 'something other than labels is returned')
        return
    size = W.I.snap(r).axes[0].size
    if size.const() != n:
        if size.const() is not None:
            rep.violate(oid, W.f.qual, '%s labels for %d nodes' % (
                size.const(), n))
            return
        raise Opaque('number of labels')
    sc = score_of(W, n, edges, y)
    best = best_score(W, n, edges, range(n))
    if sc.poisoned():
        if S is None:
            for k in (2, 3):
                one(rep, P, n, edges, shared, k)
            return
        raise Opaque('labels not analysed: %s' % (sc.poisoned()[0],))
    got = renorm(resolve(sc))
    if not any(is_pick(a) for a in got.atoms()):
        for root in range(n):
            order = [root] + [i for i in range(n) if i != root]
            if got == renorm(best_score(W, n, edges, order)):
                rep.proved(oid, 'score of the labelling = maximum')
                return
        for perm in itertools.permutations(range(n)):
            if got == renorm(best_score(W, n, edges, perm)):
                rep.proved(oid, 'score of the labelling = maximum')
                return
    d = separate(sc, best, 40)
    if d:
        rep.violate(oid, W.f.qual, 'the labelling scores %s, the best one '
                    '%s' % (d['left'], d['right']),
                    dict(edges=edges, at=d, score=show(sc, 3000)))
    elif d is None:
        rep.consistent(oid, 'score of the labelling = maximum')
    else:
        raise Opaque('labels cannot be evaluated')


def loopy(rep, P, n, edges):
    """on graphs with cycles the result is still one label per node"""
    W = IW(P, 0, False, sizes=(n, sym('S', 2)), edges=edges)
    W.mark = 0
    oid = 'cycle:n%d:%s' % (n, ','.join('%d%d' % e for e in edges))
    opts = W.I.alloc(DictC({('c', 'max_iter'): Num(sym('K', 1), 'int')}))
    ok, r = attempt(rep, W, oid, lambda: W.run(Tup([Const('max-product'),
                                                    opts])))
    if not ok:
        return
    if not W.I.is_arr(r):
        raise Opaque('labels are not an array')
    c = W.I.snap(r)
    if c.ndim != 1 or c.axes[0].size.const() not in (None, n):
        rep.violate(oid, W.f.qual, 'not one label per node')
        return
    rep.proved(oid, 'one label per node')


def check(rep, P, tier):
    rnd = random.Random(5)
    jobs = []

    def add(oid, f, *a):
        jobs.append((oid, lambda rp: guarded(
            rp, oid, lambda: f(rp, P, *a), IM)))
    deep = tier == 'thorough'
    rep.rule('the labelling reaches the maximum')
    for n in (1, 2, 3, 4):
        for es in forests(n):
            for edges in variants(es, deep, rnd):
                for shared in (False, True):
                    add('exact:n%d:%s%s' % (
                        n, ','.join('%d%d' % e for e in edges),
                        ':shared' if shared else ''), one, n, edges, shared)
    five = [[(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 1), (0, 2), (0, 3), (0, 4)],
            [(1, 0), (1, 2), (3, 1), (4, 3)], [(4, 3), (3, 2), (2, 1), (1, 0)],
            [(0, 1), (3, 4)], [(2, 0), (2, 4), (4, 3)],
            [(4, 0), (4, 1), (2, 4), (3, 4)], [(1, 3), (0, 1), (1, 4), (2, 1)],
            [(3, 1), (0, 2), (4, 2)], [(2, 4), (0, 4)], [(1, 2), (2, 3), (3, 0)]]
    trees = [e for e in forests(5)]
    five += [list(e) for e in (trees if deep else rnd.sample(trees, 40))]
    for edges in five:
        add('exact:n5:%s' % ','.join('%d%d' % e for e in edges), one, 5,
            edges, False)
    rep.rule('graphs with cycles')
    for n, edges in ((3, [(0, 1), (1, 2), (2, 0)]), (2, [(0, 1), (0, 1)]),
                     (4, [(0, 1), (1, 2), (2, 3), (3, 0)]),
                     (4, [(0, 1), (1, 0), (2, 3)]),
                     (4, [(0, 1), (1, 2), (2, 0)]),
                     (5, [(3, 4), (0, 1), (1, 2), (0, 2)]),
                     (3, [(1, 2), (2, 1)]), (3, [(0, 1), (0, 1), (1, 2)])):
        add('cycle:n%d:%s' % (n, ','.join('%d%d' % e for e in edges)),
            loopy, n, edges)
    spread(rep, jobs)
    return rep.finish('proof', TRUST, "For every labelled forest on up to "
                      "four nodes (orders and orientations of the edges, "
                      "shared or separate pairwise potentials) max-product "
                      "inference is interpreted with symbolic potentials "
                      "and a symbolic number of labels; the score of the "
                      "returned labelling is rewritten to nested maxima and "
                      "compared with the maximum over all labellings.",
                      min_obl=40)
