"""C21: grids, chains, compressed matrices, grouped labels, exhaustive search.

Finite shapes are enumerated (the analyser evaluates index arithmetic on
constants); entries of matrices, labels and the model's features stay
symbolic."""
import itertools

from .lw import *
from .rel import eq_obl, num_of, definite_faults
from .base import Broken, guarded, helper
from .maxprod import separate
from .infer import concrete_edges
from ..expr import show

TRUST = ["the analyser's model of numpy",
         "the model's features, loss and weights are uninterpreted"]
U = 'pystruct.utils'


def world(P):
    PARTS.clear()
    I = Interp(P, {}, {})
    I.unroll = 64
    return I


def call(rep, I, oid, f, args, kw=None, expect=None):
    mark = len(I.events)
    try:
        r = I.call_func(f, list(args), kw or {})
    except RaiseEvent as e:
        if expect:
            rep.proved(oid, 'rejected')
            return None
        rep.violate(oid, f.qual, 'fails on valid input: %s' % e.what)
        return None
    rep.visited(I.visited)
    if expect:
        if I.gap_notes:
            raise Opaque('not fully analysed')
        rep.violate(oid, f.qual, 'does not raise %s' % expect)
        return None
    for e in I.events[mark:]:
        if e['kind'] == 'raise' and e['guard'].const() == 1:
            raise Opaque('raises')
    return r


def rows(I, v):
    """concrete rows of an array or list of arrays"""
    if I.is_list(v) or isinstance(v, Tup):
        it = I.to_items(v)
        if it is None or it[0] != 'items':
            raise Opaque('list of arrays')
        return [rows(I, x) for x in it[1]]
    if not I.is_arr(v):
        raise Opaque('array expected, got %r' % (v,))
    c = I.snap(v)
    dims = [a.size.const() for a in c.axes]
    if None in dims:
        raise Opaque('size not decided')

    def rec(pre, k):
        if k == len(dims):
            x = c.fn([E(i) for i in pre])
            q = x.const()
            if q is None:
                raise Opaque('entry not constant: %s' % show(x, 120))
            return int(q) if q == int(q) else q
        return [rec(pre + [i], k + 1) for i in range(int(dims[k]))]
    return rec([], 0)


def find(P, mod, name):
    f = P.func(mod, name)
    if f is None:
        raise Broken('%s.%s is gone' % (mod, name))
    return f


DIRS = {'right': (0, 1), 'down': (1, 0), 'upright': (-1, 1),
        'downright': (1, 1)}


def want_edges(R, C, nb):
    out = []
    for d in ('right', 'down') + (('upright', 'downright') if nb == 8 else ()):
        dr, dc = DIRS[d]
        out.append({(r * C + c, (r + dr) * C + c + dc) for r in range(R)
                    for c in range(C)
                    if 0 <= r + dr < R and 0 <= c + dc < C})
    return out


def grids(rep, P, tier):
    f = find(P, U + '.graph', 'make_grid_edges')
    g = find(P, U + '.graph', 'edge_list_to_features')
    rep.rule('grid edges')
    top = 4 if tier == 'quick' else 7
    for R, C in itertools.product(range(1, top + 1), repeat=2):
        for nb in (4, 8):
            for ndim in (3, 2):
                oid = 'grid-edges:%dx%d:%d:%dd' % (R, C, nb, ndim)

                def one():
                    I = world(P)
                    dims = [E(R), E(C)] + ([sym('F', 1)] if ndim == 3 else [])
                    x = I.input_arr('x', dims, owners='x')
                    kw = {'neighborhood': Num(E(nb), 'int')}
                    r = call(rep, I, oid, f, [x], dict(kw, return_lists=Const(
                        True)))
                    flat_ = call(rep, I, oid, f, [x], kw)
                    if r is None or flat_ is None:
                        return
                    ls, fl = rows(I, r), rows(I, flat_)
                    want = want_edges(R, C, nb)
                    bad = None
                    if len(ls) != len(want):
                        bad = '%d directions instead of %d' % (
                            len(ls), len(want))
                    else:
                        for k, (a, b) in enumerate(zip(ls, want)):
                            t = [tuple(e) for e in a]
                            if len(set(t)) != len(t) or set(t) != b:
                                bad = 'direction %d has edges %s, expected ' \
                                    '%s' % (k, sorted(t)[:8], sorted(b)[:8])
                                break
                    if bad is None and [e for a in ls for e in a] != fl:
                        bad = 'the flat edges are not the directions in order'
                    if bad:
                        rep.violate(oid, f.qual, bad)
                        return
                    rep.proved(oid, 'exactly the neighbouring cells')
                    q = call(rep, I, oid + ':features', g, [r])
                    if q is None:
                        return
                    ft = rows(I, q)
                    wf = [[int(j == k) for j in range(len(ls))]
                          for k, a in enumerate(ls) for _ in a]
                    if ft != wf:
                        rep.violate(oid + ':features', g.qual, 'edge features '
                                    'do not mark the direction of each edge')
                    else:
                        rep.proved(oid + ':features', 'one-hot directions')
                guarded(rep, oid, one, f.qual)
    for nb in (2, 5, 6):
        oid = 'grid-edges:neighborhood%d' % nb

        def bad():
            I = world(P)
            x = I.input_arr('x', [E(3), E(3), E(2)])
            call(rep, I, oid, f, [x], {'neighborhood': Num(E(nb), 'int')},
                 'ValueError')
        guarded(rep, oid, bad, f.qual)


def chains(rep, P, tier):
    rep.rule('chain edges')
    cls = P.cls('ChainCRF')
    f = cls.find('_get_edges') if cls else None
    m = P.func('pystruct.models.chain_crf', 'make_chain_edges')
    if m is None:
        rep.gone += 1
        rep.undecided('chain-edges', 'make_chain_edges is gone')
        return
    for n in range(1, 7 if tier == 'quick' else 12):
        oid = 'chain-edges:%d' % n

        def one():
            I = world(P)
            x = I.input_arr('x', [E(n), sym('F', 1)])
            r = call(rep, I, oid, m, [x])
            if r is None:
                return
            got = rows(I, r)
            if got == [[k, k + 1] for k in range(n - 1)]:
                rep.proved(oid, 'consecutive nodes')
            else:
                rep.violate(oid, m.qual, 'edges %s for a chain of %d nodes'
                            % (got, n))
        guarded(rep, oid, one, m.qual)

    def any_n():
        I = world(P)
        n = sym('N', 2)
        r = call(rep, I, 'chain-edges:all', m, [I.input_arr('x', [n, sym(
            'F', 1)])])
        if r is None or not I.is_arr(r):
            raise Opaque('no array')
        c = I.snap(r)
        k = fresh_var(n - 1)
        for j in (0, 1):
            eq_obl(rep, 'chain-edges:all:%d' % j, m.qual,
                   c.fn([atom(k), E(j)]), atom(k) + j,
                   'edge k links nodes k and k+1')
        eq_obl(rep, 'chain-edges:all:size', m.qual, c.axes[0].size, n - 1,
               'one edge less than nodes')
    guarded(rep, 'chain-edges:all', any_n, m.qual)


def acyclic(n, es):
    r = list(range(n))
    for a, b in es:
        while r[a] != a:
            a = r[a]
        while r[b] != b:
            b = r[b]
        if a == b:
            return False
        r[a] = b
    return True


def forests(rep, P, tier):
    rep.rule('forest test')
    f = P.func(U + '.graph_functions', 'is_forest')
    if f is None:
        rep.gone += 1
        rep.undecided('forest', 'is_forest is gone')
        return
    cases = []
    for n in (2, 3, 4):
        prs = list(itertools.combinations(range(n), 2))
        for k in range(1, len(prs) + 1):
            for es in itertools.combinations(prs, k):
                cases.append((n, list(es)))
                cases.append((n, [e[::-1] for e in es][::-1]))
    cases += [(3, [(0, 1), (0, 1)]), (3, [(0, 1), (1, 0)]),
              (4, [(2, 3), (0, 1), (3, 2)]), (3, [(1, 1)]),
              (5, [(4, 3), (0, 3), (3, 1), (2, 1)]),
              (6, [(0, 1), (2, 3), (3, 4), (4, 2)]),
              (6, [(5, 4), (3, 4), (0, 1), (5, 3)]),
              (6, [(5, 0), (1, 4), (4, 2), (3, 2), (3, 1)])]
    for n, es in cases:
        for known in (True, False):
            if not known and n != max(max(e) for e in es) + 1:
                continue
            oid = 'forest:%d:%s%s' % (n, es, '' if known else ':n unknown')

            def one():
                I = world(P)
                e = concrete_edges(I, es)
                r = call(rep, I, oid, f, [e] + ([Num(E(n), 'int')]
                                                if known else []))
                got = r.v if isinstance(r, Const) else \
                    r.e.const() if isinstance(r, Num) else None
                if got is None:
                    raise Opaque('not decided')
                if bool(got) == acyclic(n, es):
                    rep.proved(oid, 'forest or not')
                else:
                    rep.violate(oid, f.qual, 'says %s for %d nodes and edges '
                                '%s' % (bool(got), n, es))
            guarded(rep, oid, one, f.qual)


def symmetric(rep, P, tier):
    rep.rule('compressed symmetric matrices')
    ex, co = find(P, U + '.inference', 'expand_sym'), \
        find(P, U + '.inference', 'compress_sym')
    for n in range(1, 5 if tier == 'quick' else 7):
        def one():
            I = world(P)
            L = n * (n + 1) // 2
            v = I.input_arr('v', [E(L)], owners='v')
            r = call(rep, I, 'expand:%d' % n, ex, [v])
            if r is None:
                return
            c = I.snap(r)
            if None in [a.size.const() for a in c.axes]:
                raise Opaque('shape not decided')
            if [a.size.const() for a in c.axes] != [n, n]:
                rep.violate('expand:%d' % n, ex.qual, 'expanded to shape %s'
                            % [a.size.const() for a in c.axes])
                return
            # round trip and symmetry
            back = call(rep, I, 'compress:%d' % n, co, [r],
                        {'make_symmetric': Const(False)})
            if back is None:
                return
            b = I.snap(back)
            for k in range(L):
                eq_obl(rep, 'compress(expand):%d:%d' % (n, k), co.qual,
                       b.fn([E(k)]), mk_read('v', (E(k),), None, None, False),
                       'compressing an expanded vector gives it back')
            for i in range(n):
                for j in range(i):
                    eq_obl(rep, 'expand:%d:symmetric:%d,%d' % (n, i, j),
                           ex.qual, c.fn([E(i), E(j)]), c.fn([E(j), E(i)]),
                           'expanded matrix is symmetric')
            M = I.input_arr('M', [E(n), E(n)], owners='M')
            s = call(rep, I, 'compress:%d:sym' % n, co, [M])
            if s is None:
                return
            e2 = call(rep, I, 'expand:%d:sym' % n, ex, [s])
            if e2 is None:
                return
            q = I.snap(e2)

            def m(i, j):
                return mk_read('M', (E(i), E(j)), None, None, False)
            for i in range(n):
                for j in range(n):
                    eq_obl(rep, 'symmetrise:%d:%d,%d' % (n, i, j), co.qual,
                           q.fn([E(i), E(j)]),
                           m(i, i) if i == j else m(i, j) + m(j, i),
                           'entries of both triangles add up')
        guarded(rep, 'expand:%d' % n, one, ex.qual)


def grouped(rep, P, tier):
    """flattenY and unflattenY of typed models"""
    rep.rule('labels grouped by node type')
    from .models import TYPED
    for c in TYPED:
        oid = 'flattenY:%s' % c.name

        def one():
            W = World(P, c)
            I = W.I
            f = W.cls.find('flattenY')
            g = W.cls.find('unflattenY')
            if f is None or g is None:
                raise Broken('flattenY is gone')
            T = len(W.Ss)
            N = [sym('N%d' % t, 1) for t in range(T)]
            ys = [I.input_arr('y%d' % t, [N[t]], lo=0, hi=W.Ss[t],
                              dtype='int', owners='y') for t in range(T)]
            r = call(rep, I, oid, f, [W.obj, mk_list(I, ys)])
            if r is None:
                return
            a = I.snap(r)
            tot, off = ZERO, ZERO
            for t in range(T):
                v = fresh_var(N[t])
                eq_obl(rep, oid + ':%d' % t, f.qual, a.fn([tot + atom(v)]),
                       mk_read('y%d' % t, (atom(v),), ZERO, W.Ss[t], True)
                       + off, 'label = label within the type + states of '
                       'earlier types')
                tot = tot + N[t]
                off = off + W.Ss[t]
            if not (a.axes[0].size - tot).is_zero():
                rep.violate(oid, f.qual, 'flattened labels have length %s' %
                            show(a.axes[0].size, 80))
            nf = mk_list(I, [I.input_arr('f%d' % t, [N[t], sym('F%d' % t, 1)])
                             for t in range(T)])
            X = Tup([nf, mk_list(I, []), mk_list(I, [])])
            back = call(rep, I, oid + ':back', g, [W.obj, X, r])
            if back is None:
                return
            it = I.to_items(back)
            if it is None or it[0] != 'items' or len(it[1]) != T:
                raise Opaque('grouped labels')
            for t in range(T):
                v = fresh_var(N[t])
                q = I.snap(it[1][t])
                eq_obl(rep, oid + ':back:%d' % t, g.qual, q.fn([atom(v)]),
                       mk_read('y%d' % t, (atom(v),), ZERO, W.Ss[t], True),
                       'grouping flattened labels gives them back')
                eq_obl(rep, oid + ':back:%d:size' % t, g.qual,
                       q.axes[0].size, N[t], 'one label per node')
        guarded(rep, oid, one, '-')


# -- exhaustive search ------------------------------------------------------------
def exhaustive(rep, P, tier):
    rep.rule('exhaustive search')
    for name, aug in (('exhaustive_inference', False),
                      ('exhaustive_loss_augmented_inference', True)):
        f = find(P, U + '.inference', name)
        for S, n in ((2, 1), (2, 2), (3, 1), (3, 2), (2, 3)):
            if S ** n > 9:
                continue
            oid = '%s:S%d:n%d' % (name, S, n)

            def one():
                I = world(P)
                I.unroll = 64
                D = sym('D', 1)
                o = I.new_obj(None, {})
                I.set_attr(o, 'n_states', Num(E(S), 'int'))

                def lab(I, v):
                    c = I.snap(v)
                    if [a.size.const() for a in c.axes] != [n]:
                        raise Opaque('labelling of another shape')
                    t = [c.fn([E(i)]).const() for i in range(n)]
                    if None in t:
                        raise Opaque('labelling not constant')
                    return tuple(int(q) for q in t)

                def jf(I, a, k):
                    t = lab(I, a[1])
                    return I.input_arr('jf%s' % (t,), [D])

                def loss(I, a, k):
                    t = lab(I, a[1])
                    return Num(mk_read('loss%s' % (t,), (), ZERO, None,
                                       False), 'float')
                I.set_attr(o, 'joint_feature', ModelFn(jf, 'joint_feature'))
                I.set_attr(o, 'loss', ModelFn(loss, 'loss'))
                x = I.input_arr('x', [E(n), sym('F', 1)])
                w = I.input_arr('w', [D])
                y = I.input_arr('y', [E(n)], lo=0, hi=E(S), dtype='int')
                r = call(rep, I, oid, f, [o, x, y, w] if aug else [o, x, w])
                if r is None:
                    return
                if not I.is_arr(r):
                    raise Opaque('no labelling: %r' % (r,))
                c = I.snap(r)
                ys = [c.fn([E(i)]) for i in range(n)]
                sc, best = ZERO, None
                for t in itertools.product(range(S), repeat=n):
                    v = fresh_var(D)
                    s = mk_sum(v, mk_read('w', (atom(v),), None, None, False)
                               * mk_read('jf%s' % (t,), (atom(v),), None,
                                         None, False))
                    if aug:
                        s = s + mk_read('loss%s' % (t,), (), ZERO, None,
                                        False)
                    g = ONE
                    for a, b in zip(ys, t):
                        g = g * ind_eq(a, E(b))
                    sc = sc + g * s
                    best = s if best is None else mk_fn('max2', [best, s])
                d = separate(sc, best, 40)
                if d:
                    rep.violate(oid, f.qual, 'the labelling reaches %s, the '
                                'best one %s' % (d['left'], d['right']),
                                dict(at=d))
                elif d is None:
                    rep.consistent(oid, 'best of all labellings')
                else:
                    raise Opaque('not evaluable')
            guarded(rep, oid, one, f.qual)


def check(rep, P, tier):
    grids(rep, P, tier)
    chains(rep, P, tier)
    forests(rep, P, tier)
    symmetric(rep, P, tier)
    grouped(rep, P, tier)
    exhaustive(rep, P, tier)
    return rep.finish('other', TRUST, "Edge lists, direction features, "
                      "compressed matrices, grouped labels and exhaustive "
                      "search are interpreted for every listed shape with "
                      "symbolic entries and compared with their definition.",
                      min_obl=60)
