"""Relations between what a model's operations compute (C01-C06)."""
from .models import *


def flat(I, y):
    return I.snap(I.call(Ext('numpy.ravel'), [y], {}))


def dot(I, w, psi):
    pc = psi if isinstance(psi, ArrC) else I.snap(psi)
    wc = I.snap(w)
    if pc.ndim != 1:
        raise ShapeError("feature vector has %d dimensions" % pc.ndim)
    return sum_axis_elem(pc.axes[0], lambda k: wc.fn([k]) * pc.fn([k]))


def at_heap(I, heap, f):
    h = I.heap
    I.heap = heap
    try:
        return f()
    finally:
        I.heap = h


class Opaque(Exception):
    """a value the analysis lost track of is needed for an obligation"""


def content(I, v, what):
    if isinstance(v, Num):
        return ArrC([], lambda idx: v.e)
    if not I.is_arr(v):
        why = v.why if isinstance(v, Unk) else type(v).__name__
        raise Opaque("%s: %s" % (what, why))
    return I.snap(v)


class Pots(object):
    """potentials handed to inference: one entry per node type"""

    def __init__(self, W, rec):
        I = self.I = W.I
        self.rec = rec
        heap = rec['#heap']

        def get():
            u, p, e = (rec['unary_potentials'], rec['pairwise_potentials'],
                       rec['edges'])
            if I.is_list(u):
                self.U = [content(I, x, 'unary potentials')
                          for x in self.items(u)]
                self.P = [content(I, x, 'pairwise potentials')
                          for x in self.items(p)]
                self.Ed = [content(I, x, 'edges') for x in self.items(e)]
                self.typed = True
            else:
                self.U = [content(I, u, 'unary potentials')]
                self.P = [content(I, p, 'pairwise potentials')]
                self.Ed = [content(I, e, 'edges')]
                self.typed = False
        at_heap(I, heap, get)

    def items(self, v):
        t, r = self.I.to_items(v)
        if t != 'items':
            raise ShapeError("list of unknown length", False)
        return r

    def pw(self, k, e, a, b):
        P = self.P[k]
        if P.ndim == 2:
            return P.fn([a, b])
        return P.fn([e, a, b])


def discrete_score(W, rec, yv):
    p = Pots(W, rec)
    y = flat(W.I, yv)
    tot = ZERO
    if not p.typed:
        U, Ed = p.U[0], p.Ed[0]
        tot = sum_axis_elem(U.axes[0],
                            lambda n: U.fn([n, y.fn([n])]))
        if Ed.axes[0].size != ZERO:
            tot = tot + sum_axis_elem(
                Ed.axes[0], lambda e: p.pw(
                    0, e, y.fn([Ed.fn([e, ZERO])]), y.fn([Ed.fn([e, ONE])])))
        return tot
    T = W.T
    for t in range(T):
        U = p.U[t]
        tot = tot + sum_axis_elem(
            U.axes[0], lambda n: U.fn(
                [n, y.fn([W.offs[t] + n]) - W.starts[t]]))
    for a in range(T):
        for b in range(T):
            k = a * T + b
            Ed = p.Ed[k]
            if Ed.axes[0].size == ZERO:
                continue
            tot = tot + sum_axis_elem(
                Ed.axes[0], lambda e: p.pw(
                    k, e,
                    y.fn([W.offs[a] + Ed.fn([e, ZERO])]) - W.starts[a],
                    y.fn([W.offs[b] + Ed.fn([e, ONE])]) - W.starts[b]))
    return tot


def relaxed_labels(W, rec, name='q'):
    """a relaxed labelling in the layout the back-ends return, restricted to
    what an optimal labelling can be (two-state simplex, states legal for
    the kind of node)"""
    I = W.I
    p = Pots(W, rec)
    fam = W.cfg.opt('family')
    if not p.typed:
        U, Ed = p.U[0], p.Ed[0]
        S = U.axes[1].size
        pax = [Ed.axes[0], Axis([(S, S)])]
        pm = I.input_arr(name + 'p', pax, owners='y_hat')
        if W.cfg.opt('layout') == 'grid':
            q = I.input_arr(name, [W.R, W.Co, S], owners='y_hat')
        elif fam == 'multilabel':
            def fn(idx):
                q1 = mk_read(name, (idx[0],), None, None, False)
                z = ind_eq(idx[1], 1)
                return z * q1 + (ONE - z) * (ONE - q1)
            q = I.new_arr([U.axes[0], Axis.of(S)], fn, 'float',
                          frozenset(['y_hat']))
        elif fam == 'latentnode':
            def legal(n, s):
                vis = ind_ge0(W.V - 1 - n)
                low = ind_ge0(W.L - 1 - s)
                return vis * low + (ONE - vis) * (ONE - low)
            q = I.new_arr(
                [U.axes[0], Axis.of(S)],
                lambda idx: legal(*idx) * mk_read(name, idx, None, None,
                                                  False),
                'float', frozenset(['y_hat']))
        else:
            q = I.input_arr(name, [U.axes[0], S], owners='y_hat')
        return Tup([q, pm])
    qs, pms = [], []
    for t in range(W.T):
        qs.append(('v', I.input_arr('%s%d' % (name, t),
                                    [W.Ns[t], W.Ss[t]], owners='y_hat')))
    for a in range(W.T):
        for b in range(W.T):
            k = a * W.T + b
            Ed = p.Ed[k]
            pms.append(('v', I.input_arr(
                '%sp%d%d' % (name, a, b),
                [Ed.axes[0], Axis([(W.Ss[a], W.Ss[b])])], owners='y_hat')))
    return Tup([I.alloc(ListC(qs)), I.alloc(ListC(pms))])


def relaxed_score(W, rec, yv):
    I = W.I
    p = Pots(W, rec)
    tot = ZERO
    qs, ps = yv.items
    if not p.typed:
        qs, ps = [qs], [ps]
    else:
        qs, ps = p.items(qs), p.items(ps)
    for t, q in enumerate(qs):
        U, qc = p.U[t], I.snap(q)
        S = U.axes[1].size
        qf = qc if qc.ndim == 2 else I.snap(I.call(
            I.attr(q, 'reshape'), [Num(E(-1)), Num(S)], {}))
        tot = tot + sum_axis_elem(U.axes[0], lambda n: sum_axis_elem(
            U.axes[1], lambda s: qf.fn([n, s]) * U.fn([n, s])))
    for k, pm in enumerate(ps):
        Ed, pc = p.Ed[k], I.snap(pm)
        if Ed.axes[0].size == ZERO:
            continue
        P = p.P[k]
        A, B = P.axes[-2], P.axes[-1]
        tot = tot + sum_axis_elem(Ed.axes[0], lambda e: sum_axis_elem(
            A, lambda a: sum_axis_elem(
                B, lambda b: pc.fn([e, a * B.size + b]) *
                p.pw(k, e, a, b))))
    return tot
