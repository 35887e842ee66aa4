"""C16: latent states belong to the labels they complete."""
import itertools

from .relations import *
from .models import ALL
from .rel import (TRUST, attempt, cls_where, eq_obl, num_of, fake_result,
                  definite_faults, cell)
from .infer import concrete_edges
from .base import Broken, guarded, spread
from ..expr import Valuation, evaluate, Undefined, show

FAM = ('latentgraph', 'latentnode')


def label_of(W, s):
    """label of a state, by the documented layout"""
    out = ZERO
    for l, st in enumerate(W.starts):
        if l:
            out = out + ind_ge0(s - st)
    return out


# -- states and labels ------------------------------------------------------
def ownership(rep, P, c):
    oid = 'states-of-labels:%s' % c.name
    W = World(P, c)
    I = W.I
    x = W.make_x()
    h = W.make_y('h')
    wh = cls_where(W, 'label_from_latent')
    ok, r = attempt(rep, W, oid, wh, 'label_from_latent', h)
    if not ok:
        return
    rc, hc = content(I, r, 'labels'), I.snap(h)
    if c.opt('family') == 'latentnode':
        eq_obl(rep, oid + ':size', wh, rc.axes[0].size, W.V,
               'labels of the visible nodes')
        b = fresh_var(W.V)
        i = atom(b)
        eq_obl(rep, oid, wh, cell(rc, [W.V], [i]), hc.fn([i]),
               'visible nodes carry their label')
    else:
        b = [fresh_var(a.size) for a in hc.axes]
        ix = [atom(z) for z in b]
        eq_obl(rep, oid, wh, cell(rc, hc.shape, ix),
               label_of(W, hc.fn(ix)),
               'a state belongs to the label whose block contains it')
    rep.visited(I.visited)


def losses(rep, P, c):
    oid = 'loss-of-labels:%s' % c.name
    W = World(P, c)
    I = W.I
    W.make_x()
    h, g = W.make_y('h'), W.make_y('g')
    wh = cls_where(W, 'loss')
    ok, l = attempt(rep, W, oid, wh, 'loss', h, g)
    if not ok:
        return
    ok, a = attempt(rep, W, oid, wh, 'label_from_latent', h)
    ok2, b = attempt(rep, W, oid, wh, 'label_from_latent', g)
    if not (ok and ok2):
        return
    ok, m = attempt(rep, W, oid, wh, 'base_loss', a, b)
    if ok:
        eq_obl(rep, oid, wh, num_of(I, l), num_of(I, m),
               'loss of latent states = base loss of their labels')
    rep.visited(I.visited)


# -- the completion problem -----------------------------------------------------
def completed(W, tag, y):
    """latent states consistent with y, otherwise arbitrary"""
    I = W.I
    yc = I.snap(y)
    if W.cfg.opt('family') == 'latentnode':
        off = W.V

        def fn(ix):
            vis = ind_ge0(W.V - 1 - ix[0])
            return vis * yc.fn(ix) + (ONE - vis) * (W.L + mk_read(
                tag, (ix[0] - off,), ZERO, W.Hs, True))
        return I.new_arr([Axis([(W.V,), (W.Hn,)])], fn, 'int')

    def fn(ix):
        out = ZERO
        for l, k in enumerate(W.per):
            out = out + ind_eq(yc.fn(ix), E(l)) * (W.starts[l] + mk_read(
                '%s%d' % (tag, l), tuple(ix), ZERO, k, True))
        return out
    return I.new_arr(yc.axes, fn, 'int')


def labels(W):
    I = W.I
    if W.cfg.opt('layout') == 'grid':
        return I.input_arr('y', [W.R, W.Co], lo=0, hi=W.L, dtype='int',
                           owners='y')
    n = W.V if W.cfg.opt('family') == 'latentnode' else W.N
    return I.input_arr('y', [n], lo=0, hi=W.L, dtype='int', owners='y')


def problem(rep, P, c):
    oid = 'completion-problem:%s' % c.name
    W = World(P, c)
    I = W.I
    x, w = W.make_x(), W.make_w()
    y = labels(W)
    wh = cls_where(W, 'latent')
    W.dispatch_result = fake_result(W, 'hard')
    ok, _ = attempt(rep, W, oid, wh, 'inference', x, w)
    if not ok or not W.rec:
        return
    plain = W.rec[-1]
    n = len(W.rec)
    ok, _ = attempt(rep, W, oid, wh, 'latent', x, y, w)
    if not ok:
        return
    if len(W.rec) != n + 1:
        rep.undecided(oid, 'latent makes %d solver calls' % (
            len(W.rec) - n))
        return
    rec = W.rec[-1]
    h, g = completed(W, 'hs', y), completed(W, 'gs', y)
    d = [discrete_score(W, rec, z) - discrete_score(W, plain, z)
         for z in (h, g)]
    eq_obl(rep, oid, wh, d[0], d[1], 'among the states of the labels, the '
           'completion problem ranks as the model does')
    p0, p1 = Pots(W, plain), Pots(W, rec)
    for a, b, nm in ((p0.P[0], p1.P[0], 'pairwise potentials'),
                     (p0.Ed[0], p1.Ed[0], 'edges')):
        bs = [fresh_var(ax.size) for ax in a.axes]
        ix = [atom(z) for z in bs]
        eq_obl(rep, '%s:%s' % (oid, nm.split()[0]), wh,
               cell(b, a.shape, ix), a.fn(ix), '%s of the model' % nm)
    rep.visited(I.visited)


# -- concrete graphs ---------------------------------------------------------
class Small(World):
    """a latent model with concrete sizes"""

    def __init__(self, P, clsname, per, n, edges, method='ad3'):
        self.per_, self.n_, self.edges_ = per, n, edges
        World.__init__(self, P, [c for c in ALL if c.clsname == clsname][0])

    def build(self):
        I = self.I
        self.S = E(sum(self.per_))
        self.L = E(len(self.per_))
        self.cls = self.p.cls(self.cfg.clsname)
        node = self.cfg.opt('family') == 'latentnode'
        self.node = node
        kw = dict(n_labels=Num(self.L), n_features=Num(E(2)),
                  inference_method=Const('ad3'))
        if node:
            self.L = E(self.per_[0])
            kw['n_labels'] = Num(self.L)
            kw['n_hidden_states'] = Num(E(self.per_[1]))
            if self.cfg.clsname.startswith('Edge'):
                kw['n_edge_features'] = Num(E(1))
        else:
            kw['n_states_per_label'] = I.alloc(ListC(
                [('v', Num(E(k))) for k in self.per_]))
        self.obj = I.instantiate(self.cls, [], kw)
        s = I.get_attr_raw(self.obj, 'size_joint_feature')
        self.D = s.e

    def x(self, tag=''):
        I = self.I
        if self.cfg.opt('layout') == 'grid':
            return I.input_arr('x' + tag, [E(1), E(self.n_), E(2)],
                               owners='x')
        if not self.node:
            return Tup([I.input_arr('x' + tag, [E(self.n_), E(2)],
                                    owners='x'),
                        concrete_edges(I, self.edges_)])
        v, hid = self.n_
        it = [I.input_arr('x' + tag, [E(v), E(2)], owners='x'),
              concrete_edges(I, self.edges_)]
        if self.cfg.clsname.startswith('Edge'):
            it.append(I.input_arr('ef' + tag, [E(len(self.edges_)), E(1)],
                                  owners='x'))
        return Tup(it + [Num(E(hid), 'int')])

    def ints(self, vals, grid=None):
        vals = [E(v) for v in vals]

        def fn(ix):
            i = ix[-1]
            if i.const() is not None:
                return vals[int(i.const())]
            return sum((ind_eq(i, E(k)) * v for k, v in enumerate(vals)),
                       ZERO)
        ax = [Axis.of(len(vals))]
        if (self.cfg.opt('layout') == 'grid') if grid is None else grid:
            ax = [Axis.of(1)] + ax
        return self.I.new_arr(ax, fn, 'int')

    def state(self, k, y):
        return sum(self.per_[:y]) + k


def cells(I, v, n):
    c = content(I, v, 'latent states')
    f = I.snap(I.call(Ext('numpy.ravel'), [v], {}))
    if f.axes[0].size != E(n):
        raise ShapeError('%r latent states instead of %d' % (
            f.axes[0].size, n))
    return [f.fn([E(i)]) for i in range(n)], c


SMALL = [('LatentGraphCRF', (2, 1), 2, [(0, 1)]),
         ('LatentGraphCRF', (1, 2), 2, [(0, 1)]),
         ('LatentGraphCRF', (2, 1, 2), 2, [(1, 0)]),
         ('LatentGraphCRF', (3, 2), 1, []),
         ('LatentGridCRF', (2, 1), 2, None),
         ('LatentDirectionalGridCRF', (1, 2), 2, None)]
NODES = [('LatentNodeCRF', (2, 2), (2, 1), [(0, 2), (1, 2)]),
         ('LatentNodeCRF', (3, 1), (1, 2), [(0, 1), (2, 0)]),
         ('EdgeFeatureLatentNodeCRF', (2, 2), (2, 1), [(0, 2), (1, 2)])]


def solved(vals):
    """the solver's labels; the model gets an array of its own"""
    def result(I, rec):
        vs = [E(v) for v in vals]

        def fn(ix):
            if ix[0].const() is not None:
                return vs[int(ix[0].const())]
            return sum((ind_eq(ix[0], E(k)) * v for k, v in enumerate(vs)),
                       ZERO)
        return I.new_arr([Axis.of(len(vs))], fn, 'int')
    return result


def completions(rep, P, case):
    """whatever the solver answers, the completion belongs to the labels"""
    name, per, n, edges = case
    node = isinstance(n, tuple)
    base = 'completion:%s:%s:%s' % (name, '-'.join(map(str, per)), n)
    W = Small(P, name, per, n, edges)
    I = W.I
    wh = cls_where(W, 'latent')
    x, w = W.x(), W.make_w()
    vis, hid = n if node else (n, 0)
    L = per[0] if node else len(per)
    owner = [l for l, k in enumerate(per) for _ in range(k)]
    rep.rule('completion')
    for y in itertools.product(range(L), repeat=vis):
        for h in itertools.product(range(sum(per)), repeat=vis + hid):
            if node and any(s < L for s in h[vis:]):
                continue
            oid = '%s:y=%s:h=%s' % (base, y, h)

            def one():
                W.dispatch_result = solved(h)
                mark, depth = len(I.events), len(I.stack)
                try:
                    r = W.call('latent', x, W.ints(y), w)
                except RaiseEvent as e:
                    del I.stack[depth:]
                    if node and 'ValueError' in e.what and \
                            tuple(h[:vis]) != y:
                        rep.proved(oid, 'inconsistent solution rejected')
                        return
                    rep.violate(oid, wh, 'completing labels %s fails when '
                                'the solver returns %s: %s' % (y, h, e.what))
                    return
                f = definite_faults(W, mark)
                if f:
                    rep.violate(oid, wh, f[0])
                    return
                got, c = cells(I, r, vis + hid)
                if any(g.const() is None for g in got):
                    rep.undecided(oid, 'states not analysed: %s' % (
                        [show(g, 60) for g in got],))
                    return
                got = [int(g.const()) for g in got]
                if node:
                    bad = tuple(got[:vis]) != y or any(
                        g < L or g >= sum(per) for g in got[vis:])
                    same = tuple(h[:vis]) == y
                else:
                    bad = any(not 0 <= g < sum(per) or owner[g] != l
                              for g, l in zip(got, y))
                    same = all(owner[s] == l for s, l in zip(h, y))
                if bad:
                    rep.violate(oid, wh, 'labels %s are completed to states '
                                '%s of other labels' % (y, got))
                elif same and tuple(got) != h:
                    rep.violate(oid, wh, 'the solver found states %s for '
                                'labels %s but %s is returned' % (
                                    h, y, got))
                elif W.cfg.opt('layout') == 'grid' and c.ndim != 2:
                    rep.violate(oid, wh, 'states are not in the layout of '
                                'the labels')
                else:
                    rep.proved(oid, 'states of the labels')
            guarded(rep, oid, one, wh)
    rep.visited(I.visited)


MODERATE = 20


def forbidden(rep, P, case):
    """for potentials of moderate size the completion problem prefers the
    states of the labels at every visible node"""
    name, per, n, edges = case
    node = isinstance(n, tuple)
    base = 'forbidden:%s:%s:%s' % (name, '-'.join(map(str, per)), n)
    W = Small(P, name, per, n, edges)
    I = W.I
    wh = cls_where(W, 'latent')
    x, w = W.x(), W.make_w()
    vis, hid = n if node else (n, 0)
    L = per[0] if node else len(per)
    owner = list(range(L)) + [None] * per[1] if node else \
        [l for l, k in enumerate(per) for _ in range(k)]
    rep.rule('forbidden')
    for y in itertools.product(range(L), repeat=vis):
        oid = '%s:y=%s' % (base, y)

        def one():
            h = [owner.index(l) for l in y] + [L] * hid
            W.dispatch_result = solved(h)
            k = len(W.rec)
            W.call('inference', x, w)
            W.call('latent', x, W.ints(y), w)
            if len(W.rec) != k + 2:
                rep.undecided(oid, 'other solver calls')
                return
            p0, p1 = Pots(W, W.rec[k]).U[0], Pots(W, W.rec[k + 1]).U[0]
            S = sum(per)
            n_, seen = 0, 0
            for seed in range(12):
                v = Valuation(seed)
                v.grid = (-2, -1, 0, 1, 2, 3)
                try:
                    a, b = [[[evaluate(p.fn([E(i), E(s)]), v)
                              for s in range(S)] for i in range(vis)]
                            for p in (p0, p1)]
                except Undefined as e:
                    n_ += 1
                    continue
                legal = [a[i][s] for i in range(vis) for s in range(S)
                         if owner[s] is not None]
                if any(abs(t) > MODERATE for t in legal):
                    continue
                seen += 1
                for i in range(vis):
                    ok = [b[i][s] for s in range(S) if owner[s] == y[i]]
                    no = [b[i][s] for s in range(S) if owner[s] != y[i]]
                    if no and max(no) >= min(ok):
                        rep.violate(oid, wh, 'a state of another label is '
                                    'not less attractive than one of label '
                                    '%d at node %d (%s against %s)' % (
                                        y[i], i, max(no), min(ok)))
                        return
            if seen:
                rep.consistent(oid, 'states of other labels are unattractive')
            else:
                rep.undecided(oid, 'no potentials of moderate size (%d '
                              'undefined)' % n_)
        guarded(rep, oid, one, wh)
    rep.visited(I.visited)


INIT = [('LatentGraphCRF', (2, 1), [[0, 1], [1, 0]], [(0, 1)]),
        ('LatentGraphCRF', (2, 2, 1), [[1, 2], [0, 1]], [(0, 1)]),
        ('LatentGraphCRF', (1, 2), [[1, 1], [1, 1]], [(1, 0)]),
        ('LatentGraphCRF', (2, 2, 2), [[2, 0], [2, 2]], [(1, 0)]),
        ('LatentGridCRF', (2, 3), [[0, 1], [1, 1]], None),
        ('LatentDirectionalGridCRF', (3, 2), [[0, 1], [1, 0]], None),
        ('LatentNodeCRF', (2, 2), [[0, 1], [1, 1]], [(0, 2), (1, 2)]),
        ('EdgeFeatureLatentNodeCRF', (2, 3), [[0, 1], [1, 1]],
         [(0, 2), (1, 2)])]


def initial(rep, P, case):
    name, per, Y, edges = case
    node = 'Node' in name
    oid = 'initial:%s:%s:%s' % (name, '-'.join(map(str, per)), Y)
    n = len(Y[0])
    W = Small(P, name, per, (n, 1) if node else n, edges)
    I = W.I
    wh = cls_where(W, 'init_latent')
    rep.rule('initial')
    grid = W.cfg.opt('layout') == 'grid'
    if grid:
        X = I.input_arr('x', [E(len(Y)), E(1), E(n), E(2)], owners='x')
        flat_ = [v for y in Y for v in y]

        def fn(ix):
            k = ix[0] * n + ix[2]
            if k.const() is not None:
                return E(flat_[int(k.const())])
            return sum((ind_eq(k, E(i)) * v for i, v in enumerate(flat_)),
                       ZERO)
        Yv = I.new_arr([Axis.of(len(Y)), Axis.of(1), Axis.of(n)], fn, 'int')
    else:
        X = I.alloc(ListC([('v', W.x(str(i))) for i in range(len(Y))]))
        Yv = I.alloc(ListC([('v', W.ints(y)) for y in Y]))
    ok, H = attempt(rep, W, oid, wh, 'init_latent', X, Yv)
    rep.visited(I.visited)
    if not ok:
        return
    it = I.to_items(H)
    if it is None or (it[0] == 'seq' and it[1].n.const() is None):
        rep.undecided(oid, 'initial states not analysed')
        return
    hs = it[1] if it[0] == 'items' else [
        it[1].item(E(i)) for i in range(int(it[1].n.const()))]
    if len(hs) != len(Y):
        rep.violate(oid, wh, 'initial states for %d samples instead of %d' % (
            len(hs), len(Y)))
        return
    tot = n + (1 if node else 0)
    starts = [sum(per[:l]) for l in range(len(per))]
    for s, (h, y) in enumerate(zip(hs, Y)):
        got, _ = cells(I, h, tot)
        for i, g in enumerate(got):
            o = '%s:%d:%d' % (oid, s, i)
            if node and i < n:
                lo, hi = y[i], y[i]
            elif node:
                lo, hi = per[0], per[0] + per[1] - 1
            else:
                lo, hi = starts[y[i]], starts[y[i]] + per[y[i]] - 1
            if g.poisoned():
                rep.undecided(o, 'state not analysed: %s' % g.poisoned()[0][2]
                              if isinstance(g.poisoned()[0], tuple) else
                              'state not analysed')
                continue
            if prove_nonneg(g - lo) and prove_nonneg(hi - g):
                rep.proved(o, 'initial state of the label')
                continue
            bad = None
            for seed in range(40):
                try:
                    v = evaluate(g, Valuation(seed))
                except Undefined:
                    continue
                if not lo <= v <= hi:
                    bad = v
                    break
            if bad is not None:
                rep.violate(o, wh, 'initial latent state %s for label %s '
                            '(states %d to %d)' % (
                                bad, y[i] if i < n else 'hidden', lo, hi))
            else:
                rep.consistent(o, 'initial state of the label')


def check(rep, P, tier):
    cfgs = [c for c in ALL if c.opt('family') in FAM]
    jobs = []
    for c in cfgs:
        for f in (ownership, losses, problem):
            oid = '%s:%s' % (f.__name__, c.name)
            rep.rule(f.__name__)
            jobs.append((oid, lambda r, f=f, c=c, oid=oid: guarded(
                r, oid, lambda: f(r, P, c))))
    for case in SMALL + NODES:
        for f in (completions, forbidden):
            oid = '%s:%s' % (f.__name__, case)
            jobs.append((oid, lambda r, f=f, case=case, oid=oid: guarded(
                r, oid, lambda: f(r, P, case))))
    for case in INIT:
        oid = 'initial:%s' % (case,)
        jobs.append((oid, lambda r, case=case, oid=oid: guarded(
            r, oid, lambda: initial(r, P, case))))
    spread(rep, jobs)
    return rep.finish('other', TRUST, "State layout, loss and completion "
                      "problem of the latent models in normal form; "
                      "completions and initial states for enumerated small "
                      "labellings and every answer of the solver.",
                      min_obl=60)
