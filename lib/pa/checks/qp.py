"""C12: the quadratic programs of the cutting-plane learners."""
from fractions import Fraction
from .lw import *
from .rel import TRUST, eq_obl, eq_arr, num_of, definite_faults
from .base import helper, guarded, Shape
from .margin import call_guard
from ..vals import ListC

SHAPES = [(2, 1), (1, 0, 2), (3,), (0, 2)]


def carr(I, vals, column=False):
    vs = [E(v) for v in vals]

    def fn(idx):
        c = idx[0].const()
        if c is not None and 0 <= c < len(vs):
            return vs[int(c)]
        r = ZERO
        for i, v in enumerate(vs):
            r = r + v * ind_eq(idx[0], E(i))
        return r
    return I.new_arr([Axis.of(len(vs))] + ([Axis.of(1)] if column else []),
                     fn)


def mk_constraint(W, i, k, kind):
    I = W.I
    d = I.input_arr('dpsi%d_%d' % (i, k), [W.D], owners='constraints')
    l = Num(atom(('fn', 'h:loss%d_%d' % (i, k), ())), 'float')
    if kind == 'n':
        y = I.input_arr('yh%d_%d' % (i, k), [W.m], owners='constraints')
        return mk_list(I, [y, d, l]), d, l
    return Tup([d, l]), d, l


def n_slack(rep, P):
    cls = P.cls('NSlackSSVM')
    f = helper(rep, '_solve_n_slack_qp', cls, '_solve_n_slack_qp',
               ['self', 'constraints', 'n_samples'])
    if f is None:
        return
    for neg in (None, 2):
        for shape in SHAPES:
            for mode in ('ok', 'retry', 'retry2', 'pruned',
                         'error'):
                oid = 'n-slack:%s:%s%s' % ('x'.join(map(str, shape)), mode,
                                           ':negativity' if neg else '')
                guarded(rep, oid, lambda: one_n(rep, P, f, oid, shape, neg,
                                                mode), f.qual)


class StatusLW(LW):
    """the solver reports the given statuses in turn"""
    statuses = ()
    alpha = None

    def _qp(self, I, args, kw):
        k = len(self.qps)
        st = self.statuses[k] if k < len(self.statuses) else 'optimal'
        if st == 'ValueError':
            self.qps.append(None)
            raise RaiseEvent('ValueError: singular KKT matrix')
        r = LW._qp(self, I, args, kw)
        I.c(r).items[('c', 'status')] = Const(st)
        if self.alpha is not None:
            I.c(r).items[('c', 'x')] = carr(I, self.alpha, True)
        return r


def world(P, cls, neg, mode):
    params = dict(C=pos('C'), inactive_window=0,
                  inactive_threshold=real('ithr'))
    if mode == 'pruned':
        params.update(inactive_window=1, inactive_threshold=1e-5)
    W = StatusLW(P, cls, params)
    W.statuses = {'ok': ('optimal',), 'retry': ('unknown', 'optimal'),
                  'retry2': ('ValueError', 'optimal'), 'pruned': ('optimal',),
                  'error': ('unknown', 'unknown')}[mode]
    if neg:
        W.neg = mk_list(W.I, [Num(sym('neg0', 0), 'int'),
                              Num(sym('neg1', 0), 'int')])
        W.I.set_attr(W.obj, 'negativity_constraint', W.neg)
    return W


def one_n(rep, P, f, oid, shape, neg, mode):
    W = world(P, 'NSlackSSVM', neg, mode)
    I = W.I
    rows, ds, ls = [], [], []
    for i, n in enumerate(shape):
        r = []
        for k in range(n):
            c, d, l = mk_constraint(W, i, k, 'n')
            r.append(c)
            ds.append((i, I.snap(d)))
            ls.append(num_of(I, l))
        rows.append(mk_list(I, r))
    cons = mk_list(I, rows)
    run_qp(rep, W, oid, f, '_solve_n_slack_qp', cons, mode, ds, ls,
           len(shape), neg, False)


def run_qp(rep, W, oid, f, meth, cons, mode, ds, ls, ns, neg, oneslack):
    I = W.I
    if mode == 'pruned':
        Cv = num_of(I, I.get_attr_raw(W.obj, 'C'))
        W.alpha = [ZERO if k == 0 else Cv * Fraction(1, k + 1)
                   for k in range(len(ds))]
        if oneslack:
            I.set_attr(W.obj, 'alphas', mk_list(I, [mk_list(
                I, [Num(ZERO, 'float')]) for _ in range(len(ds) - 1)]))
            if len(ds) < 2:
                return
        else:
            I.set_attr(W.obj, 'last_active', mk_list(I, [carr(
                I, [ONE] * (sum(1 for d in ds if d[0] == s) - 1))
                if any(d[0] == s for d in ds) else mk_list(I, [])
                for s in range(ns)]))
    mark = len(I.events)
    n_s = Num(E(ns), 'int') if not oneslack else Num(W.n, 'int')
    try:
        r = W.call(meth, cons, n_s)
    except RaiseEvent as e:
        if mode == 'error':
            rep.rule('solver-failure-raises')
            rep.proved(oid, 'raises when the solver fails')
            return
        if 'AttributeError' in e.what:
            raise Opaque('internal state is named differently: ' + e.what)
        rep.violate(oid, f.qual, 'fails on valid input: %s (line %s)' % (
            e.what, getattr(e.node, 'lineno', '?')))
        return
    rep.visited(I.visited)
    if mode == 'error':
        rep.violate(oid, f.qual, 'a failed solve is accepted: the weights '
                    'are taken from a non-optimal solution')
        return
    fl = definite_faults(W, mark)
    if fl and 'attribute' in fl[0].lower():
        raise Opaque('internal state is named differently')
    if fl:
        rep.violate(oid, f.qual, 'fails on valid input: %s' % fl[0])
        return
    if not W.qps:
        raise Opaque('no quadratic program reached the solver')
    rec = W.qps[-1]
    K = len(ds)
    C = num_of(I, I.get_attr_raw(W.obj, 'C'))

    def at(a, *idx):
        return rec[a].fn([E(i) for i in idx])

    def el(a, idx, want, what):
        eq_obl(rep, '%s:%s[%s]' % (oid, a, ','.join(map(str, idx))), f.qual,
               at(a, *idx), want, what)
    for nm in 'PqGh':
        if not isinstance(rec.get(nm), ArrC):
            raise Opaque('argument %s of the solver is opaque' % nm)
    u = fresh_var(W.D)

    def gram(i, j):
        return sum_over([u], ds[i][1].fn([atom(u)]) * ds[j][1].fn([atom(u)]))
    rep.rule('dual-program')
    for i in range(K):
        el('q', (i,), -ls[i], 'linear term = minus the losses')
        for j in range(K):
            w = gram(i, j)
            if mode != 'ok' and i == j:
                got = at('P', i, j)
                reg = got - w
                cv = reg.const()
                if cv is not None and 0 <= cv <= 1e-4:
                    rep.proved('%s:P[%d,%d]' % (oid, i, j))
                    continue
            el('P', (i, j), w, 'quadratic term = Gram matrix')
    nrow = K + (0 if oneslack else ns) + (2 if neg else 0)
    if size_differs(rec['G'].axes[0].size, E(nrow)) or \
            size_differs(rec['h'].axes[0].size, E(nrow)):
        raise Shape('wrong number of inequality constraints')
    r0 = 0
    for i in range(K):
        for j in range(K):
            el('G', (i, j), E(-1 if i == j else 0), 'alpha >= 0')
        el('h', (i,), ZERO, 'alpha >= 0')
    r0 = K
    if not oneslack:
        for s in range(ns):
            for j in range(K):
                el('G', (r0 + s, j), E(1 if ds[j][0] == s else 0),
                   'the alphas of one sample')
            el('h', (r0 + s,), C, 'sum to at most C')
        r0 += ns
    if neg:
        for t in range(2):
            for j in range(K):
                el('G', (r0 + t, j), ds[j][1].fn([sym('neg%d' % t, 0)]),
                   'sign-constrained weights')
            el('h', (r0 + t,), ZERO, 'sign-constrained weights')
    if oneslack:
        for nm in 'Ab':
            if rec.get(nm) is None:
                rep.violate(oid + ':' + nm, f.qual,
                            'equality constraint not passed to the solver')
                return
        for j in range(K):
            el('A', (0, j), ONE, 'sum of alphas')
        b = rec['b']
        if isinstance(b, ArrC):
            got = b.fn([ZERO])
        else:
            got = num_of(I, I.seq_item(b, ZERO))
        eq_obl(rep, oid + ':b', f.qual, got, C * W.n,
               'alphas sum to n_samples * C')
    # the solution
    names = ['P', 'q', 'G', 'h', 'A', 'b']
    key = [arr_key(v) if isinstance(v, ArrC) else 'none'
           for v in [rec.get(x) for x in names]]
    eq_obl(rep, oid + ':value', f.qual, num_of(I, r),
           -mk_fn('h:qpobj', key), 'returns minus the solver objective')
    wv = I.snap(I.get_attr_raw(W.obj, 'w'))
    k = sym('i0', 0)
    want = ZERO
    for i in range(K):
        al = mk_fn('h:qpx', key + [E(i)]) if W.alpha is None else W.alpha[i]
        want = want + al * ds[i][1].fn([k])
    eq_obl(rep, oid + ':w', f.qual, wv.fn([k]), want,
           'weights = sum of alpha * feature difference')


def one_slack(rep, P):
    cls = P.cls('OneSlackSSVM')
    f = helper(rep, '_solve_1_slack_qp', cls, '_solve_1_slack_qp',
               ['self', 'constraints', 'n_samples'])
    if f is None:
        return
    for neg in (None, 2):
        for n in (1, 2, 3):
            for mode in ('ok', 'retry', 'retry2', 'pruned',
                         'error'):
                oid = '1-slack:%d:%s%s' % (n, mode,
                                           ':negativity' if neg else '')
                guarded(rep, oid, lambda: one_1(rep, P, f, oid, n, neg,
                                                mode), f.qual)


def one_1(rep, P, f, oid, n, neg, mode):
    W = world(P, 'OneSlackSSVM', neg, mode)
    I = W.I
    cs, ds, ls = [], [], []
    for k in range(n):
        c, d, l = mk_constraint(W, 0, k, '1')
        cs.append(c)
        ds.append((0, I.snap(d)))
        ls.append(num_of(I, l))
    cons = mk_list(I, cs)
    I.set_attr(W.obj, 'alphas', mk_list(
        I, [mk_list(I, []) for _ in range(n - 1)]))
    run_qp(rep, W, oid, f, '_solve_1_slack_qp', cons, mode, ds, ls, 1, neg,
           True)


def check(rep, P, tier):
    n_slack(rep, P)
    one_slack(rep, P)
    return rep.finish('proof', TRUST, "quadratic programs", min_obl=30)
