"""C01-C04, C06: what a model's operations compute, for all sizes."""
from .relations import *
from .base import Broken, guarded, Shape
from ..expr import compare, show, prove_nonneg, evaluate, Valuation, Undefined
from ..project import Project

TRUST = ["numpy semantics as modelled in lib/pa/npmodel.py",
         "normal form and loop summaries of lib/pa/expr.py, lib/pa/interp.py",
         "inputs satisfy the documented shapes and index ranges"]


def eq_obl(rep, oid, where, L, R, what):
    r, info = compare(L, R)
    if r == 'equal':
        rep.proved(oid, what)
    elif r == 'same':
        rep.consistent(oid, what)
    elif r == 'differ':
        rep.violate(oid, where, "%s: the two sides differ (%s)" % (
            what, ", ".join("%s=%s" % kv for kv in sorted(
                info['sizes'].items()))),
            dict(left=show(L, 3000), right=show(R, 3000), separated_at=info))
    else:
        rep.undecided(oid, "%s: %s" % (what, info))
    return r


def definite_faults(W, mark):
    """events that make a call fail for every valid input"""
    out = []
    for e in W.I.events[mark:]:
        if e['kind'] in ('shape', 'unbound', 'noattr') and \
                e['guard'].const() == 1:
            out.append("%s in %s line %s" % (e['msg'], e['func'], e['line']))
    return out


def attempt(rep, W, oid, where, name, *args, **kw):
    """call a method; a definite failure on valid input is a violation.
    Returns (ok, value)"""
    mark = len(W.I.events)
    depth = len(W.I.stack)
    try:
        v = W.call(name, *args, **kw)
    except RaiseEvent as e:
        del W.I.stack[depth:]
        fn = e.func.qual if e.func else '?'
        rep.violate(oid, where, "%s() fails on valid input: %s (%s line %s)"
                    % (name, e.what, fn, getattr(e.node, 'lineno', '?')))
        return False, None
    f = definite_faults(W, mark)
    if f:
        rep.violate(oid, where, "%s() fails on valid input: %s" % (
            name, f[0]))
        return False, None
    return True, v


def cls_where(W, meth):
    f = W.cls.find(meth)
    return f.qual if f is not None else "%s.%s" % (W.cls.name, meth)


def label_cells(W, I, v):
    """flat integer labels as an ArrC"""
    return flat(I, v)


# ---------------------------------------------------------------------------
def c01(rep, P, cfgs):
    for c in cfgs:
        base = "features-match-potentials:%s" % c.name

        def run(c=c, base=base):
            W = World(P, c)
            x, w = W.make_x(), W.make_w()
            y = W.make_y()
            wh = cls_where(W, 'joint_feature')
            fam = c.opt('family')
            if fam in ('multiclass', 'binary'):
                return c01_flat(rep, W, c, x, w)
            ok, _ = attempt(rep, W, base + ':discrete', wh, 'inference', x, w)
            if not ok:
                return
            if not W.rec:
                rep.undecided(base, 'inference does not reach the dispatcher')
                return
            rec = W.rec[-1]

            def disc():
                ok, psi = attempt(rep, W, base + ':discrete', wh,
                                  'joint_feature', x, y)
                if ok:
                    eq_obl(rep, base + ':discrete', wh,
                           dot(W.I, w, content(W.I, psi, 'joint feature')),
                           discrete_score(W, rec, y),
                           'w.joint_feature(x, y) = score of y')
            guarded(rep, base + ':discrete', disc)

            def relx():
                q = relaxed_labels(W, rec)
                ok, psi = attempt(rep, W, base + ':relaxed', wh,
                                  'joint_feature', x, q)
                if ok:
                    eq_obl(rep, base + ':relaxed', wh,
                           dot(W.I, w, content(W.I, psi, 'joint feature')),
                           relaxed_score(W, rec, q),
                           'w.joint_feature(x, q) = score of relaxed q')
            guarded(rep, base + ':relaxed', relx)

            def relarr():
                q, want = typed_array_labels(W, rec)
                ok, psi = attempt(rep, W, base + ':relaxed-array', wh,
                                  'joint_feature', x, q)
                if ok:
                    eq_obl(rep, base + ':relaxed-array', wh,
                           dot(W.I, w, content(W.I, psi, 'joint feature')),
                           want, 'w.joint_feature(x, q) = score of relaxed q'
                           ' given as two arrays')
            if fam == 'typed':
                guarded(rep, base + ':relaxed-array', relarr)
            rep.visited(W.I.visited)
        guarded(rep, base, run)
        rep.rule(base.split(':')[0])
    for c in cfgs:
        oid = "decoded-layout:%s" % c.name
        guarded(rep, oid, lambda: decode_layout(rep, P, c, oid))


def typed_array_labels(W, rec, name='q'):
    """a relaxed labelling of a multi-type graph as two plain arrays: rows
    are the nodes (edges) of all types in order, columns the states (pairs of
    states) of all types in order; and its score"""
    I, T = W.I, W.T
    p = Pots(W, rec)
    pairs = [(a, b) for a in range(T) for b in range(T)]
    ms = [p.Ed[k].axes[0].size for k in range(len(pairs))]
    un = I.input_arr(name + 'u', [Axis([(n,) for n in W.Ns]),
                                  Axis([(s,) for s in W.Ss])],
                     owners='y_hat')
    pw = I.input_arr(name + 'p', [
        Axis([(m,) for m in ms if m != ZERO]),
        Axis([(W.Ss[a] * W.Ss[b],) for a, b in pairs])], owners='y_hat')
    uc, pc = I.snap(un), I.snap(pw)
    tot = ZERO
    for t in range(T):
        U = p.U[t]
        tot = tot + sum_axis_elem(U.axes[0], lambda n: sum_axis_elem(
            U.axes[1], lambda s: uc.fn([W.offs[t] + n, W.starts[t] + s]) *
            U.fn([n, s])))
    row = col = ZERO
    for k, (a, b) in enumerate(pairs):
        A, B = Axis.of(W.Ss[a]), Axis.of(W.Ss[b])
        if ms[k] != ZERO:
            tot = tot + sum_axis_elem(p.Ed[k].axes[0], lambda e: sum_axis_elem(
                A, lambda i: sum_axis_elem(B, lambda j: pc.fn(
                    [row + e, col + i * W.Ss[b] + j]) * p.pw(k, e, i, j))))
        row = row + ms[k]
        col = col + W.Ss[a] * W.Ss[b]
    return Tup([un, pw]), tot


def c01_flat(rep, W, c, x, w):
    I = W.I
    base = "features-match-potentials:%s" % c.name
    wh = cls_where(W, 'inference')
    ok, r = attempt(rep, W, base, wh, 'inference', x, w)
    if not ok:
        return
    if c.opt('family') == 'multiclass':
        k = fresh_var(W.S)
        kw = {}
        if c.opt('args', {}).get('rescale_C'):
            # the common positive factor class_weight[y_true] is left out
            yt = W.make_y('yt')
            kw['y_true'] = yt
        ok, psi = attempt(rep, W, base, cls_where(W, 'joint_feature'),
                          'joint_feature', x, Num(atom(k)), **kw)
        if not ok:
            return
        sc = dot(I, w, psi)
        if kw:
            cw = I.snap(I.get_attr_raw(W.obj, 'class_weight'))
            plain = exact_factor(sc, cw.fn([kw['y_true'].e]))
            if plain is None:
                rep.undecided(base, 'rescaled features not a multiple of the '
                              'class weight')
                return
            sc = plain
        want = mk_fn('argmax', [mk_key([k], sc)])
        eq_obl(rep, base, wh, num_of(I, r), want,
               'prediction = argmax_k w.joint_feature(x, k)')
    else:
        ok, p1 = attempt(rep, W, base, wh, 'joint_feature', x, Num(ONE))
        ok2, p0 = attempt(rep, W, base, wh, 'joint_feature', x, Num(E(-1)))
        if not (ok and ok2):
            return
        d = dot(I, w, p1) - dot(I, w, p0)
        eq_obl(rep, base, wh, num_of(I, r), 2 * ind_ge0(d) - 1,
               'prediction = sign of the score difference')
    rep.visited(I.visited)


def exact_factor(e, f):
    """e / f when f is a single atom dividing every term"""
    if len(f.terms) != 1:
        return None
    (t, c), = f.terms.items()
    out = ZERO
    for tt, cc in e.terms.items():
        l = list(tt)
        for a in t:
            if a not in l:
                return None
            l.remove(a)
        out = out + Expr({tuple(l): cc / c})
    return out


def num_of(I, v):
    if isinstance(v, Num):
        return v.e
    if isinstance(v, Phi):
        return v.c * num_of(I, v.a) + (ONE - v.c) * num_of(I, v.b)
    if I.is_arr(v) and I.c(v).ndim == 0:
        return I.snap(v).fn([])
    if isinstance(v, Const) and isinstance(v.v, bool):
        return ONE if v.v else ZERO
    raise Opaque("number expected: %r" % (v,))


def fake_result(W, mode, tag='yhat'):
    """what the back-end returns: labels (+ energy) or marginals"""
    def result(I, rec):
        p = Pots(W, rec)
        if mode.startswith('relaxed'):
            if p.typed:
                r = relaxed_labels(W, rec, tag)
            else:
                U, Ed = p.U[0], p.Ed[0]
                S = U.axes[1].size
                r = Tup([I.input_arr(tag, [U.axes[0], S]),
                         I.input_arr(tag + 'p', [Ed.axes[0],
                                                 Axis([(S, S)])])])
        else:
            n = ZERO
            for U in p.U:
                n = n + U.axes[0].size
            r = I.input_arr(tag, [n], lo=0, hi=W.S, dtype='int')
        if mode.endswith('energy'):
            return Tup([r, Num(atom(('fn', 'h:energy', ())), 'float')])
        return r
    return result


def decode_layout(rep, P, c, oid):
    """prediction hands back the decoded labelling, in the layout of x"""
    if c.opt('family') in ('multiclass', 'binary'):
        return
    for mode in ('hard', 'hard+energy', 'relaxed'):
        for meth in ('inference', 'loss_augmented_inference'):
            W = World(P, c)
            I = W.I
            x, w, y = W.make_x(), W.make_w(), W.make_y()
            W.dispatch_result = fake_result(W, mode)
            kw = {}
            if mode.endswith('energy'):
                kw['return_energy'] = Num(ONE, 'bool')
                f = W.cls.find(meth)
                if f is not None and not accepts(f, 'return_energy'):
                    continue
            if mode.startswith('relaxed'):
                kw['relaxed'] = Num(ONE, 'bool')
            o = "%s:%s:%s" % (oid, meth, mode)
            wh = cls_where(W, meth)

            def go():
                args = (x, w) if meth == 'inference' else (x, y, w)
                if meth == 'loss_augmented_inference' and \
                        c.opt('family') == 'typed' and False:
                    return
                ok, r = attempt(rep, W, o, wh, meth, *args, **kw)
                if not ok:
                    return
                if len(W.rec) != 1:
                    rep.undecided(o, '%d dispatcher calls' % len(W.rec))
                    return
                if mode.endswith('energy'):
                    if not isinstance(r, Tup) or len(r.items) != 2:
                        rep.undecided(o, 'no (labels, energy) pair')
                        return
                    eq_obl(rep, o + ':energy', wh, num_of(I, r.items[1]),
                           atom(('fn', 'h:energy', ())),
                           'the energy of the back-end is handed back')
                    r = r.items[0]
                if mode.startswith('relaxed'):
                    if not isinstance(r, Tup) or len(r.items) != 2:
                        rep.undecided(o, 'no (marginals, marginals) pair')
                        return
                    if c.opt('family') == 'typed':
                        return
                    q = content(I, r.items[0], 'marginals')
                    if c.opt('layout') == 'grid':
                        b = [fresh_var(W.R), fresh_var(W.Co),
                             fresh_var(W.S)]
                        i, j, s = map(atom, b)
                        want = mk_read('yhat', (i * W.Co + j, s), None, None,
                                       False)
                        got = cell(q, [W.R, W.Co, W.S], [i, j, s])
                    else:
                        b = [fresh_var(q.axes[0].size), fresh_var(W.S)]
                        i, s = map(atom, b)
                        want = mk_read('yhat', (i, s), None, None, False)
                        got = cell(q, [q.axes[0].size, W.S], [i, s])
                    eq_arr(rep, o, wh, b, got, want)
                    return
                yc = content(I, r, 'labels')
                if c.opt('layout') == 'grid':
                    b = [fresh_var(W.R), fresh_var(W.Co)]
                    i, j = map(atom, b)
                    want = mk_read('yhat', (i * W.Co + j,), ZERO, W.S, True)
                    got = cell(yc, [W.R, W.Co], [i, j])
                else:
                    b = [fresh_var(yc.axes[0].size)]
                    i = atom(b[0])
                    want = mk_read('yhat', (i,), ZERO, W.S, True)
                    got = cell(yc, [yc.axes[0].size], [i])
                eq_arr(rep, o, wh, b, got, want)
            guarded(rep, o, go, wh)
            rep.visited(I.visited)
            rep.rule('decoded-layout')


def accepts(f, name):
    a = f.node.args
    return a.kwarg is not None or name in [
        x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def cell(arr, dims, idx):
    if arr.ndim != len(dims):
        raise Shape("%d dimensions, expected %d" % (arr.ndim, len(dims)))
    for a, d in zip(arr.axes, dims):
        r, _ = compare(a.size, d)
        if r == 'differ':
            raise Shape("size %s where %s is expected" % (
                show(a.size), show(d)))
    return arr.fn(list(idx))


def eq_arr(rep, oid, wh, binders, got, want, what='element'):
    """equality of two arrays given generic cells: compared as whole-array
    keys so that the separation ranges over all cells"""
    kg, kw = mk_key(binders, got), mk_key(binders, want)
    if kg == kw:
        rep.proved(oid, what)
        return
    # a random linear functional separates arrays
    lam = atom(('fn', 'h:lambda', tuple(atom(b) for b in binders)))
    L = sum_over(list(binders), lam * got)
    R = sum_over(list(binders), lam * want)
    eq_obl(rep, oid, wh, L, R, what)


def arr_obl(rep, oid, wh, f):
    try:
        f()
    except Shape as e:
        rep.violate(oid, wh, 'wrong shape: %s' % e)


# ---------------------------------------------------------------------------
def simplex_labels(W, rec, name='q'):
    """relaxed labels whose rows sum to one (S = S1 + 1)"""
    I = W.I
    p = Pots(W, rec)

    def simplex(nm, rows, S):
        last = S - 1

        def fn(idx):
            n, s = idx
            t = fresh_var(last)
            z = ind_ge0(last - 1 - s)
            rd = lambda k: mk_read(nm, (n, k), None, None, False)
            return z * rd(s) + (ONE - z) * (ONE - mk_sum(t, rd(atom(t))))
        return I.new_arr([rows, Axis.of(S)], fn, 'float',
                         frozenset(['y_hat']))
    if p.typed:
        qs = []
        for t in range(W.T):
            qs.append(('v', simplex('%s%d' % (name, t), Axis.of(W.Ns[t]),
                                    W.Ss[t])))
        base = relaxed_labels(W, rec, name)
        return Tup([I.alloc(ListC(qs)), base.items[1]])
    U, Ed = p.U[0], p.Ed[0]
    S = U.axes[1].size
    pm = I.input_arr(name + 'p', [Ed.axes[0], Axis([(S, S)])],
                     owners='y_hat')
    q = simplex(name, U.axes[0], S)
    if W.cfg.opt('layout') == 'grid':
        q2 = I.call(I.attr(q, 'reshape'),
                    [Num(W.R), Num(W.Co), Num(S)], {})
        q = q2
    return Tup([q, pm])


def loss_delta(W, rec0, rec1):
    """per node and state difference of the unary potentials"""
    p0, p1 = Pots(W, rec0), Pots(W, rec1)
    return p0, p1


def c02(rep, P, cfgs):
    for c in cfgs:
        base = "augmentation-is-loss:%s" % c.name
        rep.rule('augmentation-is-loss')
        if c.opt('family') in ('multiclass', 'binary'):
            guarded(rep, base, lambda: c02_flat(rep, P, c, base))
            continue
        guarded(rep, base, lambda: c02_graph(rep, P, c, base))


def c02_graph(rep, P, c, base):
    W = World(P, c)
    I = W.I
    x, w, y = W.make_x(), W.make_w(), W.make_y()
    wh = cls_where(W, 'loss_augmented_inference')
    W.dispatch_result = fake_result(W, 'hard')
    ok, _ = attempt(rep, W, base, cls_where(W, 'inference'), 'inference',
                    x, w)
    if not ok:
        return
    n0 = len(W.rec)
    ok, _ = attempt(rep, W, base, wh, 'loss_augmented_inference', x, y, w)
    if not ok:
        return
    if len(W.rec) != n0 + 1:
        rep.undecided(base, 'dispatcher calls: %d' % (len(W.rec) - n0))
        return
    rec0, rec1 = W.rec[n0 - 1], W.rec[-1]
    yh = W.make_y('yh', 'y_hat')

    def disc():
        s0 = discrete_score(W, rec0, yh)
        s1 = discrete_score(W, rec1, yh)
        ok, l = attempt(rep, W, base + ':discrete', cls_where(W, 'loss'),
                        'loss', y, yh)
        if ok:
            eq_obl(rep, base + ':discrete', wh, s1 - s0, num_of(I, l),
                   'augmented score - score = loss')
    guarded(rep, base + ':discrete', disc)
    guarded(rep, base + ':pairwise', lambda: same_pairs(
        rep, W, rec0, rec1, base + ':pairwise', wh))
    rep.visited(I.visited)
    if c.opt('family') == 'multilabel':
        simp = relaxed_labels
    else:
        simp = simplex_labels
    guarded(rep, base + ':relaxed', lambda: c02_relaxed(rep, P, c, base))


def c02_relaxed(rep, P, c, base):
    W = World(P, c, simplex=True)
    I = W.I
    x, w, y = W.make_x(), W.make_w(), W.make_y()
    W.dispatch_result = fake_result(W, 'hard')
    W.call('inference', x, w)
    W.call('loss_augmented_inference', x, y, w)
    rec0, rec1 = W.rec[0], W.rec[-1]
    fam = c.opt('family')
    if fam == 'latentnode':
        return
    q = relaxed_labels(W, rec0) if fam == 'multilabel' else \
        simplex_labels(W, rec0)
    ok, l = attempt(rep, W, base + ':relaxed', cls_where(W, 'loss'), 'loss',
                    y, q)
    if ok:
        s0, s1 = relaxed_score(W, rec0, q), relaxed_score(W, rec1, q)
        eq_obl(rep, base + ':relaxed', cls_where(W, 'loss'), s1 - s0,
               num_of(I, l), 'augmented score - score = loss (relaxed)')
    rep.visited(I.visited)


def same_pairs(rep, W, rec0, rec1, oid, wh):
    p0, p1 = Pots(W, rec0), Pots(W, rec1)
    for k in range(len(p0.P)):
        a, b = p0.P[k], p1.P[k]
        e0, e1 = p0.Ed[k], p1.Ed[k]
        for u, v, nm in ((a, b, 'pairwise potentials'), (e0, e1, 'edges')):
            bs = [fresh_var(ax.size) for ax in u.axes]
            ix = [atom(z) for z in bs]
            arr_obl(rep, oid, wh, lambda: eq_arr(
                rep, oid, wh, bs, cell(v, u.shape, ix), u.fn(ix),
                '%s unchanged by loss augmentation' % nm))


def c02_flat(rep, P, c, base):
    W = World(P, c)
    I = W.I
    x, w, y = W.make_x(), W.make_w(), W.make_y()
    wh = cls_where(W, 'loss_augmented_inference')
    ok, r = attempt(rep, W, base, wh, 'loss_augmented_inference', x, y, w)
    if not ok:
        return
    if c.opt('family') == 'multiclass':
        k = fresh_var(W.S)
        kw = {}
        resc = c.opt('args', {}).get('rescale_C')
        if resc:
            kw['y_true'] = y
        ok, psi = attempt(rep, W, base, cls_where(W, 'joint_feature'),
                          'joint_feature', x, Num(atom(k)), **kw)
        ok2, l = attempt(rep, W, base, cls_where(W, 'loss'), 'loss', y,
                         Num(atom(k)))
        if not (ok and ok2):
            return
        sc = dot(I, w, psi) + num_of(I, l)
        if resc:
            # argmax is invariant under the common positive class weight
            cw = I.snap(I.get_attr_raw(W.obj, 'class_weight'))
            f = exact_factor(sc, cw.fn([y.e]))
            if f is None:
                rep.undecided(base, 'no common class weight factor')
                return
            sc = f
        eq_obl(rep, base, wh, num_of(I, r),
               mk_fn('argmax', [mk_key([k], sc)]),
               'decoded label = argmax_k w.joint_feature(x, k) + loss(y, k)')
    else:
        sc = []
        for v in (1, -1):
            ok, psi = attempt(rep, W, base, wh, 'joint_feature', x,
                              Num(E(v)))
            ok2, l = attempt(rep, W, base, cls_where(W, 'loss'), 'loss', y,
                             Num(E(v)))
            if not (ok and ok2):
                return
            sc.append(dot(I, w, psi) + num_of(I, l))
        eq_obl(rep, base, wh, num_of(I, r), 2 * ind_ge0(sc[0] - sc[1]) - 1,
               'decoded label maximises score + loss')
    rep.visited(I.visited)


# ---------------------------------------------------------------------------
def c03(rep, P, cfgs):
    for c in cfgs:
        base = "declared-dimension:%s" % c.name
        rep.rule('declared-dimension')
        guarded(rep, base, lambda: c03_cfg(rep, P, c, base))


def c03_cfg(rep, P, c, base):
    W = World(P, c)
    I = W.I
    wh = cls_where(W, 'joint_feature')
    if W.D is None:
        rep.undecided(base, 'size not known after construction')
        return
    x, w, y = W.make_x(), W.make_w(), W.make_y()
    kw = {}
    if (c.opt('args') or {}).get('rescale_C'):
        kw['y_true'] = y
    ok, psi = attempt(rep, W, base, wh, 'joint_feature', x, y, **kw)
    if not ok:
        return
    pc = content(I, psi, 'joint feature')
    if pc.ndim != 1:
        rep.violate(base, wh, 'feature vector has %d dimensions' % pc.ndim)
        return
    eq_obl(rep, base + ':length', wh, pc.axes[0].size, W.D,
           'length of the joint feature = declared size')
    if c.opt('family') not in ('multiclass', 'binary'):
        def rel():
            W.call('inference', x, w)
            q = relaxed_labels(W, W.rec[-1])
            ok, psi = attempt(rep, W, base + ':relaxed-length', wh,
                              'joint_feature', x, q)
            if ok:
                pc = content(I, psi, 'joint feature')
                eq_obl(rep, base + ':relaxed-length', wh, pc.axes[0].size,
                       W.D, 'length of the relaxed joint feature')
        guarded(rep, base + ':relaxed-length', rel)
        # every parameter is used: the score depends on each weight
        guarded(rep, base + ':wrong-size', lambda: wrong_size(
            rep, P, c, base + ':wrong-size'))
    rep.visited(I.visited)


def wrong_size(rep, P, c, oid):
    """a weight vector of another length is refused, not silently used"""
    W = World(P, c)
    I = W.I
    x, y = W.make_x(), W.make_y()
    extra = sym('extra', 1)
    for meth in ('inference', 'loss_augmented_inference'):
        w = I.input_arr('w', [W.D + extra], owners='w')
        wh = cls_where(W, meth)
        o = oid + ':' + meth
        mark = len(I.events)
        try:
            args = (x, w) if meth == 'inference' else (x, y, w)
            W.call(meth, *args)
        except RaiseEvent as e:
            rep.proved(o, 'rejected: %s' % e.what)
            continue
        if W.rec and not definite_faults(W, mark):
            rep.violate(o, wh, 'a weight vector longer than the declared '
                        'size reaches inference unnoticed')
        else:
            rep.proved(o, 'rejected by a shape error')


# ---------------------------------------------------------------------------
def nonneg(e):
    """prove e >= 0 by merging sums over equal ranges and splitting on their
    indicators"""
    if prove_nonneg(e):
        return 'proved'
    groups = {}
    rest = ZERO
    for t, c in e.terms.items():
        sums = [a for a in t if a[0] == 'sum']
        if len(sums) == 1:
            s = sums[0]
            others = tuple(a for a in t if a[0] != 'sum')
            k = tuple(b[2].key for b in s[1])
            g = groups.setdefault(k, [[b[2] for b in s[1]], []])
            g[1].append((c, s, others))
        else:
            rest = rest + Expr({t: c})
    ok = True
    pend = rest
    for k, (bounds_, items) in groups.items():
        bs = [fresh_var(b) for b in bounds_]
        body = ZERO
        for c, s, others in items:
            m = {b: atom(n) for b, n in zip(s[1], bs)}
            t = E(c)
            for f in s[2]:
                from ..expr import subst_atom
                t = t * subst_atom(f, m)
            for o in others:
                t = t * atom(o)
            body = body + t
        # constants n*k with n the range may pay for negative bodies
        if not split_nonneg(body):
            n = ONE
            for b in bounds_:
                n = n * b
            q = exact_div(pend, n) if not pend.is_zero() else None
            if q is not None and split_nonneg(body + q):
                pend = ZERO
                continue
            ok = False
    if ok and (pend.is_zero() or prove_nonneg(pend) or split_nonneg(pend)):
        return 'proved'
    worst = None
    n = 0
    for s in range(40):
        v = Valuation(s)
        try:
            x = evaluate(e, v)
        except (Undefined, RecursionError):
            continue
        n += 1
        if x < 0:
            return ('negative', dict(seed=s, sizes=dict(v.syms),
                                     value=str(x)))
    return 'consistent' if n >= 4 and not e.poisoned() else 'unknown'


def split_nonneg(e, depth=0):
    if prove_nonneg(e):
        return True
    if depth > 6:
        return False
    ca = case_atoms(e)
    if not ca:
        # factor common nonnegative atoms
        return False
    return split_nonneg(restrict(e, ca[0], 1), depth + 1) and \
        split_nonneg(restrict(e, ca[0], 0), depth + 1)


from ..expr import case_atoms, restrict, exact_div     # noqa: E402


def nn_obl(rep, oid, wh, e, what):
    r = nonneg(e)
    if r == 'proved':
        rep.proved(oid, what)
    elif r == 'consistent':
        rep.consistent(oid, what)
    elif r == 'unknown':
        rep.undecided(oid, what)
    else:
        rep.violate(oid, wh, '%s fails' % what,
                    dict(expression=show(e, 3000), at=r[1]))


def c04(rep, P, cfgs):
    for c in cfgs:
        base = "loss:%s" % c.name
        rep.rule('loss-axioms')
        guarded(rep, base, lambda: c04_cfg(rep, P, c, base))


def c04_cfg(rep, P, c, base):
    W = World(P, c)
    I = W.I
    x, w, y = W.make_x(), W.make_w(), W.make_y()
    yh = W.make_y('yh', 'y_hat')
    wh = cls_where(W, 'loss')
    ok, l0 = attempt(rep, W, base + ':zero', wh, 'loss', y, y)
    if ok:
        eq_obl(rep, base + ':zero', wh, num_of(I, l0), ZERO,
               'loss(y, y) = 0')
    ok, l = attempt(rep, W, base + ':nonneg', wh, 'loss', y, yh)
    if not ok:
        return
    l = num_of(I, l)
    nn_obl(rep, base + ':nonneg', wh, l, 'loss(y, y_hat) >= 0')

    def mx():
        if c.opt('family') in ('multiclass', 'binary'):
            return
        ok, m = attempt(rep, W, base + ':max', cls_where(W, 'max_loss'),
                        'max_loss', y)
        if ok:
            nn_obl(rep, base + ':max', cls_where(W, 'max_loss'),
                   num_of(I, m) - l, 'loss(y, y_hat) <= max_loss(y)')
    guarded(rep, base + ':max', mx)

    def vertex():
        if c.opt('family') in ('multiclass', 'binary'):
            return
        W.dispatch_result = None
        W.call('inference', x, w)
        q = vertex_labels(W, W.rec[-1], yh)
        ok, lr = attempt(rep, W, base + ':vertex', wh, 'loss', y, q)
        if ok:
            eq_obl(rep, base + ':vertex', wh, num_of(I, lr), l,
                   'relaxed loss of an integral labelling = discrete loss')
    guarded(rep, base + ':vertex', vertex)
    rep.visited(I.visited)


def vertex_labels(W, rec, yh):
    """indicator marginals of the labelling yh"""
    I = W.I
    p = Pots(W, rec)
    y = flat(I, yh)
    if p.typed:
        qs = []
        for t in range(W.T):
            off, st = W.offs[t], W.starts[t]
            qs.append(('v', I.new_arr(
                [Axis.of(W.Ns[t]), Axis.of(W.Ss[t])],
                lambda idx, off=off, st=st: ind_eq(
                    y.fn([off + idx[0]]) - st, idx[1]), 'float')))
        base = relaxed_labels(W, rec)
        return Tup([I.alloc(ListC(qs)), base.items[1]])
    U, Ed = p.U[0], p.Ed[0]
    S = U.axes[1].size
    q = I.new_arr([U.axes[0], Axis.of(S)],
                  lambda idx: ind_eq(y.fn([idx[0]]), idx[1]), 'float')
    if W.cfg.opt('layout') == 'grid':
        q = I.call(I.attr(q, 'reshape'), [Num(W.R), Num(W.Co), Num(S)], {})
    pm = I.input_arr('qp', [Ed.axes[0], Axis([(S, S)])])
    return Tup([q, pm])
