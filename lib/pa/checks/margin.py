"""C11: margin constraints describe the labelling they were generated from."""
from .lw import *
from .rel import TRUST, eq_obl, eq_arr, num_of, definite_faults
from .base import Broken, guarded, Shape


def call_guard(rep, W, oid, wh, f):
    I = W.I
    mark, depth = len(I.events), len(I.stack)
    try:
        v = f()
    except RaiseEvent as e:
        del I.stack[depth:]
        rep.violate(oid, wh, "fails on valid input: %s (line %s)" % (
            e.what, getattr(e.node, 'lineno', '?')))
        return False, None
    fl = definite_faults(W, mark)
    if fl:
        rep.violate(oid, wh, "fails on valid input: %s" % fl[0])
        return False, None
    return True, v


def find_constraint(rep, P, latent=False):
    name = 'find_constraint_latent' if latent else 'find_constraint'
    f = P.func('pystruct.utils.inference', name)
    if f is None:
        raise Broken("pystruct.utils.inference.%s is gone" % name)
    for rescale in ((False, True) if not latent else (False,)):
        for marg in (False, True):
            for mode in ('plain', 'hard', 'given', 'nodiff'):
                if latent and mode in ('given', 'nodiff'):
                    continue
                oid = '%s:%s%s%s' % (name, mode,
                                     ':rescaled' if rescale else '',
                                     ':marginals' if marg else '')
                guarded(rep, oid, lambda: one(rep, P, f, oid, rescale, marg,
                                              mode, latent), f.qual)


def one(rep, P, f, oid, rescale, marg, mode, latent):
    W = LW(P, rescale=rescale, marginals=marg)
    I = W.I
    i = sym('i0', 0)
    x, y = W.item(W.X, i), W.item(W.Y, i)
    w = W.w_arr()
    kw = {}
    relaxed = True
    if mode == 'hard':
        kw['relaxed'] = Const(False)
        relaxed = False
    yh = None
    if mode == 'given':
        yh = I.input_arr('given', [W.m], owners='y_hat')
        if marg:
            yh = Tup([yh, I.input_arr('givenpw', [sym('mp', 1)])])
        kw['y_hat'] = yh
    if mode == 'nodiff':
        kw['compute_difference'] = Const(False)
    ok, r = call_guard(rep, W, oid, f.qual, lambda: I.call_func(
        f, [W.model, x, y, w], kw))
    if not ok:
        return
    rep.visited(I.visited)
    rep.rule('constraint-triple')
    if not isinstance(r, Tup) or len(r.items) != 4:
        raise Opaque("not a 4-tuple: %r" % (r,))
    y_hat, dpsi, slack, loss = r.items
    h = y
    if latent:
        h = W.m_call('latent', x, y, w)
    want_y = yh if yh is not None else W.m_call(
        'loss_augmented_inference', x, h, w, relaxed=Const(relaxed))
    eq_obl(rep, oid + ':labelling', f.qual, ident_sum(I, y_hat),
           ident_sum(I, want_y), 'labelling = loss-augmented prediction')
    k = fresh_var(W.D)
    d = I.snap(dpsi)
    if d.ndim != 1 or size_differs(d.axes[0].size, W.D):
        raise Shape("difference of features is not a weight-sized vector")
    want = -W.psi(x, want_y, y).fn([atom(k)])
    if mode != 'nodiff':
        want = want + W.psi(x, h, y).fn([atom(k)])
    eq_arr(rep, oid + ':difference', f.qual, [k], d.fn([atom(k)]), want,
           'feature difference = features of truth - features of labelling')
    if isinstance(want_y, Tup):
        l1 = num_of(I, W.m_call('continuous_loss', h, want_y.items[0]))
        l2 = num_of(I, W.m_call('loss', h, want_y))
        got = num_of(I, loss)
        L = l1 if got == l1 else l2
    else:
        L = num_of(I, W.m_call('loss', h, want_y))
    eq_obl(rep, oid + ':loss', f.qual, num_of(I, loss), L,
           'loss = loss of the labelling against the truth')
    u = fresh_var(W.D)
    wc = I.snap(w)
    m = num_of(I, loss) - sum_over(
        [u], wc.fn([atom(u)]) * d.fn([atom(u)]))
    eq_obl(rep, oid + ':slack', f.qual, num_of(I, slack),
           mk_fn('max2', [m, ZERO]), 'slack = positive part of loss - margin')


def check(rep, P, tier):
    find_constraint(rep, P)
    find_constraint(rep, P, True)
    return rep.finish('proof', TRUST, "constraint triples", min_obl=30)
