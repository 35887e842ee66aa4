"""C13: predictions and scores of the learners."""
from .lw import *
from .rel import TRUST, eq_obl, eq_arr, num_of, definite_faults
from .base import Broken, guarded, Shape
from .margin import call_guard

PLAIN = ['NSlackSSVM', 'OneSlackSSVM', 'SubgradientSSVM', 'FrankWolfeSSVM',
         'StructuredPerceptron', 'PrimalDSStructuredSVM']
LATENT = ['LatentSSVM', 'SubgradientLatentSSVM']


def learner(P, name, n_jobs, batch=True, n=None, concrete=None, **kw):
    if name == 'LatentSSVM':
        W = LW(P, 'NSlackSSVM', dict(C=pos('C'), n_jobs=n_jobs), n=n,
               concrete=concrete, bare=not batch, **kw)
        base = W.obj
        W.base = base
        W.cls = P.cls('LatentSSVM')
        W.obj = W.I.instantiate(W.cls, [base], {})
    else:
        W = LW(P, name, dict(C=pos('C'), n_jobs=n_jobs), n=n,
               concrete=concrete, bare=not batch, **kw)
        W.base = W.obj
    W.w = W.w_arr()
    W.I.set_attr(W.base, 'w', W.w)
    return W


def seq_len_is(rep, W, oid, wh, v, n):
    ln = W.I.seq_len(v)
    eq_obl(rep, oid, wh, ln, n, 'one result per sample')


def where_of(P, cls, meth):
    c = P.cls(cls)
    f = c.find(meth) if c else None
    if f is None:
        raise Broken('%s.%s is gone' % (cls, meth))
    return f


def want_label(W, name, i, cons, latent_map):
    kw = {}
    if cons is not None:
        kw['constraints'] = W.item(cons, i)
    r = W.m_call('inference', W.item(W.X, i), W.w, **kw)
    if latent_map:
        r = W.m_call('label_from_latent', r)
    return r


def predict(rep, P):
    for name in PLAIN + LATENT:
        lat = name in LATENT
        for meth in ('predict',) + (('predict_latent',) if lat else ()):
            f = where_of(P, name, meth)
            for n_jobs in (1, 2, -1):
                for batch in (True, False):
                    for cons in ((False, True) if not lat else (False,)):
                        for empty in (False, True):
                            if empty and cons:
                                continue
                            oid = '%s:%s:jobs%s%s%s%s' % (
                                meth, name, n_jobs,
                                '' if batch else ':no-batch',
                                ':constraints' if cons else '',
                                ':empty' if empty else '')
                            guarded(rep, oid, lambda: one_predict(
                                rep, P, f, oid, name, meth, n_jobs, batch,
                                cons, empty), f.qual)


def one_predict(rep, P, f, oid, name, meth, n_jobs, batch, cons, empty):
    W = learner(P, name, n_jobs, batch, concrete=0 if empty else None)
    I = W.I
    cs = None
    if cons:
        it = opaque_items(I, 'cons', W.n)
        cs = I.alloc(ListC([('s', Seq(W.n, lambda i: mk_list(
            I, [I.seq_item(it, i)])))]))
    kw = {'constraints': cs} if cons else {}
    ok, r = call_guard(rep, W, oid, f.qual, lambda: W.call(meth, W.X, **kw))
    if not ok:
        return
    rep.visited(I.visited)
    rep.rule('prediction-per-sample')
    seq_len_is(rep, W, oid + ':length', f.qual, r, ZERO if empty else W.n)
    if empty:
        return
    i = fresh_var(W.n)
    eq_arr(rep, oid, f.qual, [i], ident_sum(I, seq_get(I, r, atom(i))),
           ident_sum(I, want_label(W, name, atom(i), cs,
                                   name in LATENT and meth == 'predict')),
           'prediction i = inference on sample i with the learned weights')


def score(rep, P):
    for name in PLAIN + LATENT:
        f = where_of(P, name, 'score')
        for n_jobs in (1, 2):
            for batch in (True, False):
                oid = 'score:%s:jobs%s%s' % (name, n_jobs,
                                             '' if batch else ':no-batch')
                guarded(rep, oid, lambda: one_score(rep, P, f, oid, name,
                                                    n_jobs, batch), f.qual)


def one_score(rep, P, f, oid, name, n_jobs, batch):
    W = learner(P, name, n_jobs, batch)
    I = W.I
    ok, r = call_guard(rep, W, oid, f.qual, lambda: W.call('score', W.X, W.Y))
    if not ok:
        return
    rep.visited(I.visited)
    rep.rule('score')
    i = fresh_var(W.n)
    lat = name in LATENT
    p = want_label(W, name, atom(i), None, lat)
    y = W.item(W.Y, atom(i))
    l = num_of(I, W.m_call('base_loss' if lat else 'loss', y, p))
    m = num_of(I, W.m_call('max_loss', y))
    want = ONE - div_real(sum_over([i], l), sum_over([i], m))
    eq_obl(rep, oid, f.qual, num_of(I, r), want,
           'score = 1 - summed loss / summed maximum loss')


def check(rep, P, tier):
    predict(rep, P)
    score(rep, P)
    return rep.finish('proof', TRUST, "predictions and scores", min_obl=30)
