"""C14: the update steps of the online learners."""
from fractions import Fraction
from .lw import *
from .rel import TRUST, eq_obl, eq_arr, num_of, definite_faults
from .base import Broken, guarded, Shape, spread
from .margin import call_guard
from .predict import where_of
from . import fitref


def half():
    return E(Fraction(1, 2))


def sub_world(P, cls, mom, decay, avg, **kw):
    p = dict(C=pos('C'), momentum=real('mom') if mom else 0.0,
             decay_exponent={0: 0, 1: 1}.get(decay, 0) if decay != 'x'
             else pos('dexp'),
             decay_t0=pos('t0'), averaging=avg, learning_rate=pos('eta'))
    W = LW(P, cls, p, **kw)
    return W


def step(rep, P):
    for cls in ('SubgradientSSVM', 'SubgradientLatentSSVM'):
        f = where_of(P, cls, '_solve_subgradient')
        for mom in (False, True):
            for decay in (0, 1):
                for avg in (None, 'linear', 'squared'):
                    if cls != 'SubgradientSSVM' and avg == 'squared':
                        continue
                    oid = 'subgradient-step:%s:%s:decay%s:averaging-%s' % (
                        cls, 'momentum' if mom else 'plain', decay, avg)
                    guarded(rep, oid, lambda: one_step(
                        rep, P, f, oid, cls, mom, decay, avg), f.qual)


def vec(I, a):
    c = I.snap(a)
    if c.ndim != 1:
        raise Shape('a weight vector has %d axes' % c.ndim)
    return c


def one_step(rep, P, f, oid, cls, mom, decay, avg):
    W = sub_world(P, cls, mom, decay, avg)
    I = W.I
    wa = W.w_arr('wcur')
    sw = W.w_arr('wself')
    g0 = W.w_arr('gold')
    d = W.w_arr('dpsi')
    t = num_of(I, pos('t'))
    I.set_attr(W.obj, 'w', sw)
    I.set_attr(W.obj, 'grad_old', g0)
    I.set_attr(W.obj, 't', Num(t, 'float'))
    I.set_attr(W.obj, 'learning_rate_', pos('eta'))
    old = {k: vec(I, v) for k, v in (('w', wa), ('s', sw), ('g', g0),
                                     ('d', d))}
    ok, r = call_guard(rep, W, oid, f.qual, lambda: I.call_func(
        f, [W.obj, d, Num(W.n, 'int'), wa], {}))
    if not ok:
        return
    rep.visited(I.visited)
    rep.rule('subgradient-step')
    k = sym('i0', 0)
    o = {x: a.fn([k]) for x, a in old.items()}
    C = num_of(I, I.get_attr_raw(W.obj, 'C'))
    m = num_of(I, I.get_attr_raw(W.obj, 'momentum'))
    grad = o['d'] - div_real(o['w'], C * W.n)
    g = (ONE - m) * grad + m * o['g']
    eta = num_of(I, I.get_attr_raw(W.obj, 'learning_rate_'))
    t0 = num_of(I, I.get_attr_raw(W.obj, 'decay_t0'))
    lr = eta if decay == 0 else div_real(eta, t + t0)
    w1 = o['w'] + lr * g
    eq_obl(rep, oid + ':w', f.qual, vec(I, r).fn([k]), w1,
           'w + rate * direction')
    eq_obl(rep, oid + ':in-place', f.qual, vec(I, wa).fn([k]), w1,
           'the working weights are updated')
    eq_obl(rep, oid + ':direction', f.qual,
           vec(I, W.attr('grad_old')).fn([k]), g, 'momentum direction')
    eq_obl(rep, oid + ':t', f.qual, num_of(I, W.attr('t')), t + ONE,
           'step counter')
    if avg is None:
        want = w1
    else:
        rho = div_real(E(2), t + 2) if avg == 'linear' else div_real(
            6 * (t + 1), (t + 2) * (2 * t + 3))
        want = (ONE - rho) * o['s'] + rho * w1
    eq_obl(rep, oid + ':average', f.qual, vec(I, W.attr('w')).fn([k]), want,
           'stored weights = running average of the iterates')


def check(rep, P, tier):
    jobs = []
    for part in (fitref.sub_fit, fitref.sub_latent, fitref.fw_fit,
                 fitref.perceptron_fit):
        part(jobs, P, tier)
    spread(rep, jobs)
    return rep.finish('proof', TRUST, "update steps", min_obl=30)
