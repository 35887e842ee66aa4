"""Reference runs of the learners, in normal form, on a few samples.

The learners' fit methods are interpreted over the uninterpreted model with a
small concrete number of samples and passes (all array sizes, features,
losses, C, rates and so on stay symbolic); the final weights and the recorded
curves are compared with the documented algorithm."""
from fractions import Fraction
from .lw import *
from .rel import TRUST, eq_obl, eq_arr, num_of, definite_faults
from .base import Broken, guarded, Shape
from .margin import call_guard
from ..expr import ind_eq

HALF = E(Fraction(1, 2))


class Sim(object):
    """vector algebra on functions of one index"""

    def __init__(self, W):
        self.W = W
        self.I = W.I
        self.D = W.D

    def arr(self, v):
        return self.I.new_arr([Axis.of(self.D)], lambda ix: v(ix[0]))

    def vec(self, a):
        c = self.I.snap(a)
        return lambda k: c.fn([k])

    def zero(self):
        return lambda k: ZERO

    def lin(self, *pairs):
        """sum of coefficient * vector, materialised on a generic index"""
        u = fresh_var(self.D)
        e = ZERO
        for c, v in pairs:
            e = e + E(c) * v(atom(u))
        return lambda k: subst(e, {u: k})

    def dot(self, a, b):
        u = fresh_var(self.D)
        return sum_over([u], a(atom(u)) * b(atom(u)))

    def item(self, k):
        W = self.W
        return W.item(W.X, E(k)), W.item(W.Y, E(k))

    def psi(self, x, y, yt=None):
        return self.vec(self.W.m_call('joint_feature', x, y, *(
            [yt] if self.W.rescale else [])))

    def laug(self, x, y, w):
        return self.W.m_call('loss_augmented_inference', x, y, self.arr(w),
                             relaxed=Const(True))

    def num(self, name, *a):
        return num_of(self.I, self.W.m_call(name, *a))

    def constraint(self, x, y, w, latent=False):
        h = self.W.m_call('latent', x, y, self.arr(w)) if latent else y
        yh = self.laug(x, h, w)
        d = self.lin((1, self.psi(x, h, y)), (-1, self.psi(x, yh, y)))
        loss = self.num('loss', h, yh)
        return yh, d, loss, loss - self.dot(w, d)

    def primal(self, w, C, n, latent=False):
        s = ZERO
        for k in range(n):
            x, y = self.item(k)
            sl = self.constraint(x, y, w, latent)[3]
            s = s + mk_fn('max2', [sl, ZERO])
        return C * s + HALF * self.dot(w, w)


def real_attr(W, name):
    return num_of(W.I, W.I.get_attr_raw(W.obj, name))


def vec_obl(rep, W, oid, wh, got, want, what):
    c = W.I.snap(got)
    if c.ndim != 1 or size_differs(c.axes[0].size, W.D):
        raise Shape('weights have the wrong shape')
    k = sym('i0', 0)
    eq_obl(rep, oid, wh, c.fn([k]), want(k), what)


def curve(W, name):
    v = W.I.get_attr_raw(W.obj, name)
    r = W.I.to_items(v)
    if r is None or r[0] != 'items':
        raise Opaque('curve %s is opaque' % name)
    return [num_of(W.I, x) for x in r[1]]


# -- subgradient -------------------------------------------------------------
# (samples, passes, averaging, decay, momentum, batch, jobs)
SUB = []
for _avg in (None, 'linear', 'squared'):
    for _decay in (0, 1):
        for _mom in (False, True):
            for _n, _T in ((2, 1), (1, 2)):
                SUB.append((_n, _T, _avg, _decay, _mom, None, 1))
for _b in (1, -1, 2):
    for _n, _T in ((1, 2), (3, 1)):
        SUB.append((_n, _T, None, 0, False, _b, 1))
        SUB.append((_n, _T, 'linear', 1, False, _b, 1))
for _n, _T in ((1, 2), (2, 1), (3, 1)):
    SUB.append((_n, _T, None, 0, False, None, 2))
    SUB.append((_n, _T, 'linear', 1, _n != 3, None, 2))


def later(jobs, P, f, oid, fn, *args):
    jobs.append((oid, lambda rp: guarded(
        rp, oid, lambda: fn(rp, P, f, oid, *args), f.qual)))


def sub_fit(jobs, P, tier):
    cls = P.cls('SubgradientSSVM')
    f = cls.find('fit') if cls else None
    if f is None:
        raise Broken('SubgradientSSVM.fit is gone')
    for i, c in enumerate(SUB):
        oid = 'subgradient:n%d:passes%d:avg-%s:decay%s:%s:batch-%s:jobs%d' % (
            c[0], c[1], c[2], c[3], 'momentum' if c[4] else 'plain', c[5],
            c[6])
        later(jobs, P, f, oid, one_sub, *c)


def objective_stub(P, cls):
    """the primal objective as an uninterpreted function of the stored
    weights (what it computes from them is decided separately, C15)"""
    f = P.cls(cls).find('_objective')
    if f is None:
        return {}

    def stub(I, fn, args, kw):
        w = I.get_attr_raw(args[0], 'w')
        if w is None:
            raise RaiseEvent('AttributeError: w')
        return Num(objective_of(arr_key(I.snap(w))), 'float')
    return {f.qual: stub}


def objective_of(key):
    return mk_fn('h:objective', [key])


def one_sub(rep, P, f, oid, n, T, avg, decay, mom, batch, jobs,
            cls='SubgradientSSVM', latent=False, auto=False,
            preset=True):
    par = dict(C=pos('C'), max_iter=T, break_on_no_constraints=False,
               momentum=real('mom') if mom else 0.0, decay_exponent=decay,
               decay_t0=pos('t0'), averaging=avg, n_jobs=jobs,
               batch_size=batch,
               learning_rate='auto' if auto else pos('eta'))
    W = LW(P, cls, par, n=E(n), concrete=n,
           hooks=objective_stub(P, cls))
    I = W.I
    S = Sim(W)
    if preset:
        w0 = W.w_arr('w0')
        I.set_attr(W.obj, 'w', w0)
        w = S.vec(w0)
    else:
        w = S.zero()
    ok, r = call_guard(rep, W, oid, f.qual,
                       lambda: W.call('fit', W.X, W.Y))
    if not ok:
        return
    rep.visited(I.visited)
    rep.rule('fit-unrolled')
    C = real_attr(W, 'C')
    mu = real_attr(W, 'momentum')
    t0 = real_attr(W, 'decay_t0')
    eta = C * E(n) if auto else real_attr(W, 'learning_rate')
    st = dict(t=0, g=S.zero(), w=w, avg=w)

    def step(d):
        t = E(st['t'])
        grad = S.lin((1, d), (-div_real(ONE, C * E(n)), st['w']))
        g = S.lin((ONE - mu, grad), (mu, st['g']))
        lr = eta if decay == 0 else div_real(eta, t + t0)
        w = S.lin((1, st['w']), (lr, g))
        if avg is None:
            a = w
        else:
            tt = st['t']
            rho = Fraction(2, tt + 2) if avg == 'linear' else Fraction(
                6 * (tt + 1), (tt + 2) * (2 * tt + 3))
            a = S.lin((1 - rho, st['avg']), (rho, w))
        st.update(t=tt + 1 if avg else st['t'] + 1, g=g, w=w, avg=a)
    objs = []
    for it in range(T):
        if jobs != 1:
            nb = -(-n // jobs)
            for lo, hi in parts(n, nb):
                acc = S.zero()
                for k in range(lo, hi):
                    x, y = S.item(k)
                    _, d, loss, sl = S.constraint(x, y, st['w'], latent)
                    if latent:
                        acc = S.lin((1, acc), (Fraction(1, hi - lo), d))
                    else:
                        acc = S.lin((1, acc), (ind_gt0(
                            mk_fn('max2', [sl, ZERO])), d))
                step(acc)
        elif batch in (None, 1):
            for k in range(n):
                x, y = S.item(k)
                step(S.constraint(x, y, st['w'], latent)[1])
        else:
            nb = 1 if batch == -1 else -(-n // batch)
            for lo, hi in parts(n, nb):
                acc = S.zero()
                for k in range(lo, hi):
                    x, y = S.item(k)
                    acc = S.lin((1, acc), (Fraction(1, hi - lo),
                                S.constraint(x, y, st['w'])[1]))
                step(acc)
        objs.append(st['avg'])
    vec_obl(rep, W, oid + ':weights', f.qual, W.attr('w'), st['avg'],
            'final weights = the documented updates')
    oc = curve(W, 'objective_curve_')
    if len(oc) != T + 1:
        rep.violate(oid + ':curve', f.qual, 'objective curve has %d entries '
                    'after %d passes, expected one per pass and a final one'
                    % (len(oc), T))
        return
    if not W.I.hooks:
        return
    for k, v in enumerate(objs + [st['avg']]):
        if latent and k < T:
            continue
        eq_obl(rep, oid + ':objective-%d' % k, f.qual, oc[k], objective_of(
            arr_key(I.snap(S.arr(v)))), 'objective entry %d = objective at '
            'the weights stored then' % k)


def parts(n, k):
    start = 0
    for p in range(k):
        m = n // k + (1 if p < n % k else 0)
        if m:
            yield start, start + m
            start += m


def sub_latent(todo, P, tier):
    cls = P.cls('SubgradientLatentSSVM')
    f = cls.find('fit') if cls else None
    if f is None:
        raise Broken('SubgradientLatentSSVM.fit is gone')
    for n, T in ((2, 1), (1, 2)):
        for avg in (None, 'linear'):
            for jobs in (1, 2):
                for decay in (0, 1):
                    oid = 'latent-subgradient:n%d:passes%d:avg-%s:jobs%d:' \
                        'decay%d' % (n, T, avg, jobs, decay)
                    later(todo, P, f, oid, one_sub, n, T, avg, decay, False,
                          None, jobs, 'SubgradientLatentSSVM', True)


# -- block-coordinate Frank-Wolfe --------------------------------------------
EPS = E(Fraction('1e-15'))
FW = []
for _n, _T in ((2, 1), (1, 2)):
    for _ls in (True, False):
        for _avg in (True, False):
            for _meth in ('seq', 'perm', 'rnd'):
                for _dual in (0, 1):
                    if _meth != 'seq' and (_dual or _n == 1):
                        continue
                    if _dual and _T == 2:
                        continue
                    FW.append((_n, _T, _ls, _avg, _meth, _dual, False))
FW += [(3, 1, False, True, 'seq', 0, False), (3, 1, False, False, 'perm', 0,
                                              False)]
FW += [(1, 3, False, True, 'seq', 0, False)]
for _n in (1, 2):
    for _ls in (True, False):
        FW.append((_n, 1, _ls, False, 'seq', 0, True))
FW.append((1, 2, False, False, 'seq', 0, True))


def clip(g):
    return mk_fn('max2', [ZERO, mk_fn('min2', [ONE, g])])


def fw_fit(jobs, P, tier):
    cls = P.cls('FrankWolfeSSVM')
    f = cls.find('fit') if cls else None
    if f is None:
        raise Broken('FrankWolfeSSVM.fit is gone')
    for c in FW:
        if tier == 'quick' and c[2] and (c[4] == 'rnd' or c[0] == 1 and
                                         c[1] == 2):
            continue
        oid = 'frankwolfe:n%d:passes%d:%s:%s:%s:dual-%s:%s' % (
            c[0], c[1], 'line-search' if c[2] else 'fixed-steps',
            'averaged' if c[3] else 'last', c[4], c[5],
            'batch' if c[6] else 'online')
        later(jobs, P, f, oid, one_fw, *c)


def one_fw(rep, P, f, oid, n, T, ls, avg, meth, dual, batch):
    par = dict(C=pos('C'), max_iter=T, line_search=ls, do_averaging=avg,
               sample_method=meth, check_dual_every=dual, tol=real('tol'),
               batch_mode=batch)
    W = LW(P, 'FrankWolfeSSVM', par, n=E(n), concrete=n,
           hooks=objective_stub(P, 'FrankWolfeSSVM'))
    I = W.I
    S = Sim(W)
    ok, r = call_guard(rep, W, oid, f.qual,
                       lambda: W.call('fit', W.X, W.Y))
    if not ok:
        return
    rep.visited(I.visited)
    rep.rule('fit-unrolled')
    C = real_attr(W, 'C')
    tol = real_attr(W, 'tol')
    w, wavg = S.zero(), S.zero()
    wm = [S.zero() for _ in range(n)]
    lm = [ZERO] * n
    l = lavg = ZERO
    duals = []
    k = 0
    if batch:
        going, res = ONE, None
        for it in range(T):
            acc, lacc = S.zero(), ZERO
            for j in range(n):
                x, y = S.item(j)
                _, d, loss, _ = S.constraint(x, y, w)
                acc = S.lin((1, acc), (1, d))
                lacc = lacc + loss
            ws = S.lin((C, acc))
            lsm = lacc * Fraction(1, n)
            dw = S.lin((1, w), (-1, ws))
            gap = div_real(S.dot(dw, w), C * E(n)) - l + lsm
            if ls:
                g = clip(div_real(gap, div_real(S.dot(dw, dw), C * E(n)) +
                                  EPS))
            else:
                g = E(Fraction(2, it + 2))
            duals.append(-HALF * S.dot(w, w) + l * C * E(n))
            w = S.lin((ONE - g, w), (g, ws))
            l = (ONE - g) * l + g * lsm
            res = w if res is None else S.lin((ONE - going, res), (going, w))
            going = going * (ONE - ind_gt0(tol - gap))
        wavg = res
    else:
        for it in range(T):
            order = {'seq': range(n), 'perm': range(n - 1, -1, -1),
                     'rnd': [0] * n}[meth]
            for i in order:
                x, y = S.item(i)
                _, d, loss, _ = S.constraint(x, y, w)
                ws = S.lin((C, d))
                lsi = loss * Fraction(1, n)
                if ls:
                    dw = S.lin((1, wm[i]), (-1, ws))
                    g = clip(div_real(
                        S.dot(dw, w) - C * E(n) * (lm[i] - lsi),
                        S.dot(dw, dw) + EPS))
                else:
                    g = E(Fraction(2 * n, k + 2 * n))
                new = S.lin((ONE - g, wm[i]), (g, ws))
                w = S.lin((1, w), (-1, wm[i]), (1, new))
                wm[i] = new
                nl = (ONE - g) * lm[i] + g * lsi
                l = l - lm[i] + nl
                lm[i] = nl
                if avg:
                    rho = Fraction(2, k + 2)
                    wavg = S.lin((1 - rho, wavg), (rho, w))
                    lavg = lavg * (1 - rho) + l * rho
                else:
                    wavg, lavg = w, l
                k += 1
            if dual:
                duals.append(-HALF * S.dot(wavg, wavg) + lavg * C * E(n))
    vec_obl(rep, W, oid + ':weights', f.qual, W.attr('w'), wavg,
            'final weights = the Frank-Wolfe updates')
    if not (batch and T > 1):
        oc = curve(W, 'objective_curve_')
        if duals and not (ls and dual):
            eq_obl(rep, oid + ':dual', f.qual, oc[0], duals[0],
                   'dual objective w.r.t. the weights')
    if W.I.hooks and not (batch and T > 1):
        pc = curve(W, 'primal_objective_curve_')
        eq_obl(rep, oid + ':objective', f.qual, pc[-1], objective_of(
            arr_key(I.snap(S.arr(wavg)))), 'last primal objective = '
            'objective at the final weights')


# -- perceptron --------------------------------------------------------------
PERC = []
for _n, _T in ((2, 1), (1, 2)):
    for _b in (False, True):
        for _avg in (False, True, 1, -1):
            for _decay in (0, 1, -1):
                if _n == 2 and _avg == 1 and _avg is not True:
                    continue
                PERC.append((_n, _T, _b, _avg, _decay))


def perceptron_fit(jobs, P, tier):
    cls = P.cls('StructuredPerceptron')
    f = cls.find('fit') if cls else None
    if f is None:
        raise Broken('StructuredPerceptron.fit is gone')
    for c in PERC:
        if tier == 'quick' and type(c[3]) is int and c[3] == 1 and c[4]:
            continue
        oid = 'perceptron:n%d:passes%d:%s:average-%s:decay%d' % (
            c[0], c[1], 'batch' if c[2] else 'online', c[3], c[4])
        later(jobs, P, f, oid, one_perc, *c)


def one_perc(rep, P, f, oid, n, T, batch, avg, decay):
    par = dict(max_iter=T, batch=batch, average=avg, decay_exponent=decay,
               decay_t0=pos('t0'))
    W = LW(P, 'StructuredPerceptron', par, n=E(n), concrete=n)
    I = W.I
    S = Sim(W)
    ok, r = call_guard(rep, W, oid, f.qual,
                       lambda: W.call('fit', W.X, W.Y))
    if not ok:
        return
    rep.visited(I.visited)
    rep.rule('fit-unrolled')
    t0 = real_attr(W, 'decay_t0')
    w = S.zero()
    bar, nobs = S.zero(), 0
    going = ONE
    res = None
    for it in range(T):
        lr = ONE if decay == 0 else (t0 + E(it)) if decay == 1 else div_real(
            ONE, t0 + E(it))
        if avg == -1:
            bar, nobs = S.zero(), 0
        active = avg is not False and (avg is True or it >= avg)
        tot = ZERO
        start = w
        for j in range(n):
            x, y = S.item(j)
            yh = W.m_call('inference', x, S.arr(start if batch else w))
            loss = S.num('loss', y, yh)
            tot = tot + loss
            d = S.lin((1, S.psi(x, y)), (-1, S.psi(x, yh)))
            w = S.lin((1, w), (lr * (ONE - ind_eq(loss, ZERO)), d))
            if not batch and active:
                nobs += 1
                bar = S.lin((1 - Fraction(1, nobs), bar),
                            (Fraction(1, nobs), w))
        if batch and active:
            nobs += 1
            bar = S.lin((1 - Fraction(1, nobs), bar), (Fraction(1, nobs), w))
        out = w if avg is False else bar
        res = out if res is None else S.lin((ONE - going, res), (going, out))
        mx = ZERO
        for j in range(n):
            mx = mx + S.num('max_loss', S.item(j)[1])
        frac = div_real(tot, mx)
        if it == 0:
            lc = curve(W, 'loss_curve_') if T == 1 else None
            if lc:
                eq_obl(rep, oid + ':loss', f.qual, lc[0], frac,
                       'recorded loss = loss of the pass / maximal loss')
        going = going * (ONE - ind_eq(frac, ZERO))
    vec_obl(rep, W, oid + ':weights', f.qual, W.attr('w'), res,
            'final weights = the perceptron updates')
