"""C07, C08, C22: what a learner remembers.

Every obligation compares two uses of the same learner code (a used learner
with a fresh one, one with several jobs with one with a single job, the
hyper-parameters before and after) under the same decisions; there is no
reference program."""
import ast
from .paths import *
from .train import (LW, n_state, N_OUT, ONE_OUT, list_attr, num, CAP,
                    mk_list, pos, opaque_items, opt, lengths)
from ..vals import *
from .rel import TRUST
from .base import Broken, guarded, spread

OUT = dict(NSlackSSVM=N_OUT, OneSlackSSVM=ONE_OUT,
           StructuredPerceptron=('loss_curve_',),
           FrankWolfeSSVM=('objective_curve_', 'primal_objective_curve_',
                           'loss_curve_', 'l'),
           SubgradientSSVM=('objective_curve_', 'loss_curve_'),
           SubgradientLatentSSVM=('objective_curve_',),
           LatentSSVM=())

BASE = dict(C=pos, tol=pos, inactive_window=0)


def params(d):
    out = dict(C=pos('C'), tol=pos('tol'), inactive_window=0)
    out.update(d)
    return out


def task_hooks():
    """joblib with worker processes: a task sees a copy of everything, only
    its result comes back"""
    def delayed(I, args, kw):
        f = args[0]

        def later(I, a, k):
            return ModelFn(lambda I, _a, _k: I.call(f, list(a), dict(k)),
                           'task')
        return ModelFn(later, 'delayed')

    def parallel(I, args, kw):
        n = kw.get('n_jobs', args[0] if args else None)
        one = n is None or n is NONE or (
            isinstance(n, Num) and n.e == ONE) or (
            isinstance(n, Const) and n.v == 1)

        def go(I, a, k):
            it = I.to_items(a[0]) if not isinstance(a[0], Unk) else None
            if it is None or it[0] != 'items':
                return Unk('tasks of unknown number')
            out = []
            for t in it[1]:
                old = dict(I.heap)
                r = I.call(t, [], {})
                if not one:
                    I.heap.update(old)
                out.append(r)
            return mk_list(I, out)
        return ModelFn(go, 'Parallel')
    return {'joblib.Parallel': parallel, 'joblib.delayed': delayed,
            'sklearn.externals.joblib.Parallel': parallel,
            'sklearn.externals.joblib.delayed': delayed}


def world(P, cls, par, n, **kw):
    hooks = kw.pop('ext_hooks', None)
    return LW(P, cls, params(par), n=E(n), concrete=n, nonneg=True,
              ext_hooks=hooks, **kw)


def state(W, o, cls):
    s = [flatten(W.I, W.I.attr(o, 'w'))]
    for a in OUT[cls]:
        v = W.I.get_attr_raw(o, a)
        if v is None and W.I.c(o).cls.find_attr(a):
            v = W.I.attr(o, a)
        s.append([] if v is None or v is NONE else flatten(W.I, v))
    return s


def fresh(W, P, cls, par):
    """another learner over the same model"""
    I = W.I
    k = P.cls(cls)
    init = k.find('__init__')
    names = init.params()[1:]
    kw = {p: v if not isinstance(v, (bool, int, float, str, type(None)))
          else lift(v) for p, v in params(par).items() if p in names}
    return I.instantiate(k, [W.model], kw)


# -- C08 -----------------------------------------------------------------------
REFIT = []
for _n0, _n in ((1, 1), (2, 1), (1, 2)):
    REFIT += [
        ('NSlackSSVM', dict(max_iter=1), _n0, _n, {}),
        ('NSlackSSVM', dict(max_iter=2, batch_size=1, show_loss_every=1),
         _n0, _n, {}),
        ('OneSlackSSVM', dict(max_iter=1, show_loss_every=1), _n0, _n, {}),
        ('OneSlackSSVM', dict(max_iter=2, inference_cache=2), _n0, _n, {}),
        ('OneSlackSSVM', dict(max_iter=2, inference_cache=1,
                              cache_tol=None, check_constraints=True),
         _n0, _n, {}),
        ('StructuredPerceptron', dict(max_iter=1), _n0, _n, {}),
        ('StructuredPerceptron', dict(max_iter=2, average=True), _n0, _n,
         {}),
        ('StructuredPerceptron', dict(max_iter=1, average=-1, batch=True),
         _n0, _n, {}),
        ('FrankWolfeSSVM', dict(max_iter=1, sample_method='seq',
                                check_dual_every=1), _n0, _n, {}),
        ('FrankWolfeSSVM', dict(max_iter=1, sample_method='perm',
                                do_averaging=False, line_search=False,
                                check_dual_every=0), _n0, _n, {}),
        ('FrankWolfeSSVM', dict(max_iter=2, batch_mode=True,
                                line_search=False), _n0, _n, {}),
    ]
REFIT += [('NSlackSSVM', dict(max_iter=1, negativity_constraint=[0]), 2, 2,
           dict(rescale=True)),
          ('OneSlackSSVM', dict(max_iter=1, negativity_constraint=[0]), 2, 2,
           dict(rescale=True)),
          ('OneSlackSSVM', dict(max_iter=1), 2, 2, dict(marginals=True)),
          ('NSlackSSVM', dict(max_iter=2, inactive_window=2), 1, 2, {})]


REFIT += [(c, dict(p), 1, 1, {}, True) for c, p in (
    ('NSlackSSVM', dict(max_iter=1)),
    ('OneSlackSSVM', dict(max_iter=2, inference_cache=1)),
    ('FrankWolfeSSVM', dict(max_iter=1, sample_method='seq')),
    ('SubgradientSSVM', dict(max_iter=1)),
    ('StructuredPerceptron', dict(max_iter=1, average=True)))]


def refit_setup(P, cls, par, n0, n, kw, other=False):
    lists = {k: v for k, v in par.items() if isinstance(v, list)}
    plain = {k: v for k, v in par.items() if not isinstance(v, list)}
    W = world(P, cls, plain, n, **kw)
    I = W.I
    for k, v in lists.items():
        I.set_attr(W.obj, k, opt(I, v))
    X0 = opaque_items(I, 'X0', E(n0), n0)
    Y0 = opaque_items(I, 'Y0', E(n0), n0)
    def run():
        W.call('fit', X0, Y0)
        if other:
            # what the first learner did must not reach another one
            return ref()
        W.call('fit', W.X, W.Y)
        return state(W, W.obj, cls)

    def ref():
        o = fresh(W, P, cls, plain)
        for k, v in lists.items():
            I.set_attr(o, k, opt(I, v))
        I.call(I.attr(o, 'fit'), [W.X, W.Y], {})
        return state(W, o, cls)
    return W, run, ref


LATENT = [('LatentSSVM', dict(base=b, latent_iter=L), n, {})
          for b in ('NSlackSSVM', 'OneSlackSSVM')
          for L, n in ((1, 1), (2, 1), (1, 2))]


def latent_setup(P, cls, par, n, kw):
    base = par['base']
    W = world(P, base, dict(max_iter=1), n, **kw)
    I = W.I
    X0 = opaque_items(I, 'X0', E(n), n)
    Y0 = opaque_items(I, 'Y0', E(n), n)

    def make(o):
        return I.instantiate(P.cls(cls), [o], dict(
            latent_iter=num(par['latent_iter'])))

    def run():
        o = make(W.obj)
        I.call(I.attr(o, 'fit'), [X0, Y0], {})
        I.call(I.attr(o, 'fit'), [W.X, W.Y], {})
        return state(W, W.obj, base)

    def ref():
        b = fresh(W, P, base, dict(max_iter=1))
        I.call(I.attr(make(b), 'fit'), [W.X, W.Y], {})
        return state(W, b, base)
    return W, run, ref


def runs(rep, P, tier, tag, cfgs, setup, cap=60, seconds=12):
    jobs = []
    for c in cfgs:
        cls = c[0]
        k = P.cls(cls)
        f = k.find('fit') if k else None
        if f is None:
            raise Broken('%s.fit is gone' % cls)
        oid = '%s:%s:%s' % (tag, cls, ':'.join(
            ','.join('%s=%s' % kv for kv in x.items())
            if isinstance(x, dict) else str(x) for x in c[1:]))
        rep.rule('%s:%s' % (tag, cls))

        def job(rp, c=c, oid=oid, f=f):
            guarded(rp, oid, lambda: explore(
                rp, oid, f.qual, lambda: setup(P, *c),
                cap if tier == 'quick' else 400,
                seconds=seconds if tier == 'quick' else 60), f.qual)
        jobs.append((oid, job))
    spread(rep, jobs)


def check_refit(rep, P, tier):
    runs(rep, P, tier, 'refit', REFIT, refit_setup)
    runs(rep, P, tier, 'refit', LATENT, latent_setup)
    return rep.finish('other', TRUST, "A used learner and a fresh one are "
                      "interpreted on the same symbolic data under the same "
                      "decisions; the learned state must agree.", min_obl=20)


# -- C22 -----------------------------------------------------------------------
PAR = []
for _n in (1, 2):
    PAR += [('NSlackSSVM', dict(max_iter=2, batch_size=b), _n, {})
            for b in (1, -1)]
    PAR += [('NSlackSSVM', dict(max_iter=1, show_loss_every=1), _n, {}),
            ('OneSlackSSVM', dict(max_iter=2), _n, {}),
            ('OneSlackSSVM', dict(max_iter=2, show_loss_every=1,
                                  inference_cache=2), _n, {}),
            ('OneSlackSSVM', dict(max_iter=1), _n, dict(marginals=True)),
            ('OneSlackSSVM', dict(max_iter=1), _n, dict(rescale=True)),
            ('StructuredPerceptron', dict(max_iter=2, batch=True), _n, {}),
            ('StructuredPerceptron', dict(max_iter=1, batch=True,
                                          average=True), _n, {}),
            ('StructuredPerceptron', dict(max_iter=1), _n, {})]


def jobs_setup(P, cls, par, n, kw):
    W = world(P, cls, dict(par, n_jobs=2), n, ext_hooks=task_hooks(), **kw)
    I = W.I

    def use(o):
        I.call(I.attr(o, 'fit'), [W.X, W.Y], {})
        s = state(W, o, cls)
        s.append(flatten(I, I.call(I.attr(o, 'predict'), [W.X], {})))
        s.append(flatten(I, I.call(I.attr(o, 'score'), [W.X, W.Y], {})))
        return s

    def run():
        return use(W.obj)

    def ref():
        return use(fresh(W, P, cls, dict(par, n_jobs=1)))
    return W, run, ref


def predict_setup(P, cls, n, cons):
    W = world(P, cls, dict(n_jobs=2), n, ext_hooks=task_hooks())
    I = W.I
    I.set_attr(W.obj, 'w', W.w_arr())
    c = mk_list(I, [NONE if n > 1 and i == 0 else
                    mk_list(I, [W.arr('K', [E(i)], E(2))])
                    for i in range(n)])

    def use():
        kw = dict(constraints=c) if cons else {}
        return [flatten(I, W.call('predict', W.X, **kw)),
                flatten(I, W.call('score', W.X, W.Y))]

    def run():
        return use()

    def ref():
        I.set_attr(W.obj, 'n_jobs', num(1))
        return use()
    return W, run, ref


def primal_setup(P, cls, n, variant, resc):
    W = world(P, 'NSlackSSVM', {}, n, ext_hooks=task_hooks(), rescale=resc)
    I = W.I
    f = P.func('pystruct.utils.inference', 'objective_primal')

    def go(j):
        return [flatten(I, I.call_func(
            f, [W.model, W.w_arr(), W.X, W.Y, pos('C')],
            dict(variant=Const(variant), n_jobs=num(j))))]
    return W, lambda: go(2), lambda: go(1)


def check_jobs(rep, P, tier):
    runs(rep, P, tier, 'jobs', PAR, jobs_setup)
    runs(rep, P, tier, 'predict', [
        (c, n, k) for c in ('NSlackSSVM', 'SubgradientSSVM',
                            'StructuredPerceptron', 'SubgradientLatentSSVM')
        for n in (1, 3) for k in (False, True)
        if not (k and c == 'SubgradientLatentSSVM')], predict_setup)
    if P.func('pystruct.utils.inference', 'objective_primal'):
        runs(rep, P, tier, 'objective', [
            ('NSlackSSVM', n, v, r) for n in (1, 3)
            for v in ('n_slack', 'one_slack') for r in (False, True)],
            primal_setup)
    return rep.finish('other', TRUST, "The code is interpreted with several "
                      "jobs (a task works on a copy, only its result comes "
                      "back) and with one, under the same decisions.",
                      min_obl=20)


# -- C07 -----------------------------------------------------------------------
LEARNERS = ('NSlackSSVM', 'OneSlackSSVM', 'FrankWolfeSSVM', 'SubgradientSSVM',
            'SubgradientLatentSSVM', 'StructuredPerceptron', 'LatentSSVM')


def defaults(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    d = dict(zip(reversed(names), reversed(a.defaults)))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v})
    names += [k.arg for k in a.kwonlyargs]
    return names, d


def token(I, name, node):
    """values of the kind of the default"""
    try:
        d = ast.literal_eval(node)
    except (ValueError, TypeError, SyntaxError):
        return []
    if isinstance(d, bool):
        return [lift(not d), lift(d)]
    if isinstance(d, (int, float)):
        return [pos('given_' + name)]
    if isinstance(d, str):
        return [Const(d)]
    return [I.new_obj(None, {}), NONE]


def ident_of(I, v):
    if v is None or v is NONE:
        return ('const', None)
    if isinstance(v, (Num, Const, Tup)):
        return flatten(I, v)
    return ('object', getattr(v, 'loc', repr(v)))


def stored(rep, P, cls):
    k = P.cls(cls)
    init = k.find('__init__')
    if init is None:
        raise Broken('%s takes no parameters' % cls)
    names, d = defaults(init)
    for name in names:
        for j in range(2):
            oid = 'stored:%s:%s:%d' % (cls, name, j)

            def one(name=name, j=j, oid=oid):
                W = world(P, 'NSlackSSVM', {}, 1)
                I = W.I
                given = {}
                for p in names:
                    if p not in d:
                        given[p] = W.obj if p == 'base_ssvm' else W.model
                        continue
                    t = token(I, p, d[p])
                    if p == name:
                        if len(t) <= j:
                            return
                        given[p] = t[j]
                want = ident_of(I, given[name]) if name in given else None
                if want is None:
                    return
                o = I.instantiate(k, [], given)
                rep.visited(I.visited)
                try:
                    got = I.attr(o, name)
                except RaiseEvent as e:
                    rep.violate(oid, init.qual, '%s is not available as an '
                                'attribute after construction: %s' % (
                                    name, e.what))
                    return
                judge(rep, oid, init.qual, ident_of(I, got), want,
                      'parameter %s' % name)
            guarded(rep, oid, one, init.qual)


def judge(rep, oid, wh, got, want, what):
    if got == want:
        rep.proved(oid, what + ' is kept as given')
        return
    if got[0] == want[0] == 'object' if isinstance(got, tuple) and isinstance(
            want, tuple) else False:
        rep.violate(oid, wh, '%s is another object' % what)
        return
    m, pairs = differences(got, want, what)
    if m:
        rep.violate(oid, wh, m)
        return
    for w, a, b in pairs:
        if a.poisoned():
            rep.undecided(oid, '%s not analysed: %s' % (w, a.poisoned()[0]))
            return
    w = witness([], pairs, 60)
    if w:
        rep.violate(oid, wh, '%s is %s where %s was given' % (
            w[1][0], w[1][1], w[1][2]))
    elif not pairs:
        rep.proved(oid, what + ' is kept as given')
    else:
        rep.consistent(oid, what + ' is kept as given')


KEEP = []
for _n in (1, 2):
    KEEP += [('NSlackSSVM', dict(max_iter=2), _n, {}),
             ('NSlackSSVM', dict(max_iter=2, batch_size=100,
                                 check_constraints=True, show_loss_every=1),
              _n, {}),
             ('OneSlackSSVM', dict(max_iter=2, inference_cache=2), _n, {}),
             ('OneSlackSSVM', dict(max_iter=2, cache_tol=None), _n, {}),
             ('FrankWolfeSSVM', dict(max_iter=1, check_dual_every=1), _n,
              {}),
             ('FrankWolfeSSVM', dict(max_iter=2, batch_mode=True,
                                     line_search=False), _n, {}),
             ('SubgradientSSVM', dict(max_iter=1), _n, {}),
             ('SubgradientSSVM', dict(max_iter=1, learning_rate=1.0,
                                      averaging='linear', momentum=.5,
                                      shuffle=True), _n, {}),
             ('SubgradientSSVM', dict(max_iter=1, batch_size=-1), _n, {}),
             ('SubgradientSSVM', dict(max_iter=1, n_jobs=2), _n, {}),
             ('SubgradientLatentSSVM', dict(max_iter=1), _n, {}),
             ('SubgradientLatentSSVM', dict(max_iter=1, n_jobs=2), _n, {}),
             ('StructuredPerceptron', dict(max_iter=2, average=True), _n,
              {}),
             ('StructuredPerceptron', dict(max_iter=2, average=-1,
                                           batch=True), _n, {}),
             ('LatentSSVM', dict(latent_iter=2), _n, {})]


def keep_setup(P, cls, par, n, kw):
    base = 'NSlackSSVM' if cls == 'LatentSSVM' else cls
    W = world(P, base, dict(par, max_iter=par.get('max_iter', 1)), n, **kw)
    I = W.I
    o = W.obj
    if cls == 'LatentSSVM':
        o = I.instantiate(P.cls(cls), [W.obj], dict(
            latent_iter=num(par['latent_iter'])))
    names = defaults(P.cls(cls).find('__init__'))[0]
    if cls == 'LatentSSVM':
        names = names + ['C', 'n_jobs', 'model', 'verbose']
    before = []
    for nm in names:
        try:
            before.append((nm, ident_of(I, I.attr(o, nm))))
        except RaiseEvent:
            pass

    def run():
        I.call(I.attr(o, 'fit'), [W.X, W.Y], {})
        I.call(I.attr(o, 'predict'), [W.X], {})
        I.call(I.attr(o, 'score'), [W.X, W.Y], {})
        return [ident_of(I, I.attr(o, nm)) for nm, _ in before]

    def ref():
        return [v for _, v in before]
    return W, run, ref


def check_params(rep, P, tier):
    for cls in LEARNERS:
        if P.cls(cls) is None:
            raise Broken('%s is gone' % cls)
        rep.rule('stored:' + cls)
        stored(rep, P, cls)
    runs(rep, P, tier, 'kept', KEEP, keep_setup, cap=24, seconds=8)
    return rep.finish('other', TRUST, "Every constructor parameter is "
                      "followed from the argument to the attribute of that "
                      "name, and through fit, predict and score.",
                      min_obl=60)
