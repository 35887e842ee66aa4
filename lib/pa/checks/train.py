"""C15: cutting-plane training, path by path against the documented loop."""
from .paths import *
from .rel import TRUST
from .base import Broken, spread

REF = '''
import numpy as np
import cvxopt
import cvxopt.solvers


def plain(y):
    if isinstance(y, tuple):
        return y[0]
    return y


def feature_difference(model, x, y, y_hat, rescale):
    if rescale:
        return model.joint_feature(x, y, y) - model.joint_feature(x, y_hat, y)
    return model.joint_feature(x, y) - model.joint_feature(x, y_hat)


def constraint(model, x, y, w, rescale, y_hat=None):
    if y_hat is None:
        y_hat = model.loss_augmented_inference(x, y, w, relaxed=True)
    d = feature_difference(model, x, y, y_hat, rescale)
    if isinstance(y_hat, tuple):
        loss = model.continuous_loss(y, y_hat[0])
    else:
        loss = model.loss(y, y_hat)
    slack = max(loss - np.dot(w, d), 0)
    return y_hat, d, slack, loss


def primal(model, w, X, Y, C, rescale, one):
    total = 0
    for x, y in zip(X, Y):
        y_hat, d, slack, loss = constraint(model, x, y, w, rescale)
        total = total + slack
    return C * total + np.sum(w ** 2) / 2.


def training_loss(model, X, Y, w):
    losses = [model.loss(y, model.inference(x, w)) for x, y in zip(X, Y)]
    most = [model.max_loss(y) for y in Y]
    return 1 - (1. - np.sum(losses) / float(np.sum(most)))


def dual_n(constraints, C, neg):
    rows = np.vstack([c[1] for sample in constraints for c in sample])
    losses = np.array([c[2] for sample in constraints for c in sample])
    m = len(losses)
    blocks = np.zeros((len(constraints), m))
    k = 0
    for i, sample in enumerate(constraints):
        for c in sample:
            blocks[i, k] = 1
            k += 1
    h = [0.] * m + [C] * len(constraints)
    if neg is None:
        G = np.vstack((-np.identity(m), blocks))
    else:
        signs = np.array([rows[:, j] for j in neg])
        G = np.vstack((-np.identity(m), blocks, signs))
        h = h + [0.] * len(neg)
    sol = cvxopt.solvers.qp(cvxopt.matrix(np.dot(rows, rows.T)),
                            cvxopt.matrix(-losses), cvxopt.matrix(G),
                            cvxopt.matrix(np.array(h)))
    return -sol['primal objective'], np.dot(np.ravel(sol['x']), rows)


def dual_1(constraints, C, neg):
    rows = np.vstack([c[0] for c in constraints])
    losses = np.array([c[1] for c in constraints])
    m = len(losses)
    G = -np.identity(m)
    if neg is not None:
        G = np.vstack((G, np.array([rows[:, j] for j in neg])))
        h = np.zeros(m + len(neg))
    else:
        h = np.zeros(m)
    sol = cvxopt.solvers.qp(cvxopt.matrix(np.dot(rows, rows.T)),
                            cvxopt.matrix(-losses),
                            cvxopt.matrix(G), cvxopt.matrix(h),
                            cvxopt.matrix(np.ones((1, m))),
                            cvxopt.matrix([C]))
    return -sol['primal objective'], np.dot(np.ravel(sol['x']), rows)


def bad_n(w, y_hat, slack, old, check, break_on_bad):
    if slack < 1e-5:
        return True
    for c in old:
        if np.all(plain(y_hat) == plain(c[0])):
            return True
    if check:
        for c in old:
            s = max(c[2] - np.dot(w, c[1]), 0)
            if slack - s < -1e-5:
                if break_on_bad:
                    raise ValueError("bad inference")
                return True
    return False


def n_slack(model, X, Y, C, max_iter, batches, tol, check, break_on_bad,
            every, log, rescale, given, neg, to):
    w = np.zeros(model.size_joint_feature)
    cons = [[] for x in X]
    objective = 0
    if given is not None:
        cons = given
        if any(len(sample) > 0 for sample in cons):
            objective, w = dual_n(cons, C, neg)
    duals, primals, losses = [], [], []
    for it in range(max_iter):
        new = 0
        slacks = 0
        for batch in batches:
            found = [constraint(model, X[i], Y[i], w, rescale)
                     for i in batch]
            added = 0
            for i, (y_hat, d, slack, loss) in zip(batch, found):
                slacks = slacks + slack
                if not loss > 0:
                    continue
                if bad_n(w, y_hat, slack, cons[i], check, break_on_bad):
                    continue
                cons[i].append([y_hat, d, loss])
                added += 1
            if added:
                objective, w = dual_n(cons, C, neg)
            new += added
        duals.append(objective)
        if every and it % every == 0:
            losses.append(training_loss(model, X, Y, w))
        primals.append(C * slacks + np.sum(w ** 2) / 2.)
        done = new == 0
        if it > 1 and duals[-1] - duals[-2] < tol:
            done = True
        if done:
            if to is not None and model.inference_method != to:
                model.inference_method = to
                continue
            break
        if log is not None:
            log(it, w, objective)
    duals.append(objective)
    primals.append(primal(model, w, X, Y, C, rescale, False))
    if log is not None:
        log('final', w, objective)
    return w, cons, duals, primals, losses


def bad_1(w, violation, d, loss, last, old, tol, check, break_on_bad):
    if break_on_bad and violation - last < 0 and violation > 0:
        raise ValueError("bad inference")
    if violation - last < tol:
        return True
    for c in old:
        if np.all(c[0] == d) and c[1] == loss:
            return True
    if check:
        for c in old:
            v = max(c[1] - np.dot(w, c[0]), 0)
            if violation - v < -1e-5:
                if break_on_bad:
                    raise ValueError("bad inference")
                return True
    return False


def same(y, z):
    if isinstance(y, tuple):
        if isinstance(z, tuple):
            return np.all(y[0] == z[0]) and np.all(y[1] == z[1])
        return False
    return np.all(y == z)


def total(model, X, Y, Y_true, rescale):
    out = 0
    for x, y, t in zip(X, Y, Y_true):
        if rescale:
            out = out + model.joint_feature(x, y, t)
        else:
            out = out + model.joint_feature(x, y)
    return out


def sample_loss(model, y, y_hat):
    if isinstance(y_hat, tuple):
        return model.continuous_loss(y, y_hat[0])
    return model.loss(y, y_hat)


def one_slack(model, X, Y, C, max_iter, tol, check, break_on_bad, every, log,
              rescale, neg, to, size, cache_tol, state, soft):
    n = len(X)
    gap_tol = tol if cache_tol is None or cache_tol == 'auto' else cache_tol
    w = np.zeros(model.size_joint_feature)
    cons = [(np.zeros(model.size_joint_feature), 0)]
    duals, primals, flags, losses, memory = [], [], [], [], None
    if state is not None:
        duals, primals, flags, losses, memory = state[2:]
        if not soft:
            w, cons = state[0], state[1]
    objective = duals[-1] if duals else 0
    last = -1
    gt = total(model, X, Y, Y, rescale)
    for it in range(max_iter):
        found = None
        remembered = False
        if memory is not None and not (
                cache_tol == 'auto' and primals[-1] - duals[-1] < gap_tol):
            acc = 0
            loss = 0
            for sample in memory:
                values = [np.dot(f, w) + l for f, l, y in sample]
                f, l, y = sample[np.argmax(values)]
                acc = acc + f
                loss = loss + l
            d = (gt - acc) / n
            loss = loss / n
            v = loss - np.dot(w, d)
            if not bad_1(w, v, d, loss, last, cons, tol, check, False):
                found = (d, loss)
                remembered = True
        if found is None:
            Y_hat = [model.loss_augmented_inference(x, y, w, relaxed=True)
                     for x, y in zip(X, Y)]
            d = (gt - total(model, X, Y_hat, Y, rescale)) / n
            loss = 0
            for y, y_hat in zip(Y, Y_hat):
                loss = loss + sample_loss(model, y, y_hat)
            loss = loss / n
            v = loss - np.dot(w, d)
            if not bad_1(w, v, d, loss, last, cons, tol, check, break_on_bad):
                found = (d, loss)
                if size:
                    if memory is None:
                        memory = [[] for y in Y]
                    for sample, x, y, y_hat in zip(memory, X, Y, Y_hat):
                        there = False
                        for f, l, z in sample:
                            if same(y_hat, z):
                                there = True
                        if there:
                            continue
                        if len(sample) >= size:
                            sample.pop(0)
                        f = (model.joint_feature(x, y_hat, y) if rescale else
                             model.joint_feature(x, y_hat))
                        sample.append((f, sample_loss(model, y, y_hat),
                                       y_hat))
        if found is None:
            if to is not None and model.inference_method != to:
                model.inference_method = to
                continue
            break
        d, loss = found
        if every and it % every == 0:
            losses.append(training_loss(model, X, Y, w))
        cons.append((d, loss))
        p = C * n * max(loss - np.dot(w, d), 0) + np.sum(w ** 2) / 2.
        primals.append(p)
        flags.append(remembered)
        objective, w = dual_1(cons, C * n, neg)
        if cache_tol == 'auto' and not remembered:
            gap_tol = (p - objective) / 4
        last = 0
        for c in cons:
            last = max(last, c[1] - np.dot(w, c[0]))
        duals.append(objective)
        if log is not None:
            log(it, w, objective)
    primals.append(primal(model, w, X, Y, C, rescale, True))
    duals.append(objective)
    flags.append(False)
    if log is not None:
        log('final', w, objective)
    return w, cons, duals, primals, flags, losses, memory


def latent_n(model, X, Y, H, latent_iter, C, max_iter, batches, tol, log):
    cons = None
    w = None
    for it in range(latent_iter):
        if it > 0:
            new = [model.latent(x, y, w) for x, y in zip(X, Y)]
            moved = False
            for a, b in zip(new, H):
                if np.any(a != b):
                    moved = True
            if not moved:
                break
            old = cons
            cons = []
            for x, h, sample in zip(X, new, old):
                kept = []
                for c in sample:
                    y_hat, d, slack, loss = constraint(model, x, h, w, False,
                                                       c[0])
                    kept.append([y_hat, d, loss])
                cons.append(kept)
            H = new
        r = n_slack(model, X, H, C, max_iter, batches, tol, False, False, 0,
                    None, False, cons, None, None)
        w, cons = r[0], r[1]
        log(it, w)
    return w, cons


def latent_1(model, X, Y, H, latent_iter, C, max_iter, tol, log):
    state = None
    w = None
    for it in range(latent_iter):
        if it > 0:
            new = [model.latent(x, y, w) for x, y in zip(X, Y)]
            moved = False
            for a, b in zip(new, H):
                if np.any(a != b):
                    moved = True
            if not moved:
                break
            H = new
        state = one_slack(model, X, H, C, max_iter, tol, False, False, 0,
                          None, False, None, None, 0, 'auto', state, True)
        w = state[0]
        log(it, w)
    return w, state[1]
'''


def logger_of(W, rec, curve=True):
    """logger that records what it sees of the learner"""
    def fn(I, args, kw):
        o = args[0]
        r = [flatten(I, args[1]), flatten(I, I.attr(o, 'w'))]
        if curve:
            d = flatten(I, I.get_attr_raw(o, 'objective_curve_'))
            r.append(d[-1] if d else ('const', None))
        rec.append(r)
        return NONE
    return ModelFn(fn, 'logger')


def recorder(rec):
    def fn(I, args, kw):
        rec.append([flatten(I, a) for a in args])
        return NONE
    return ModelFn(fn, 'log')


def list_attr(W, name, obj=None):
    v = W.I.get_attr_raw(obj or W.obj, name)
    return [] if v is None or v is NONE else flatten(W.I, v)


def batches_of(n, b):
    k = 1 if b == -1 else -(-n // b)
    out, s = [], 0
    for p in range(k):
        m = n // k + (1 if p < n % k else 0)
        if m:
            out.append(list(range(s, s + m)))
        s += m
    return out


def ints(I, rows):
    return mk_list(I, [mk_list(I, [num(i) for i in r]) for r in rows])


def num(i):
    return Num(E(i), 'int')


def opt(I, v):
    if v is None:
        return NONE
    if isinstance(v, list):
        return mk_list(I, [num(i) for i in v])
    return Const(v)


def reset_model(W):
    W.I.set_attr(W.model, 'inference_method', Const('ad3'))


N_CFG = []
for _n, _T, _b in ((1, 1, 100), (2, 1, -1), (2, 1, 1), (2, 2, 100), (1, 3, 1),
                   (3, 1, 2), (3, 2, 2)):
    for _chk in (False, True):
        N_CFG.append(dict(n=_n, T=_T, b=_b, chk=_chk))
N_CFG += [dict(n=2, T=2, b=1, chk=True, bad=True),
          dict(n=2, T=1, b=-1, chk=False, rescale=True),
          dict(n=1, T=2, b=-1, chk=True, marg=True),
          dict(n=2, T=2, b=-1, chk=False, every=1),
          dict(n=1, T=3, b=-1, chk=False, every=2),
          dict(n=2, T=1, b=-1, chk=False, jobs=2),
          dict(n=1, T=2, b=-1, chk=False, neg=[0, 1]),
          dict(n=1, T=4, b=-1, chk=False, to='other'),
          dict(n=2, T=3, b=1, chk=False, to='other'),
          dict(n=1, T=4, b=1, chk=True),
          dict(n=1, T=2, b=-1, chk=False, again=True),
          dict(n=2, T=1, b=1, chk=True, again=True),
          dict(n=1, T=1, b=-1, chk=False, given=(2,)),
          dict(n=2, T=1, b=-1, chk=True, given=(1, 0)),
          dict(n=2, T=1, b=1, chk=False, given=(0, 2)),
          dict(n=2, T=1, b=1, chk=False, given=(0, 0))]


def n_world(P, c):
    par = dict(C=pos('C'), max_iter=c['T'], batch_size=c['b'],
               check_constraints=c['chk'], tol=pos('tol'), inactive_window=0,
               break_on_bad=c.get('bad', False),
               show_loss_every=c.get('every', 0), n_jobs=c.get('jobs', 1))
    W = LW(P, 'NSlackSSVM', par, n=E(c['n']), concrete=c['n'], nonneg=True,
           rescale=c.get('rescale', False), marginals=c.get('marg', False))
    I = W.I
    I.set_attr(W.obj, 'switch_to', opt(I, c.get('to')))
    I.set_attr(W.obj, 'negativity_constraint', opt(I, c.get('neg')))
    return W


def n_ref(W, R, c, given=None, log=None):
    I = W.I
    return I.call_func(R.names['n_slack'][1], [
        W.model, W.X, W.Y, pos('C'), num(c['T']),
        ints(I, batches_of(c['n'], c['b'])), pos('tol'), Const(c['chk']),
        Const(c.get('bad', False)), num(c.get('every', 0)), log or NONE,
        Const(c.get('rescale', False)), given or NONE, opt(I, c.get('neg')),
        opt(I, c.get('to'))], {})


N_OUT = ('constraints_', 'objective_curve_', 'primal_objective_curve_',
         'loss_curve_')


def n_state(W, obj=None, names=N_OUT):
    o = obj or W.obj
    return [flatten(W.I, W.I.attr(o, 'w'))] + [list_attr(W, a, o)
                                               for a in names]


def n_setup(P, R, c):
    W = n_world(P, c)
    I = W.I
    seen, seen2 = [], []
    log = not c.get('jobs')
    if log:
        I.set_attr(W.obj, 'logger', logger_of(W, seen))

    def given():
        if 'given' not in c:
            return None
        return mk_list(I, [mk_list(I, [mk_list(I, [
            W.arr('gy', [E(i), E(k)], W.m), W.arr('gd', [E(i), E(k)], W.D),
            Num(mk_fn('h:nn:gl', [E(i), E(k)]), 'float')])
            for k in range(m)]) for i, m in enumerate(c['given'])])

    def run():
        g = given()
        kw = {} if g is None else dict(constraints=g)
        r = W.call('fit', W.X, W.Y, **kw)
        s = n_state(W) + [list(seen), [('const', r == W.obj)]]
        if c.get('again'):
            W.call('fit', W.X, W.Y, constraints=W.attr('constraints_'))
            s += [n_state(W, None, ('constraints_',))]
        return s

    def ref():
        reset_model(W)
        del seen2[:]
        lg = recorder(seen2) if log else None
        r = n_ref(W, R, c, given(), lg)
        s = [flatten(I, x) for x in r.items] + [
            list(seen2), [('const', True)]]
        if c.get('again'):
            r = n_ref(W, R, c, r.items[1], lg)
            s += [[flatten(I, x) for x in r.items[:2]]]
        return s
    return W, run, ref


ONE_CFG = [dict(n=_n, T=_T, chk=_chk)
           for _n, _T in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (1, 3))
           for _chk in (False, True)]
ONE_CFG += [dict(n=1, T=3, chk=True, bad=True),
            dict(n=2, T=2, chk=False, rescale=True),
            dict(n=2, T=2, chk=False, marg=True),
            dict(n=2, T=2, chk=False, every=1),
            dict(n=1, T=3, chk=False, every=2),
            dict(n=2, T=2, chk=False, jobs=2),
            dict(n=1, T=2, chk=False, neg=[0, 1]),
            dict(n=1, T=4, chk=False, to='other'),
            dict(n=1, T=3, chk=False, cache=2, ct='auto'),
            dict(n=2, T=3, chk=False, cache=1, ct='auto'),
            dict(n=2, T=3, chk=False, cache=2, ct='auto'),
            dict(n=2, T=4, chk=False, cache=2, ct='auto'),
            dict(n=2, T=4, chk=True, cache=3, ct='par'),
            dict(n=2, T=3, chk=False, cache=2, ct=None),
            dict(n=1, T=3, chk=True, cache=1, ct='par'),
            dict(n=1, T=3, chk=False, cache=2, ct='par', rescale=True),
            dict(n=1, T=3, chk=False, cache=2, ct='par', marg=True),
            dict(n=1, T=2, chk=False, cache=1, ct='auto', again=True),
            dict(n=1, T=2, chk=False, again='soft'),
            dict(n=1, T=2, chk=False, again=True)]


def one_world(P, c):
    par = dict(C=pos('C'), max_iter=c['T'], check_constraints=c['chk'],
               tol=pos('tol'), inactive_window=0,
               break_on_bad=c.get('bad', False),
               show_loss_every=c.get('every', 0), n_jobs=c.get('jobs', 1),
               inference_cache=c.get('cache', 0))
    W = LW(P, 'OneSlackSSVM', par, n=E(c['n']), concrete=c['n'], nonneg=True,
           rescale=c.get('rescale', False), marginals=c.get('marg', False))
    I = W.I
    I.set_attr(W.obj, 'switch_to', opt(I, c.get('to')))
    I.set_attr(W.obj, 'negativity_constraint', opt(I, c.get('neg')))
    ct = c.get('ct', 'auto')
    I.set_attr(W.obj, 'cache_tol', pos('ctol') if ct == 'par' else opt(I, ct))
    return W


def lengths(v):
    return [('const', len(s)) if isinstance(s, list) else ('const', '?')
            for s in v] if isinstance(v, list) else [('const', '?')]


ONE_OUT = ('constraints_', 'objective_curve_', 'primal_objective_curve_',
           'cached_constraint_', 'loss_curve_')


def one_ref(W, R, c, log=None, state=None, soft=False):
    I = W.I
    ct = c.get('ct', 'auto')
    return I.call_func(R.names['one_slack'][1], [
        W.model, W.X, W.Y, pos('C'), num(c['T']), pos('tol'),
        Const(c['chk']), Const(c.get('bad', False)), num(c.get('every', 0)),
        log or NONE, Const(c.get('rescale', False)), opt(I, c.get('neg')),
        opt(I, c.get('to')), num(c.get('cache', 0)),
        pos('ctol') if ct == 'par' else opt(I, ct), state or NONE,
        Const(soft)], {})


def one_setup(P, R, c):
    W = one_world(P, c)
    I = W.I
    seen, seen2 = [], []
    log = not c.get('jobs')
    if log:
        I.set_attr(W.obj, 'logger', logger_of(W, seen))
    again = c.get('again')

    def kept():
        """how many results are remembered per sample"""
        v = I.get_attr_raw(W.obj, 'inference_cache_')
        if not c.get('cache'):
            return []
        return lengths(('const', None) if v is None else flatten(I, v))

    def out():
        return n_state(W, None, ONE_OUT) + [kept()]

    def run():
        r = W.call('fit', W.X, W.Y)
        s = [out(), [('const', r == W.obj)]]
        if again:
            W.call('fit', W.X, W.Y, warm_start=Const(again))
            s.append(out())
        return s + [list(seen)]

    def pick(r):
        return [flatten(I, x) for x in r.items[:6]] + [
            lengths(flatten(I, r.items[6])) if c.get('cache') else []]

    def ref():
        reset_model(W)
        del seen2[:]
        lg = recorder(seen2) if log else None
        r = one_ref(W, R, c, lg)
        s = [pick(r), [('const', True)]]
        if again:
            r = one_ref(W, R, c, lg, r, again == 'soft')
            s.append(pick(r))
        return s + [list(seen2)]
    return W, run, ref


LAT_CFG = [dict(base=b, n=n, L=L, T=T, b=-1)
           for b in ('NSlackSSVM', 'OneSlackSSVM')
           for n, L, T in ((1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 2, 1),
                           (1, 2, 2))]


def latent_setup(P, R, c):
    n = c['n']
    cc = dict(c, chk=False)
    mk = n_world if c['base'] == 'NSlackSSVM' else one_world
    W = mk(P, cc)
    I = W.I
    L = I.instantiate(P.cls('LatentSSVM'), [W.obj], dict(
        latent_iter=num(c['L'])))
    seen, seen2 = [], []
    I.set_attr(L, 'logger', logger_of(W, seen, False))

    def run():
        r = I.call(I.attr(L, 'fit'), [W.X, W.Y], {})
        s = [flatten(I, I.attr(L, 'w')), list_attr(W, 'constraints_'),
             list(seen), [('const', r == L)]]
        return s

    def ref():
        reset_model(W)
        del seen2[:]
        H = W.m_call('init_latent', W.X, W.Y)
        a = [W.model, W.X, W.Y, H, num(c['L']), pos('C'), num(c['T'])]
        if c['base'] == 'NSlackSSVM':
            a.append(ints(I, batches_of(n, c['b'])))
        a += [pos('tol'), recorder(seen2)]
        r = I.call_func(R.names['latent_n' if c['base'] == 'NSlackSSVM'
                                else 'latent_1'][1], a, {})
        s = [flatten(I, r.items[0]), flatten(I, r.items[1]), list(seen2),
             [('const', True)]]
        return s
    return W, run, ref


SETS = [('n-slack', 'NSlackSSVM', N_CFG, n_setup),
        ('1-slack', 'OneSlackSSVM', ONE_CFG, one_setup),
        ('latent', 'LatentSSVM', LAT_CFG, latent_setup)]


CAP = dict(quick=100)
SECONDS = dict(quick=15)


def training(rep, P, R, tier, sets):
    jobs = []
    for tag, cls, cfgs, setup in sets:
        k = P.cls(cls)
        f = k.find('fit') if k else None
        if f is None:
            raise Broken('%s.fit is gone' % cls)
        rep.rule('%s training' % tag)
        for c in cfgs:
            oid = tag + ':' + ':'.join('%s=%s' % kv for kv in c.items())

            def job(rp, c=c, oid=oid, setup=setup, f=f):
                guarded(rp, oid, lambda: explore(
                    rp, oid, f.qual, lambda: setup(P, R, c),
                    CAP.get(tier, 600),
                    seconds=SECONDS.get(tier, 90)), f.qual)
            jobs.append((oid, job))
    spread(rep, jobs)


def check(rep, P, tier):
    R = P.reference('reference', REF)
    training(rep, P, R, tier, SETS)
    return rep.finish('other', TRUST, "Training loops are interpreted along "
                      "combinations of outcomes of their undecided "
                      "conditions (a few samples and passes, everything else "
                      "symbolic) and compared with the documented loop under "
                      "the same decisions.", min_obl=60)
