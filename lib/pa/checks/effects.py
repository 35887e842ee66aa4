"""C05: operations leave what the caller passed in unchanged."""
from .relations import *
from .rel import cls_where, accepts, simplex_labels, fake_result
from .base import Broken, guarded

TRUST = ["numpy aliasing rules (views, copies, in-place operators) as "
         "modelled in lib/pa/npmodel.py",
         "compiled back-ends (AD3, OpenGM, QPBO, cvxopt) do not write their "
         "arguments"]


def owned_writes(I, mark):
    out = []
    for e in I.events[mark:]:
        if e['kind'] == 'write' and e.get('owners'):
            if e['guard'].const() == 0:
                continue
            out.append(e)
    return out


def report(rep, oid, I, mark, what, quiet=frozenset()):
    seen = set()
    bad = False
    for e in owned_writes(I, mark):
        for o in sorted(e['owners'] - quiet):
            k = (o, e['func'])
            if k in seen:
                continue
            seen.add(k)
            bad = True
            rep.violate("%s:%s" % (oid, o), e['func'] or '?',
                        "%s writes into the caller's %s (line %s, via %s)" % (
                            what, o, e['line'], ' > '.join(
                                s.split(':')[-1] for s in e['stack'])))
    return bad


def run_one(rep, oid, W, f, what):
    I = W.I
    mark = len(I.events)
    depth = len(I.stack)
    heap = I.heap
    note = ''
    try:
        f()
    except (RaiseEvent, Abort) as e:
        del I.stack[depth:]
        note = ' (analysis ends in: %s)' % (e,)
    bad = report(rep, oid, I, mark, what)
    if not bad:
        if note:
            rep.undecided(oid, note)
        else:
            rep.proved(oid, what + ': no write reaches an argument')
    I.heap = heap


def models(rep, P, cfgs):
    for c in cfgs:
        def go(c=c):
            W = World(P, c)
            x, w, y = W.make_x(), W.make_w(), W.make_y()
            yh = W.make_y('yh', 'y_hat')
            base = 'unchanged-arguments:%s' % c.name
            fam = c.opt('family')
            flat_model = fam in ('multiclass', 'binary')
            kwt = {}
            if (c.opt('args') or {}).get('rescale_C'):
                kwt['y_true'] = yh
            if not flat_model:
                W.dispatch_result = fake_result(W, 'hard')
            ops = [('joint_feature', [x, y], kwt), ('inference', [x, w], {}),
                   ('loss_augmented_inference', [x, y, w], {}),
                   ('loss', [y, yh], {}), ('max_loss', [y], {})]
            for name, args, kw in ops:
                if name == 'max_loss' and flat_model:
                    continue
                run_one(rep, base + ':' + name, W,
                        lambda: W.call(name, *args, **kw), name + '()')
            if not flat_model and W.rec:
                rec = W.rec[-1]

                def relaxed():
                    q = relaxed_labels(W, rec)
                    mark_owned(I=W.I, q=q)
                    run_one(rep, base + ':joint_feature:relaxed', W,
                            lambda: W.call('joint_feature', x, q),
                            'joint_feature() of marginals')
                    run_one(rep, base + ':loss:relaxed', W,
                            lambda: W.call('loss', y, q),
                            'loss() of marginals')
                guarded(rep, base + ':relaxed', relaxed)
            if W.cls.find('latent') and fam in ('latentgraph', 'latentnode'):
                yl = latent_targets(W)
                run_one(rep, base + ':latent', W,
                        lambda: W.call('latent', x, yl, w), 'latent()')
                run_one(rep, base + ':label_from_latent', W,
                        lambda: W.call('label_from_latent', y),
                        'label_from_latent()')
            # batches and initialisation
            X = W.I.alloc(ListC([('v', x), ('v', x)], frozenset(['X'])))
            Y = W.I.alloc(ListC([('v', y), ('v', y)], frozenset(['Y'])))
            if not flat_model:
                for name, args in (('batch_joint_feature', [X, Y]),
                                   ('batch_inference', [X, w]),
                                   ('batch_loss_augmented_inference',
                                    [X, Y, w]),
                                   ('batch_loss', [Y, Y]),
                                   ('initialize', [X, Y])):
                    run_one(rep, base + ':' + name, W,
                            lambda: W.call(name, *args), name + '()')
            else:
                XX = W.I.input_arr('X', [sym('B', 1), W.F], owners='X')
                if fam == 'binary':
                    b = W.I.input_arr('Y', [sym('B', 1)], lo=0, hi=2,
                                      dtype='int', owners='Y')
                    bc = W.I.snap(b)
                    YY = W.I.new_arr(bc.axes, lambda i: 2 * bc.fn(i) - 1,
                                     'int', frozenset(['Y']))
                else:
                    YY = W.I.input_arr('Y', [sym('B', 1)], lo=0, hi=W.S,
                                       dtype='int', owners='Y')
                kwb = {}
                if kwt:
                    kwb['Y_true'] = YY
                for name, args, kw in (
                        ('batch_joint_feature', [XX, YY], kwb),
                        ('batch_inference', [XX, w], {}),
                        ('batch_loss_augmented_inference', [XX, YY, w], {}),
                        ('batch_loss', [YY, YY], {}),
                        ('initialize', [XX, YY], {})):
                    run_one(rep, base + ':' + name, W,
                            lambda: W.call(name, *args, **kw), name + '()')
            rep.visited(W.I.visited)
            rep.rule('unchanged-arguments')
        guarded(rep, 'unchanged-arguments:%s' % c.name, go)


def mark_owned(I, q):
    pass


def latent_targets(W):
    I = W.I
    if W.cfg.opt('layout') == 'grid':
        return I.input_arr('yl', [W.R, W.Co], lo=0, hi=W.L, dtype='int',
                           owners='y')
    n = W.V if W.cfg.opt('family') == 'latentnode' else W.N
    return I.input_arr('yl', [n], lo=0, hi=W.L, dtype='int', owners='y')


def check(rep, P, tier):
    from .models import ALL
    models(rep, P, ALL)
    return rep.finish(
        'other', TRUST, "Every in-place store reached from a public operation "
        "is traced, through views and aliases, to the array or list it "
        "modifies; a store that reaches an argument of the caller is a "
        "violation.", min_obl=50)
