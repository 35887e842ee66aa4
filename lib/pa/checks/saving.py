"""C19: SaveLogger stores the learner, nothing else, and leaves it alone;
learners report to their logger."""
from .paths import *
from .relations import *
from .rel import TRUST, definite_faults
from .sizes import LEARNERS
from .base import Broken, guarded, spread
from ..expr import compare
from ..interp import Interp, RaiseEvent


class Disk(object):
    """records what is opened and dumped; may fail on the dump or the open"""
    def __init__(self, P, fail=None, cache=True, name='model.pickle',
                 save_every=None):
        self.fail = fail
        self.log = []
        hooks = {'builtins.open': self.open, 'io.open': self.open}
        for m in ('pickle', 'cPickle', '_pickle'):
            hooks[m + '.dump'] = self.dump
            hooks[m + '.load'] = self.load
        self.I = I = Interp(P, ext_hooks=hooks)
        k = P.cls('SaveLogger')
        kw = dict(file_name=Const(name))
        if save_every is not None:
            kw['save_every'] = Num(E(save_every), 'int')
        self.wh = k.name
        self.L = I.instantiate(k, [], kw)
        attrs = dict(w=I.input_arr('w', [sym('D', 1)], owners='learner'),
                     objective_curve_=I.alloc(ListC([('v', Num(sym('o')))])),
                     C=Num(sym('C')))
        if cache:
            attrs['inference_cache_'] = I.alloc(ListC([
                ('v', Const('cached %d' % i)) for i in range(2)]))
        self.o = I.new_obj(P.cls('BaseSSVM'), attrs)
        self.before = dict(I.c(self.o).attrs)

    def open(self, I, args, kw):
        name = args[0] if args else kw.get('file', kw.get('name'))
        mode = args[1] if len(args) > 1 else kw.get('mode', Const('r'))
        if self.fail == 'open':
            raise RaiseEvent('OSError')
        nm = getattr(name, 'v', None)
        f = Const(('file', None if nm == '<str>' else nm,
                   getattr(mode, 'v', None)))
        self.log.append(('open', f.v[1], f.v[2]))
        return f

    def dump(self, I, args, kw):
        o = args[0] if args else kw.get('obj')
        f = args[1] if len(args) > 1 else kw.get('file')
        at = None
        if getattr(o, 'loc', None) is not None and hasattr(I.c(o), 'attrs'):
            at = dict(I.c(o).attrs)
        if at is not None:
            c = at.get('inference_cache_')
            if I.is_list(c) and I.c(c).parts:
                at['inference_cache_'] = self.before['inference_cache_'] \
                    if 'inference_cache_' in self.before else c
        self.log.append(('dump', o, f, at))
        if self.fail == 'dump':
            raise RaiseEvent('PicklingError')
        return NONE

    def load(self, I, args, kw):
        self.log.append(('load', args[0] if args else kw.get('file')))
        return self.o

    def run(self, f):
        I = self.I
        try:
            self.value = f()
        except RaiseEvent as e:
            del I.stack[:]
            return e.what
        return None

    def of(self, kind):
        return [e for e in self.log if e[0] == kind]


def same(a, b):
    if a is b:
        return True
    if getattr(a, 'loc', None) is not None:
        return a.loc == getattr(b, 'loc', None)
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v == b.v
    if isinstance(a, Num) and isinstance(b, Num):
        return a.e == b.e
    return False


def saves(d):
    """1, 0 or None (unclear) saves happened"""
    o, k = len(d.of('open')), len(d.of('dump'))
    if o == k and o in (0, 1):
        return o
    return None


def where(P):
    f = P.cls('SaveLogger').find('__call__')
    if f is None:
        raise Broken('SaveLogger.__call__ is gone')
    return f.qual


def when(rep, P):
    wh = where(P)
    for s in (None, 1, 2, 3, 10, 7):
        for it in list(range(0, 22)) + ['final', None]:
            every = 10 if s is None else s
            oid = 'when:save_every=%s:%s' % (s, it)

            def go():
                d = Disk(P, save_every=s)
                args = [d.o]
                if it is not None:
                    args.append(Const(it) if it == 'final' else
                                Num(E(it), 'int'))
                r = d.run(lambda: d.I.call(d.L, args, {}))
                rep.visited(d.I.visited)
                want = int(it in ('final', None) or it % every == 0)
                if r is not None:
                    rep.violate(oid, wh, 'iteration %s, save_every %s: fails '
                                'with %s' % (it, every, r))
                    return
                got = saves(d)
                if got is None or d.I.gap_notes and got != want:
                    rep.undecided(oid, 'saving not understood')
                elif got != want:
                    rep.violate(oid, wh, 'iteration %s with save_every=%d: '
                                'learner is %s' % (it, every, 'saved'
                                if got else 'not saved'))
                else:
                    rep.proved(oid, 'saved' if want else 'not saved')
            guarded(rep, oid, go, wh)


def names(rep, P):
    wh = where(P)
    for name in ('model.pickle', 'model_%d.pickle', '%d', 'a%d/b.pickle'):
        for it in (0, 20, 130, 'final'):
            oid = 'name:%s:%s' % (name, it)

            def go():
                d = Disk(P, name=name)
                r = d.run(lambda: d.I.call(d.L, [d.o, Const(it)
                          if it == 'final' else Num(E(it), 'int')], {}))
                rep.visited(d.I.visited)
                want = name.replace('%d', str(it))
                if r is not None:
                    rep.violate(oid, wh, 'saving to %s at iteration %s fails '
                                'with %s' % (name, it, r))
                    return
                o = d.of('open')
                if len(o) != 1 or o[0][1] is None:
                    rep.undecided(oid, 'no file opened')
                elif o[0][1] != want:
                    rep.violate(oid, wh, 'file %r is written instead of %r' %
                                (o[0][1], want))
                elif o[0][2] is not None and ('w' not in o[0][2] or
                                              'b' not in o[0][2]):
                    rep.violate(oid, wh, 'file is opened with mode %r' % (
                        o[0][2],))
                else:
                    x = d.I.attr(d.L, 'file_name')
                    if isinstance(x, Const) and x.v != name:
                        rep.violate(oid, wh, 'file_name becomes %r' % (x.v,))
                    else:
                        rep.proved(oid, want)
            guarded(rep, oid, go, wh)


def content(rep, P):
    f = P.cls('SaveLogger').find('save')
    if f is None:
        raise Broken('SaveLogger.save is gone')
    wh = f.qual
    for cache in (True, False):
        for fail in (None, 'dump', 'open'):
            for how in ('save', 'call'):
                oid = 'content:%s:%s:%s' % (
                    'cache' if cache else 'plain', fail or 'works', how)

                def go():
                    d = Disk(P, fail, cache)
                    I = d.I
                    if how == 'save':
                        r = d.run(lambda: I.call(I.attr(d.L, 'save'), [
                            d.o, Const('m')], {}))
                    else:
                        r = d.run(lambda: I.call(d.L, [d.o], {}))
                    rep.visited(I.visited)
                    if fail is None and r is not None:
                        rep.violate(oid, wh, 'saving fails with %s' % r)
                        return
                    now = I.c(d.o).attrs
                    bad = [a for a in set(now) | set(d.before)
                           if a not in now or a not in d.before or
                           not same(now[a], d.before[a])]
                    unk = [a for a in bad if isinstance(
                        now.get(a), (Unk, Phi))]
                    if unk:
                        rep.undecided(oid, 'attributes after saving')
                    elif bad:
                        rep.violate(oid, wh, 'the learner is left with '
                                    'changed %s%s' % (
                                        ', '.join(sorted(bad)),
                                        ' when saving fails' if fail else ''))
                        return
                    dumps = d.of('dump')
                    if fail == 'open':
                        rep.proved(oid, 'learner untouched')
                        return
                    if len(dumps) != 1 or dumps[0][3] is None:
                        rep.undecided(oid, 'no dump of the learner seen')
                        return
                    _, o, fl, at = dumps[0]
                    if not same(o, d.o):
                        rep.undecided(oid, 'another object is dumped')
                        return
                    if isinstance(fl, Const) and d.of('open') and \
                            fl.v[1] != d.of('open')[-1][1]:
                        rep.violate(oid, wh, 'dumped to another file')
                        return
                    c = at.get('inference_cache_', NONE)
                    if c is not NONE and not (isinstance(c, Const)
                                              and c.v is None):
                        if same(c, d.before.get('inference_cache_')):
                            rep.violate(oid, wh, 'the inference cache is '
                                        'stored with the learner')
                        else:
                            rep.undecided(oid, 'cache replaced')
                        return
                    lost = [a for a in d.before if a != 'inference_cache_'
                            and (a not in at or not same(
                                at[a], d.before[a]))]
                    if lost:
                        rep.violate(oid, wh, 'stored without %s' %
                                    ', '.join(sorted(lost)))
                    elif fail is None or r is not None:
                        rep.proved(oid, 'whole learner without its cache')
                    else:
                        rep.violate(oid, wh, 'a failed save goes unnoticed')
                guarded(rep, oid, go, wh)


def load(rep, P):
    f = P.cls('SaveLogger').find('load')
    if f is None:
        raise Broken('SaveLogger.load is gone')
    d = Disk(P)
    r = d.run(lambda: d.I.call(d.I.attr(d.L, 'load'), [], {}))
    rep.visited(d.I.visited)
    o, l = d.of('open'), d.of('load')
    if r is not None:
        rep.violate('load', f.qual, 'loading fails with %s' % r)
    elif len(o) != 1 or len(l) != 1:
        rep.undecided('load', 'no single load seen')
    elif o[0][1] != 'model.pickle' or o[0][2] != 'rb':
        rep.violate('load', f.qual, 'opens %r with mode %r' % o[0][1:])
    elif not same(d.value, d.o):
        rep.violate('load', f.qual, 'does not return what was stored')
    else:
        rep.proved('load', 'what was stored')


def reports(rep, P, cls, par, n):
    from .refit import world
    oid = 'reports:%s:%d' % (cls, n)
    base = 'NSlackSSVM' if cls == 'LatentSSVM' else cls
    f = P.cls(cls).find('fit')
    if f is None:
        raise Broken('%s.fit is gone' % cls)
    W = world(P, base, dict(par, max_iter=n), 1)
    I = W.I
    o = W.obj
    if cls == 'LatentSSVM':
        o = I.instantiate(P.cls(cls), [W.obj], dict(latent_iter=Num(E(n))))
    seen = []

    def fn(I, args, kw):
        g = ONE
        for fr in I.stack:
            g = fr.guard
        seen.append((args[0] if args else None,
                     args[1] if len(args) > 1 else kw.get('iteration'), g))
        return NONE
    I.set_attr(o, 'logger', ModelFn(fn, 'logger'))
    try:
        I.call(I.attr(o, 'fit'), [W.X, W.Y], {})
    except RaiseEvent:
        pass
    rep.visited(I.visited)
    fin = [k for k, (a, b, g) in enumerate(seen)
           if isinstance(b, Const) and b.v == 'final']
    for a, b, g in seen:
        if not same(a, o):
            rep.violate(oid, f.qual, 'the logger is not given the learner')
            return
        if b is None:
            rep.violate(oid, f.qual, 'the logger is not told the iteration')
            return
    if cls == 'LatentSSVM':
        if seen:
            rep.proved(oid, 'reports every round')
        else:
            rep.violate(oid, f.qual, 'the logger is never called')
    elif not fin:
        if definite_faults(W, 0):
            rep.undecided(oid, 'training fails')
        else:
            rep.violate(oid, f.qual, "the logger never receives 'final'")
    elif len(fin) > 1 or fin[0] != len(seen) - 1:
        rep.violate(oid, f.qual, "'final' is not the last report")
    else:
        rep.proved(oid, "%d reports, 'final' last" % len(seen))


def check(rep, P, tier):
    if P.cls('SaveLogger') is None:
        raise Broken('SaveLogger is gone')
    for nm, f in (('when', when), ('names', names), ('content', content),
                  ('load', load)):
        rep.rule('SaveLogger:' + nm)
        guarded(rep, nm, lambda: f(rep, P), 'SaveLogger')
    for cls, par in LEARNERS:
        for n in (1,):
            rep.rule('reports')
            oid = 'reports:%s:%d' % (cls, n)
            guarded(rep, oid, lambda: reports(rep, P, cls, par, n), cls)
    return rep.finish('other', TRUST, "SaveLogger is interpreted with "
                      "recorded open, dump and load, working and failing; "
                      "the reports of every learner are recorded.",
                      min_obl=60)
