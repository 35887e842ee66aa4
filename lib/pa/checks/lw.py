"""Learner worlds: a learner over an uninterpreted model and symbolic data.

The model's operations are uninterpreted functions of their arguments, the
data are sequences of symbolic length; what the learner computes from them
(constraints, quadratic programs, updates, curves, predictions) is extracted
by abstract interpretation and compared in normal form."""
from .models import *
from .relations import flat, dot, at_heap, Opaque, content
from ..expr import mk_fn
from .. import npmodel
from .batch import ident, ident_sum, opaque_items, seq_get


def mk_list(I, items):
    return I.alloc(ListC([('v', x) for x in items]))


FLAGS = ('relaxed', 'return_energy')


class LW(object):
    def __init__(self, project, clsname=None, params=None, model=None,
                 hooks=None, ext_hooks=None, kind='plain', rescale=False,
                 tup=False, n=None, concrete=None, marginals=False, bare=False, nonneg=False):
        PARTS.clear()
        self.p = project
        self.kind = kind
        self.calls = []
        eh = {'cvxopt.solvers.qp': self._qp, 'cvxopt.matrix': self._matrix,
              'cvxopt.sparse': lambda I, a, k: a[0],
              'time.time': self._time,
              'sklearn.utils.gen_even_slices': self._slices,
              'sklearn.utils.shuffle': self._shuffle,
              'sklearn.utils.check_random_state': self._rng,
              'joblib.cpu_count': lambda I, a, k: Num(sym('ncpu', 1), 'int')}
        eh.update(ext_hooks or {})
        self.I = Interp(project, hooks or {}, eh)
        self.I.opaque_time = True
        I = self.I
        self.D = sym('D', 1)
        self.n = sym('n', 1) if n is None else n
        self.m = sym('my', 1)
        self.rescale = rescale
        self.marginals = marginals
        self.bare = bare
        self.qps = []
        self.nonneg = nonneg
        self.model = self.make_model()
        self.X = opaque_items(I, 'X', self.n, concrete)
        self.Y = opaque_items(I, 'Y', self.n, concrete)
        self.obj = None
        if clsname:
            self.cls = project.cls(clsname)
            kw = {}
            for k, v in (params or {}).items():
                kw[k] = v if not isinstance(v, (bool, int, float, str,
                                                type(None))) else lift(v)
            init = self.cls.find('__init__')
            names = init.params()[1:] if init else []
            kw = {k: v for k, v in kw.items() if k in names}
            self.obj = I.instantiate(self.cls, [self.model], kw)

    # -- environment --------------------------------------------------------
    def _time(self, I, args, kw):
        self.nt = getattr(self, 'nt', 0) + 1
        return Num(atom(('fn', 'h:time%d' % self.nt, ())), 'float')

    def _matrix(self, I, args, kw):
        v = args[0]
        if I.is_list(v):
            # cvxopt: a list is a column
            return npmodel.call_ext(I, 'numpy.array', [v], {}, None)
        return v

    def _slices(self, I, args, kw):
        a = [x.e.const() if isinstance(x, Num) else None for x in args[:2]]
        if len(a) < 2 or None in a or kw:
            return NotImplemented
        n, k = int(a[0]), int(a[1])
        out, start = [], 0
        if k < 1:
            raise RaiseEvent("ValueError: gen_even_slices got n_packs < 1")
        for p in range(k):
            m = n // k + (1 if p < n % k else 0)
            if m > 0:
                out.append(Slice(Num(E(start), 'int'),
                                 Num(E(start + m), 'int'), None))
                start += m
        return mk_list(I, out)

    def _shuffle(self, I, args, kw):
        I.event('shuffle', args=args, kw=kw)
        return Tup([self.permuted(I, a) for a in args])

    def permuted(self, I, a):
        n = I.seq_len(a)
        k = self.nperm = getattr(self, 'nperm', 0)

        def perm(i):
            return mk_fn('int:h:perm%d' % k, [i])
        if n.const() is not None:
            # a fixed permutation: reversal
            m = int(n.const())
            return mk_list(I, [I.seq_item(a, E(m - 1 - i))
                               for i in range(m)])
        return I.alloc(ListC([('s', Seq(n, lambda i: I.seq_item(
            a, perm(i))))]))

    def _rng(self, I, args, kw):
        I.event('rng', args=args)
        o = I.new_obj(None, {})

        def shuffle(I, a, k):
            I.event('rng-shuffle')
            c = I.snap(a[0])
            n = c.axes[0].size
            I.write(a[0], lambda ix, c=c, n=n: c.fn([n - 1 - ix[0]]))
            return NONE

        def randint(I, a, k):
            I.event('rng-randint', args=a, kw=k)
            size = k.get('size', a[2] if len(a) > 2 else None)
            high = k.get('high', a[1] if len(a) > 1 else None)
            if not isinstance(size, Num) or not isinstance(high, Num):
                return Unk('randint')
            return I.new_arr([Axis.of(size.e)], lambda ix: ZERO if
                             high.e.const() is not None else
                             mk_read('rng', (ix[0],), ZERO, high.e, True),
                             'int')
        I.set_attr(o, 'shuffle', ModelFn(shuffle, 'shuffle'))
        I.set_attr(o, 'randint', ModelFn(randint, 'randint'))
        return o

    def _qp(self, I, args, kw):
        names = ['P', 'q', 'G', 'h', 'A', 'b']
        d = dict(zip(names, args))
        d.update(kw)
        rec = {}
        for k, v in d.items():
            if I.is_arr(v):
                rec[k] = I.snap(v)
            else:
                rec[k] = v
        k = len(self.qps)
        I.event('qp', rec=rec, idx=k)
        self.qps.append(rec)
        q = rec.get('q')
        n = q.axes[0].size if isinstance(q, ArrC) else sym('nqp', 1)
        key = [arr_key(v) if isinstance(v, ArrC) else 'none'
               for v in [rec.get(x) for x in names]]
        x = I.new_arr([q.axes[0], Axis.of(1)] if isinstance(q, ArrC) else
                      [Axis.of(n), Axis.of(1)],
                      lambda idx: mk_fn('h:qpx', key + [idx[0]]))
        obj = Num(mk_fn('h:qpobj', key), 'float')
        return I.alloc(DictC({('c', 'x'): x, ('c', 'primal objective'): obj,
                              ('c', 'status'): Const('optimal')}))

    # -- the model ----------------------------------------------------------
    def stub(self, name, params, make):
        def fn(I, args, kw):
            d = {}
            if len(args) > len(params):
                raise RaiseEvent("TypeError: too many arguments for %s()"
                                 % name)
            for p, v in zip(params, args):
                d[p] = v
            for k, v in kw.items():
                if k not in params:
                    raise RaiseEvent("TypeError: %s() got an unexpected "
                                     "keyword argument %r" % (name, k))
                d[k] = v
            key = []
            for p in params:
                v = d.get(p)
                if p in FLAGS:
                    if v is None or (isinstance(v, (Const, Num)) and
                                     I.truth(v) == ZERO):
                        v = Const(False)
                    elif isinstance(v, Num) and v.e == ONE:
                        v = Const(True)
                if v is None:
                    v = NONE
                key += ident(I, v)
            if name in ('inference', 'loss_augmented_inference'):
                m = I.get_attr_raw(self.model, 'inference_method')
                if not (isinstance(m, Const) and m.v == 'ad3'):
                    key += ident(I, m)
            I.event('model', name=name, args=d, key=key)
            return make(I, d, key)
        return ModelFn(fn, name)

    def arr(self, tag, key, n, dtype='float'):
        I = self.I
        if dtype == 'int':
            return I.new_arr([Axis.of(n)], lambda idx: mk_fn(
                'int:h:' + tag, key + list(idx)), 'int')
        return I.new_arr([Axis.of(n)], lambda idx: mk_fn(
            'h:' + tag, key + list(idx)))

    def num(self, tag, key):
        nonneg = self.nonneg
        return Num(mk_fn(('h:' if not nonneg else 'h:nn:') + tag, key),
                   'float')

    def label(self, tag, I, key):
        a = self.arr(tag, key, self.m)
        if self.marginals and tag == 'laug':
            return Tup([a, self.arr(tag + 'pw', key, sym('mp', 1))])
        return a

    def make_model(self):
        I = self.I
        pfx = {}
        S = self.stub
        cls = None if self.bare else self.p.cls('StructuredModel')
        o = I.new_obj(cls, {})
        A = {
            'size_joint_feature': Num(self.D),
            'inference_calls': Num(atom(('fn', 'int:h:calls', ())), 'int'),
            'inference_method': Const('ad3'),
            'n_states': Num(sym('S', 2)),
            'joint_feature': S(
                'joint_feature', ['x', 'y', 'y_true'] if self.rescale
                else ['x', 'y'],
                lambda I, d, key: self.arr('psi', key, self.D)),
            'inference': S(
                'inference', ['x', 'w', 'relaxed', 'constraints'],
                lambda I, d, key: self.label('inf', I, key)),
            'loss_augmented_inference': S(
                'loss_augmented_inference', ['x', 'y', 'w', 'relaxed'],
                lambda I, d, key: self.label('laug', I, key)),
            'loss': S('loss', ['y', 'y_hat'],
                      lambda I, d, key: self.num('loss', key)
                      if not isinstance(d.get('y_hat'), Tup) else
                      self.m_call('continuous_loss', d['y'],
                                  d['y_hat'].items[0])),
            'max_loss': S('max_loss', ['y'],
                          lambda I, d, key: self.num('maxloss', key)),
            'base_loss': S('base_loss', ['y', 'y_hat'],
                           lambda I, d, key: self.num('baseloss', key)),
            'continuous_loss': S(
                'continuous_loss', ['y', 'y_hat'],
                lambda I, d, key: self.num('closs', key)),
            'initialize': S('initialize', ['X', 'Y'],
                            lambda I, d, key: NONE),
            'latent': S('latent', ['x', 'y', 'w'],
                        lambda I, d, key: self.label('lat', I, key)),
            'init_latent': S('init_latent', ['X', 'Y'],
                             lambda I, d, key: opaque_items(
                                 I, 'H0', self.n)),
            'label_from_latent': S(
                'label_from_latent', ['h'],
                lambda I, d, key: self.label('lfl', I, key)),
        }
        if self.rescale:
            A['rescale_C'] = Num(ONE, 'bool')
        for k, v in A.items():
            I.set_attr(o, k, v)
        return o

    # reference forms ---------------------------------------------------------
    def item(self, seq, i):
        return self.I.seq_item(seq, i)

    def m_call(self, name, *args, **kw):
        ev = len(self.I.events)
        r = self.I.call(self.I.attr(self.model, name), list(args), kw)
        del self.I.events[ev:]
        return r

    def psi(self, x, y, yt=None):
        """feature vector as an ArrC"""
        a = [x, y]
        if self.rescale:
            a.append(yt)
        return self.I.snap(self.m_call('joint_feature', *a))

    def attr(self, name):
        return self.I.get_attr_raw(self.obj, name)

    def call(self, name, *args, **kw):
        return self.I.call(self.I.attr(self.obj, name), list(args), kw)

    def w_arr(self, name='w'):
        return self.I.input_arr(name, [self.D], owners=name)


def real(name):
    """a symbolic real parameter"""
    return Num(atom(('fn', 'h:par:' + name, ())), 'float')


def pos(name):
    return Num(atom(('read', 'par_' + name, (), ZERO, None, False)), 'float')
