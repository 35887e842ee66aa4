"""C06: batch operations are the item-wise operations, in order."""
from .relations import *
from .rel import (TRUST, attempt, cls_where, accepts, eq_arr, eq_obl, num_of,
                  arr_obl, definite_faults)
from .base import Broken, guarded, Shape
from ..expr import mk_fn

OPS = ['batch_joint_feature', 'batch_inference',
       'batch_loss_augmented_inference', 'batch_loss']


FLAGS = ('relaxed', 'return_energy')


def ident(I, v):
    """symbolic identity of a value, as expression arguments"""
    if isinstance(v, Num):
        return [v.e]
    if isinstance(v, Const):
        return ['const:%r' % (v.v,)]
    if isinstance(v, Tup):
        out = ['tup%d' % len(v.items)]
        for x in v.items:
            out += ident(I, x)
        return out
    if v is None:
        return ['absent']
    if I.is_arr(v):
        return [arr_key(I.snap(v))]
    if isinstance(v, Phi):
        return [v.c] + ident(I, v.a) + ident(I, v.b)
    if isinstance(v, Unk):
        return [unk(v.why)]
    if I.is_list(v):
        t, r = I.to_items(v)
        if t == 'items':
            out = ['list%d' % len(r)]
            for x in r:
                out += ident(I, x)
            return out
        i = sym('li', 0)
        return ['seq', r.n] + ident(I, r.item(i))
    if isinstance(v, (Ref, ClassV, Func, Bound, ModelFn, Ext, ExtBound)):
        return ['?%s' % type(v).__name__]
    return [unk('identity of %s' % type(v).__name__)]


def stub(W, name, info, kind, dims=()):
    """an uninterpreted item operation: result depends on every argument"""
    def fn(I, args, kw):
        d = I.bind(info, [W.obj] + list(args), kw)
        key = []
        for p in info.params()[1:]:
            v = d.get(p)
            if p in FLAGS and isinstance(v, (Const, Num)) and \
                    I.truth(v) == ZERO:
                v = Const(False)
            key += ident(I, v)
        if kind == 'num':
            return Num(mk_fn('h:' + name, key), 'float')

        def el(idx):
            return mk_fn('h:' + name, key + list(idx))
        return I.new_arr([Axis.of(n) for n in dims], el)
    return ModelFn(fn, name)


class ItemWorld(World):
    """items are opaque labelled arrays"""

    def items(self, tag, n, owner):
        I = self.I
        m = sym('m' + tag, 1)

        def item(i):
            return I.input_like(tag, i, m)
        return I.alloc(ListC([('s', Seq(n, item))], frozenset([owner])))


def opaque_items(I, tag, n, concrete=None):
    m = sym('m' + tag, 2)

    def item(i):
        def fn(idx):
            return mk_read(tag, (i, idx[0]), None, None, False)
        return I.new_arr([Axis.of(m)], fn, 'float', frozenset([tag]))
    if concrete is not None:
        return I.alloc(ListC([('v', item(E(k))) for k in range(concrete)],
                             frozenset([tag])))
    return I.alloc(ListC([('s', Seq(n, item))], frozenset([tag])))


def seq_get(I, v, i):
    if I.is_arr(v):
        c = I.snap(v)
        if c.ndim != 1:
            raise Shape("batch result has %d dimensions" % c.ndim)
        return Num(c.fn([i]))
    r = I.seq_item(v, i)
    if r is None:
        raise Opaque("element of the batch result")
    return r


def ident_sum(I, v):
    """an expression that identifies a value (for comparison)"""
    return mk_fn('h:ident', ident(I, v))


def check_generic(rep, P, c):
    """batch operations inherited from the base class, or overridden without
    vectorisation: item operations are uninterpreted"""
    for op in OPS:
        W = World(P, c)
        I = W.I
        f = W.cls.find(op)
        if f is None:
            rep.undecided('batch:%s:%s' % (c.name, op), 'no such operation')
            continue
        oid = 'batch:%s:%s' % (c.name, op)

        def go(op=op, W=W, I=I, f=f, oid=oid):
            item = op[len('batch_'):]
            info = W.cls.find(item)
            if info is None:
                raise Broken("%s.%s is gone" % (W.cls.name, item))
            D = W.D if W.D is not None else sym('D', 1)
            if item == 'joint_feature':
                s = stub(W, item, info, 'arr', [D])
            elif item == 'loss':
                s = stub(W, item, info, 'num')
            else:
                s = stub(W, item, info, 'arr', [sym('n', 1)])
            I.set_attr(W.obj, item, s)
            w = W.make_w() if W.D is not None else None
            variants = [('', {})]
            if item in ('inference', 'loss_augmented_inference'):
                if accepts(f, 'relaxed'):
                    variants.append((':relaxed', {'relaxed': Const(True)}))
                    variants.append((':hard', {'relaxed': Const(False)}))
                if accepts(f, 'constraints') and accepts(info, 'constraints'):
                    variants.append((':constraints', {'constraints': 1}))
            for n, tag in ((sym('B', 1), ''), (None, ':empty')):
                for vt, kw0 in variants:
                    one(vt, kw0, n, tag, item, info, w, D)

        def one(vt, kw0, n, tag, item, info, w, D, op=op, W=W, I=I, f=f,
                oid=oid):
            heap = I.heap
            conc = None if n is not None else 0
            X = opaque_items(I, 'X', n, conc)
            Y = opaque_items(I, 'Y', n, conc)
            H = opaque_items(I, 'H', n, conc)
            kw = dict(kw0)
            if 'constraints' in kw:
                if conc == 0:
                    return
                kw['constraints'] = opaque_items(I, 'cons', n, conc)
            if item == 'joint_feature':
                args = [X, Y]
                iargs = lambda i: [I.seq_item(X, i), I.seq_item(Y, i)]
            elif item == 'inference':
                args = [X, w]
                iargs = lambda i: [I.seq_item(X, i), w]
            elif item == 'loss_augmented_inference':
                args = [X, Y, w]
                iargs = lambda i: [I.seq_item(X, i), I.seq_item(Y, i), w]
            else:
                args = [Y, H]
                iargs = lambda i: [I.seq_item(Y, i), I.seq_item(H, i)]
            o = oid + vt + tag
            wh = f.qual
            ok, r = attempt(rep, W, o, wh, op, *args, **kw)
            if not ok:
                return
            rep.visited(I.visited)
            ikw = lambda i: {k: (I.seq_item(v, i) if k == 'constraints'
                                 else v) for k, v in kw.items()}
            if item == 'joint_feature':
                rc = I.snap(r)
                if rc.ndim != 1:
                    raise Shape("%d dimensions" % rc.ndim)
                k = fresh_var(D)
                if conc == 0:
                    want = ZERO
                else:
                    i = fresh_var(n)
                    pv = I.snap(W.call(item, *iargs(atom(i))))
                    want = sum_over([i], pv.fn([atom(k)]))
                if not same_size(rc.axes[0].size, D):
                    if size_differs(rc.axes[0].size, D):
                        raise Shape("size %s, expected %s" % (
                            show(rc.axes[0].size), show(D)))
                eq_arr(rep, o, wh, [k], rc.fn([atom(k)]), want,
                       'batch feature = sum of the item features')
            else:
                ln = I.seq_len(r)
                if ln is None:
                    raise Opaque('length of the batch result')
                ln = ln if isinstance(ln, Expr) else num_of(I, ln)
                want_n = ZERO if conc == 0 else n
                eq_obl(rep, o + ':length', wh, ln, want_n,
                       'one result per item')
                if conc == 0:
                    I.heap = heap
                    return
                i = fresh_var(n)
                got = seq_get(I, r, atom(i))
                want = W.call(item, *iargs(atom(i)), **ikw(atom(i)))
                eq_arr(rep, o, wh, [i], ident_sum(I, got),
                       ident_sum(I, want),
                       'item i of the batch result = the operation on item i')
            rep.rule('batch-itemwise')
            I.heap = heap
        guarded(rep, oid, go, f.qual)


def rescaled(rep, P, c):
    """base batch_joint_feature under rescale_C forwards the true labels"""
    W = World(P, c)
    I = W.I
    base = P.cls('StructuredModel')
    f = base.find('batch_joint_feature')
    if f is None or not accepts(f, 'Y_true'):
        return
    D = W.D
    oid = 'batch:%s:base batch_joint_feature with true labels' % c.name
    info = W.cls.find('joint_feature')

    def go():
        I.set_attr(W.obj, 'joint_feature',
                   stub(W, 'joint_feature', info, 'arr', [D]))
        n = sym('B', 1)
        X, Y, T = (opaque_items(I, t, n) for t in 'XYT')
        r = I.call(Bound(W.obj, f), [X, Y, T], {})
        rc = I.snap(r)
        k, i = fresh_var(D), fresh_var(n)
        pv = I.snap(W.call('joint_feature', I.seq_item(X, atom(i)),
                           I.seq_item(Y, atom(i)), I.seq_item(T, atom(i))))
        eq_arr(rep, oid, f.qual, [k], rc.fn([atom(k)]),
               sum_over([i], pv.fn([atom(k)])), 'sum of rescaled features')
    guarded(rep, oid, go, f.qual)


def flat_batch(rep, P, c):
    """vectorised batch operations of the unstructured classifiers"""
    W = World(P, c)
    I = W.I
    B = sym('B', 1)
    fam = c.opt('family')
    X = I.input_arr('X', [B, W.F], owners='X')

    def labels(name):
        if fam == 'binary':
            b = I.input_arr(name, [B], lo=0, hi=2, dtype='int', owners=name)
            bc = I.snap(b)
            return I.new_arr(bc.axes, lambda i: 2 * bc.fn(i) - 1, 'int',
                             frozenset([name]))
        return I.input_arr(name, [B], lo=0, hi=W.S, dtype='int', owners=name)
    Y, H, T = labels('Y'), labels('H'), labels('T')
    w = W.make_w()
    resc = (c.opt('args') or {}).get('rescale_C')

    def at(v, i):
        return I.call_method_index(v, i)

    def row(v, i):
        cc = I.snap(v)
        if cc.ndim == 1:
            return Num(cc.fn([i]), 'int')
        return I.new_arr(cc.axes[1:], lambda idx: cc.fn([i] + list(idx)))

    def each(op, item, bargs, iargs, bkw=None, ikw=None):
        oid = 'batch:%s:%s' % (c.name, op)
        f = W.cls.find(op)
        wh = f.qual if f else '%s.%s' % (W.cls.name, op)

        def go():
            ok, r = attempt(rep, W, oid, wh, op, *bargs, **(bkw or {}))
            if not ok:
                return
            i = fresh_var(B)
            kw = {k: row(v, atom(i)) for k, v in (ikw or {}).items()}
            ok, v = attempt(rep, W, oid, wh, item,
                            *[row(a, atom(i)) if a is not w else w
                              for a in iargs], **kw)
            if not ok:
                return
            rep.visited(I.visited)
            rep.rule('batch-vectorised')
            if item == 'joint_feature':
                rc, vc = I.snap(r), I.snap(v)
                if rc.ndim != 1:
                    raise Shape("%d dimensions" % rc.ndim)
                if size_differs(rc.axes[0].size, W.D):
                    raise Shape("size %s" % show(rc.axes[0].size))
                for bs, g, kk in iter_axis(rc.axes[0]):
                    eq_arr(rep, oid, wh, bs, rc.fn([kk]),
                           sum_over([i], vc.fn([kk])),
                           'batch feature = sum of item features')
            else:
                if I.is_arr(r) and size_differs(I.snap(r).axes[0].size, B):
                    raise Shape("%s results for %s items" % (
                        show(I.snap(r).axes[0].size), show(B)))
                got = num_of(I, seq_get(I, r, atom(i)))
                eq_arr(rep, oid, wh, [i], got, num_of(I, v),
                       'result i of the batch = result on item i')
        guarded(rep, oid, go, wh)
    if resc:
        each('batch_joint_feature', 'joint_feature', [X, Y], [X, Y],
             {'Y_true': T}, {'y_true': T})
    else:
        each('batch_joint_feature', 'joint_feature', [X, Y], [X, Y])
    each('batch_inference', 'inference', [X, w], [X, w])
    each('batch_loss_augmented_inference', 'loss_augmented_inference',
         [X, Y, w], [X, Y, w])
    each('batch_loss', 'loss', [Y, H], [Y, H])


def check(rep, P, tier):
    from .models import ALL
    seen = set()
    for c in ALL:
        if c.opt('family') in ('multiclass', 'binary'):
            flat_batch(rep, P, c)
            if (c.opt('args') or {}).get('rescale_C'):
                rescaled(rep, P, c)
            continue
        cls = P.cls(c.clsname)
        sig = (c.clsname,)
        if sig in seen:
            continue
        seen.add(sig)
        check_generic(rep, P, c)
    return rep.finish(
        'proof', TRUST, "Batch operations are interpreted on batches of "
        "symbolic length whose item operations are uninterpreted functions of "
        "their arguments (vectorised classifiers: the real item operation); "
        "results are compared cell by cell in normal form.", min_obl=30)
