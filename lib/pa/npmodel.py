"""Semantics of builtins and of the numpy subset over abstract arrays."""
import itertools
from fractions import Fraction
from .vals import *
from .expr import (Expr, mk_read, mix, E, ZERO, ONE, atom, mk_fn, ind_eq, ind_ge0, ind_gt0,
                   int_div, int_mod, exact_div, div_real, is_int, sum_over,
                   mk_sum, prove_nonneg, unk, subst, compare, fresh_var, Key,
                   solve_eq)


# -- helpers -----------------------------------------------------------------
def num(v):
    """scalar Expr of a value or None"""
    if isinstance(v, Num):
        return v.e
    return None


def as_arr(I, v, node=None):
    """ArrC snapshot for array-likes; None if impossible"""
    if isinstance(v, Num):
        return ArrC([], lambda idx, e=v.e: e, v.kind)
    if I.is_arr(v):
        return I.snap(v)
    if isinstance(v, Phi):
        a, b = as_arr(I, v.a), as_arr(I, v.b)
        if a is not None and b is not None:
            return I.mix_arr(v.c, a, b)
        return None
    it = I.to_items(v) if not isinstance(v, (Unk, Const)) else None
    if it is None:
        return None
    return stack_arr(I, it)


def stack_arr(I, it):
    if it[0] == 'items':
        items = it[1]
        if not items:
            return ArrC([Axis.of(0)], lambda idx: ZERO, 'float')
        arrs = [as_arr(I, x) for x in items]
        if any(a is None for a in arrs):
            return None
        nd = arrs[0].ndim
        if any(a.ndim != nd for a in arrs):
            return None
        axes = [Axis.of(len(items))] + merge_axes(arrs)

        def fn(idx):
            c = idx[0].const()
            if c is not None:
                return arrs[int(c)].fn(idx[1:])
            r = ZERO
            for k, a in enumerate(arrs):
                r = r + ind_eq(idx[0], E(k)) * a.fn(idx[1:])
            return r
        return ArrC(axes, fn, join_dtype([a.dtype for a in arrs]))
    sq = it[1]
    v = fresh_var(sq.n)
    a0 = as_arr(I, sq.item(atom(v)))
    if a0 is None:
        return None
    for ax in a0.axes:
        if e_depends(ax.size, v):
            return None
    n0 = Axis.of(sq.n)
    if getattr(sq, 'sel', None) is not None:
        n0 = Axis([('sel', sq.sel)])

        def fn(idx):
            a = as_arr(I, sq.item(idx[0]))
            return a.fn(idx[1:]) if a is not None else unk('filtered')
        return ArrC([n0] + a0.axes, fn, a0.dtype)
    return ArrC([n0] + a0.axes,
                lambda idx: subst(a0.fn(list(idx[1:])), {v: idx[0]}),
                a0.dtype)


def merge_axes(arrs):
    axes = []
    for k in range(arrs[0].ndim):
        best = arrs[0].axes[k]
        for a in arrs[1:]:
            ax = a.axes[k]
            if size_differs(ax.size, best.size):
                raise ShapeError("sizes %r and %r differ"
                                 % (best.size, ax.size))
            if ax.rich() > best.rich():
                best = ax
        axes.append(best)
    return axes


def join_dtype(ds):
    if 'obj' in ds:
        return 'obj'
    if 'float' in ds:
        return 'float'
    if 'int' in ds:
        return 'int'
    return ds[0] if ds else 'float'


def wrap(I, c):
    """scalar arrays become Num"""
    if c.ndim == 0:
        return Num(c.fn([]), c.dtype if c.dtype in ('int', 'float', 'bool')
                   else None)
    return I.alloc(c)


def is_one(e):
    return e.const() == 1


def broadcast(arrs):
    """axes of the broadcast and per-array element functions"""
    nd = max(a.ndim for a in arrs)
    axes = []
    for k in range(nd):
        best = None
        for a in arrs:
            j = k - (nd - a.ndim)
            if j < 0:
                continue
            ax = a.axes[j]
            if best is None or is_one(best.size):
                if best is None or not is_one(ax.size):
                    best = ax
                continue
            if is_one(ax.size):
                continue
            if ax.size != best.size and not same_size(ax.size, best.size):
                if size_differs(ax.size, best.size):
                    raise ShapeError("operands could not be broadcast: %r vs "
                                     "%r" % (best.size, ax.size))
                raise ShapeError("unknown broadcast", False)
            if ax.rich() > best.rich():
                best = ax
        axes.append(best)
    fns = [broadcast_fn(a, axes) for a in arrs]
    return axes, fns


def broadcast_fn(a, axes):
    nd = len(axes)
    off = nd - a.ndim

    def fn(idx):
        sub = []
        for j in range(a.ndim):
            if is_one(a.axes[j].size):
                sub.append(ZERO)
            else:
                sub.append(idx[off + j])
        return a.fn(sub)
    return fn


def check_assign_shape(dst, src):
    if len(src) > len(dst):
        if any(not is_one(s.size) for s in src[:len(src) - len(dst)]):
            raise ShapeError("cannot assign array of more dimensions")
        src = src[len(src) - len(dst):]
    for d, s in zip(dst[len(dst) - len(src):], src):
        if is_one(s.size) or d.size == s.size:
            continue
        if same_size(d.size, s.size):
            continue
        if size_differs(d.size, s.size):
            raise ShapeError("could not assign size %r into %r"
                             % (s.size, d.size))
        raise ShapeError("unknown assignment shape", False)


def elementwise(I, f, vals, dtype, node=None):
    for i, v in enumerate(vals):
        if isinstance(v, Phi):
            def go(x, i=i):
                return elementwise(I, f, vals[:i] + [x] + vals[i + 1:],
                                   dtype, node)
            return I.phi_map(v, go)
    arrs = []
    for v in vals:
        a = as_arr(I, v)
        if a is None:
            return I.gap("elementwise on %s" % (v,), node)
        arrs.append(a)
    axes, fns = broadcast(arrs)
    dt = dtype([a.dtype for a in arrs]) if callable(dtype) else dtype
    return wrap(I, ArrC(axes, lambda idx: f(*[g(idx) for g in fns]), dt))


# -- operators -----------------------------------------------------------------
def arith_dtype(ds):
    return 'float' if 'float' in ds else ('obj' if 'obj' in ds else 'int')


def is_sparse(I, v):
    return I.is_arr(v) and I.c(v).dtype == 'sparse'


def dense(I, v):
    c = I.snap(v)
    return I.alloc(ArrC(c.axes, c.fn, 'float'))


class NotConcrete(Exception):
    pass


def pyval(v):
    """the Python value of a concrete scalar, string or tuple"""
    if isinstance(v, Const) and isinstance(v.v, (str, bool, type(None))) \
            and not (isinstance(v.v, str) and '<str>' in v.v):
        return v.v
    if isinstance(v, Num) and v.kind == 'int':
        k = v.e.const()
        if k is not None and k == int(k):
            return int(k)
    if isinstance(v, Tup):
        return tuple(pyval(x) for x in v.items)
    raise NotConcrete()


def text(f):
    try:
        r = f()
    except Exception:
        return Const('<str>')
    return Const(r if isinstance(r, str) else '<str>')


def binop(I, op, a, b, node=None):
    for x, sw in ((a, 0), (b, 1)):
        if isinstance(x, Phi):
            return I.phi_map(x, lambda z: binop(
                I, op, *((z, b) if not sw else (a, z)), node=node))
    if isinstance(a, Const) and isinstance(a.v, str):
        if op == 'Mod':
            return text(lambda: pyval(a) % pyval(b))
        if op == 'Add':
            return text(lambda: pyval(a) + pyval(b))
        return Const('<str>')
    if op == 'MatMult':
        return dot(I, a, b, node, matmul=True)
    if is_sparse(I, a) or is_sparse(I, b):
        x, y = [dense(I, z) if is_sparse(I, z) else z for z in (a, b)]
        if op == 'Mult' and I.is_arr(x) and I.is_arr(y):
            r = dot(I, x, y, node)
            return cast(I, I.snap(r), 'sparse') if I.is_arr(r) and is_sparse(
                I, a) and is_sparse(I, b) else r
        r = binop(I, op, x, y, node)
        if I.is_arr(r) and (op in ('Mult', 'Div') or is_sparse(I, a) and
                            is_sparse(I, b)):
            return cast(I, I.snap(r), 'sparse')
        return r
    # sequences
    seq_a = isinstance(a, (Tup, Seq)) or I.is_list(a)
    seq_b = isinstance(b, (Tup, Seq)) or I.is_list(b)
    if op == 'Add' and seq_a and seq_b:
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        parts = []
        for x in (a, b):
            it = I.to_items(x)
            if it is None:
                return I.gap('list +', node)
            if I.is_list(x):
                parts += list(I.c(x).parts)
            elif it[0] == 'items':
                parts += [('v', y) for y in it[1]]
            else:
                parts.append(('s', it[1]))
        return I.alloc(ListC(parts))
    if op == 'Mult' and (seq_a or seq_b) and not (I.is_arr(a) or
                                                   I.is_arr(b)):
        s, n = (a, b) if seq_a else (b, a)
        it = I.to_items(s)
        if it and it[0] == 'items' and isinstance(n, Num):
            k = n.e.const()
            if k is not None:
                r = it[1] * int(k)
                return Tup(r) if isinstance(s, Tup) else \
                    I.alloc(ListC([('v', x) for x in r]))
            if len(it[1]) == 1:
                x = it[1][0]
                return I.alloc(ListC([('s', Seq(n.e, lambda i: x))]))
        return I.gap('sequence repeat', node)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk('op on unknown: %s' % (
            a.why if isinstance(a, Unk) else b.why))
    if I.is_obj(a) or I.is_obj(b):
        return I.gap("operator on object", node)
    if op == 'Sub' and 'bool' in (kind_of(I, a), kind_of(I, b)) and \
            kind_of(I, a) == kind_of(I, b) == 'bool' and \
            (I.is_arr(a) or I.is_arr(b)):
        I.event('raise', node=node, msg='numpy boolean subtract')
    f = OPS.get(op)
    if f is None:
        return I.gap("operator %s" % op, node)
    dt = arith_dtype
    if op == 'Div':
        dt = 'float'
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        dt = 'bool' if kind_of(I, a) == 'bool' else 'int'
    if op in ('BitAnd', 'BitOr', 'BitXor') and dt == 'int':
        return I.gap("integer bit operation", node)
    if op == 'Pow':
        k = num(b)
        if k is None or k.const() is None:
            return elementwise(I, lambda x, y: mk_fn('pow', [x, y]), [a, b],
                               'float', node)
    return elementwise(I, f, [a, b], dt, node)


def kind_of(I, v):
    if isinstance(v, Num):
        return v.kind
    if I.is_arr(v):
        return I.snap(v).dtype
    return None


def f_pow(x, y):
    c = y.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 4:
        return x ** int(c)
    if c == Fraction(1, 2):
        return mk_fn('sqrt', [x])
    if c == -1:
        return div_real(ONE, x)
    return mk_fn('pow', [x, y])


OPS = {
    'Add': lambda x, y: x + y,
    'Sub': lambda x, y: x - y,
    'Mult': lambda x, y: x * y,
    'Div': lambda x, y: div_real(x, y) if not y.is_zero()
    else mk_fn('div0', [x]),
    'FloorDiv': lambda x, y: int_div(x, y) if is_int(x) and is_int(y)
    else mk_fn('floor', [div_real(x, y)]),
    'Mod': lambda x, y: int_mod(x, y),
    'Pow': f_pow,
    'BitAnd': lambda x, y: x * y,
    'BitOr': lambda x, y: x + y - x * y,
    'BitXor': lambda x, y: x + y - 2 * x * y,
}


def unop(I, op, v, node):
    if isinstance(v, Unk):
        return v
    if op == 'USub':
        return elementwise(I, lambda x: -x, [v],
                           lambda d: 'int' if d[0] == 'bool' else d[0], node)
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if kind_of(I, v) == 'bool':
            return elementwise(I, lambda x: ONE - x, [v], 'bool', node)
        return elementwise(I, lambda x: -x - 1, [v], 'int', node)
    return I.gap("unary %s" % op, node)


CMP = {
    'Eq': lambda a, b: ind_eq(a, b),
    'NotEq': lambda a, b: ONE - ind_eq(a, b),
    'Lt': lambda a, b: ind_gt0(b - a),
    'Gt': lambda a, b: ind_gt0(a - b),
    'LtE': lambda a, b: ONE - ind_gt0(a - b),
    'GtE': lambda a, b: ONE - ind_gt0(b - a),
}


def is_none(v):
    return isinstance(v, Const) and v.v is None


def compare_op(I, op, a, b, node):
    for x, sw in ((a, 0), (b, 1)):
        if isinstance(x, Phi):
            r = I.phi_map(x, lambda z: compare_op(
                I, op, *((z, b) if not sw else (a, z)), node=node))
            return r
    B = lambda v: Num(ONE if v else ZERO, 'bool')
    if op in ('Is', 'IsNot'):
        r = None
        if is_none(a) or is_none(b):
            if isinstance(a, Unk) or isinstance(b, Unk):
                return Num(atom(('fn', 'cond:isnone%d' % (
                    a.id if isinstance(a, Unk) else b.id), ())), 'bool')
            r = is_none(a) and is_none(b)
        elif isinstance(a, Num) and isinstance(b, Num) and \
                (a.kind == 'bool') != (b.kind == 'bool'):
            r = False
        elif I.same(a, b):
            r = True
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = False
        elif isinstance(a, Num) and isinstance(b, Num):
            if a.kind == b.kind == 'bool':
                r = None
                e = ind_eq(a.e, b.e)
                return Num(e if op == 'Is' else ONE - e, 'bool')
            r = a.e == b.e and a.kind == b.kind
        elif type(a) is not type(b) and not isinstance(a, Unk) and \
                not isinstance(b, Unk):
            r = False
        if r is None:
            return Unk('identity test')
        return B(r if op == 'Is' else not r)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b, node)
        if r is None:
            return Unk('membership')
        return Num(r if op == 'In' else ONE - r, 'bool')
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk('comparison')
    if isinstance(a, Const) or isinstance(b, Const):
        if isinstance(a, Const) and isinstance(b, Const):
            if '<str>' in (a.v, b.v):
                return Unk('string comparison')
            if op == 'Eq':
                return B(a.v == b.v)
            if op == 'NotEq':
                return B(a.v != b.v)
            return Unk('comparison of constants')
        if op in ('Eq', 'NotEq'):
            return B(op == 'NotEq')
        I.event('raise', node=node, msg='ordering comparison with None/str')
        return Unk('comparison')
    seqs = [isinstance(x, (Tup, Seq)) or I.is_list(x) for x in (a, b)]
    if all(seqs):
        ia, ib = I.to_items(a), I.to_items(b)
        if ia and ib and ia[0] == ib[0] == 'items':
            if op in ('Eq', 'NotEq'):
                if len(ia[1]) != len(ib[1]):
                    return B(op == 'NotEq')
                t = ONE
                for x, y in zip(ia[1], ib[1]):
                    t = t * I.truth(compare_op(I, 'Eq', x, y, node))
                return Num(t if op == 'Eq' else ONE - t, 'bool')
        return Unk('sequence comparison')
    if any(seqs) and not (I.is_arr(a) or I.is_arr(b)) and not (
            op not in ('Eq', 'NotEq') and
            any(isinstance(x, Num) and x.kind != 'bool' for x in (a, b))):
        return B(op == 'NotEq') if op in ('Eq', 'NotEq') else \
            Unk('comparison')
    if not all(isinstance(x, Num) or I.is_arr(x) or seqs[i]
               for i, x in enumerate((a, b))):
        if op in ('Eq', 'NotEq') and not I.is_obj(a) and not I.is_obj(b):
            return B(I.same(a, b) == (op == 'Eq'))
        if I.is_obj(a) and I.is_obj(b) and I.same(a, b):
            return B(op == 'Eq')
        return Unk('comparison')
    if op in ('Eq', 'NotEq'):
        try:
            return elementwise(I, CMP[op], [a, b], 'bool', node)
        except ShapeError as e:
            if e.definite:      # arrays of different shapes are unequal
                return B(op == 'NotEq')
            raise
    return elementwise(I, CMP[op], [a, b], 'bool', node)


def contains(I, a, b, node):
    it = I.to_items(b) if not isinstance(b, Unk) else None
    if I.is_dict(b):
        c = I.c(b)
        from .interp import mkkey
        k = mkkey(a)
        if k is not None and (c.exact or k in c.items):
            return ONE if k in c.items else ZERO
        return None
    if isinstance(b, Const) and isinstance(b.v, str) and \
            isinstance(a, Const) and isinstance(a.v, str):
        if '<str>' in a.v or '<str>' in b.v:
            return None
        return ONE if a.v in b.v else ZERO
    if it is None or it[0] != 'items':
        return None
    acc = ZERO
    for x in it[1]:
        r = compare_op(I, 'Eq', a, x, node)
        if isinstance(r, Unk):
            return None
        t = I.truth(r)
        acc = acc + t - acc * t
    return acc


# -- attributes ------------------------------------------------------------------
def attr(I, o, name, node=None):
    if I.is_arr(o):
        c = I.c(o)
        if name == 'shape':
            return Tup([Num(a.size, 'int') for a in c.axes])
        if name == 'ndim':
            return Num(E(c.ndim), 'int')
        if name == 'size':
            r = ONE
            for a in c.axes:
                r = r * a.size
            return Num(r, 'int')
        if name == 'T':
            return transpose(I, o, list(range(c.ndim))[::-1])
        if name == 'dtype':
            return Ext('dtype:' + I.snap(o).dtype)
        if name == 'flat':
            return reshape(I, o, [Num(E(-1))])
        return ExtBound(o, name)
    if isinstance(o, Num):
        if name in ('T', 'real'):
            return o
        if name == 'shape':
            return Tup([])
        if name == 'size':
            return Num(ONE, 'int')
        if name == 'ndim':
            return Num(ZERO, 'int')
        if name == 'dtype':
            return Ext('dtype:' + o.kind)
        return ExtBound(o, name)
    return ExtBound(o, name)


CONSTS = {'numpy.newaxis': lambda: NONE,
          'numpy.inf': lambda: Num(atom(('fn', 'const:inf', ())), 'float'),
          'numpy.pi': lambda: Num(atom(('fn', 'const:pi', ())), 'float')}


def ext_value(I, name):
    if name in CONSTS:
        return CONSTS[name]()
    return Ext(name)


DT = {'int': 'int', 'float': 'float', 'bool': 'bool', 'object': 'obj',
      'float64': 'float', 'float32': 'float', 'int32': 'int', 'int64': 'int',
      'intp': 'int', 'bool_': 'bool', 'int8': 'int', 'int16': 'int',
      'uint8': 'int', 'double': 'float', 'int_': 'int', 'long': 'int',
      'float_': 'float', 'uint': 'int', 'intc': 'int'}


def dtype_of(v, default='float'):
    if v is None or is_none(v):
        return default
    if isinstance(v, Ext):
        n = v.name
        if n.startswith('dtype:'):
            return n[6:]
        return DT.get(n.split('.')[-1], 'float')
    if isinstance(v, Const) and isinstance(v.v, str):
        return {'i': 'int', 'f': 'float', 'd': 'float', 'b': 'bool',
                'bool': 'bool', 'int': 'int', 'float': 'float',
                'object': 'obj'}.get(v.v, DT.get(v.v, 'float'))
    return default


# -- indexing ---------------------------------------------------------------------
def norm_index(I, c, idx):
    items = list(idx.items) if isinstance(idx, Tup) else [idx]
    # expand ellipsis
    n_real = 0
    for x in items:
        if isinstance(x, Const) and (x.v is None or x.v is Ellipsis):
            continue
        if I.is_arr(x) and I.snap(x).dtype == 'bool':
            n_real += I.c(x).ndim
        else:
            n_real += 1
    if any(isinstance(x, Const) and x.v is Ellipsis for x in items):
        k = [i for i, x in enumerate(items)
             if isinstance(x, Const) and x.v is Ellipsis][0]
        fill = [Slice(None, None, None)] * (c.ndim - n_real)
        items = items[:k] + fill + items[k + 1:]
    else:
        items = items + [Slice(None, None, None)] * (c.ndim - n_real)
    return items


def slice_bounds(I, s, size):
    """(lo, length, step) Exprs; step +-1 or const"""
    step = ONE
    if s.step is not None and not is_none(s.step):
        step = num(s.step)
        if step is None:
            return None
    k = step.const()
    if k is None:
        return None

    def fix(v, default):
        if v is None or is_none(v):
            return default
        e = num(v)
        if e is None:
            return None
        if prove_nonneg(e):
            if prove_nonneg(e - size):
                return size
            return e
        if prove_nonneg(-e - 1):
            return size + e
        return e
    if k > 0:
        lo, hi = fix(s.lo, ZERO), fix(s.hi, size)
        if lo is None or hi is None:
            return None
        n = hi - lo
        if k != 1:
            n = int_div(hi - lo + k - 1, E(k))
        return lo, n, E(k)
    if k == -1 and s.lo is None and s.hi is None:
        return size - 1, size, E(-1)
    if k == -1:
        lo, hi = fix(s.lo, size - 1), fix(s.hi, E(-1))
        if lo is None or hi is None:
            return None
        return lo, lo - hi, E(-1)
    return None


def index_num(e, size):
    """normalise a possibly negative scalar index"""
    if prove_nonneg(e):
        return e
    if prove_nonneg(-e - 1):
        return size + e
    return e


def sub_axis(ax, lo, n):
    """axis of a unit-step slice, keeping segments when aligned"""
    if lo.is_zero() and n == ax.size:
        return ax
    off = ZERO
    out = []
    start = None
    for s in ax.segs:
        if off == lo:
            start = True
        if start:
            out.append(s)
            tot = ZERO
            for q in out:
                tot = tot + seg_size(q)
            if tot == n:
                return Axis(out)
        off = off + seg_size(s)
    return Axis.of(n)


def getitem(I, o, idx, node=None):
    if isinstance(o, Phi):
        return I.phi_map(o, lambda x: getitem(I, x, idx, node))
    if isinstance(idx, Phi):
        return I.phi_map(idx, lambda x: getitem(I, o, x, node))
    if isinstance(o, Unk):
        return Unk('item of unknown', o.owners)
    if isinstance(o, (Tup, Seq)) or I.is_list(o):
        return seq_getitem(I, o, idx, node)
    if I.is_dict(o):
        from .interp import mkkey
        c = I.c(o)
        k = mkkey(idx)
        if k is not None and k in c.items:
            return c.items[k]
        return I.gap("dict lookup", node)
    if isinstance(o, Num) and isinstance(idx, (Tup, Const)):
        items = idx.items if isinstance(idx, Tup) else [idx]
        if all(is_none(x) for x in items):
            e = o.e
            return I.alloc(ArrC([Axis.of(1)] * len(items), lambda ix: e,
                                o.kind))
    if isinstance(o, Ext) and o.name in ('numpy.ogrid', 'numpy.mgrid',
                                         'numpy.r_', 'numpy.c_', 'numpy.s_'):
        return grid_index(I, o, idx, node)
    if I.is_obj(o):
        m = I.c(o).cls.find('__getitem__') if I.c(o).cls else None
        if m is not None:
            return I.call_func(m, [o, idx], {})
        return I.gap("subscript of object", node)
    if not I.is_arr(o):
        return I.gap("subscript of %r" % (o,), node)
    c = I.c(o)
    items = norm_index(I, c, idx)
    plan = index_plan(I, c, items, node)
    if plan is None:
        return Unk('index', I.owners_of(o))
    if not plan['adv']:
        ref = I.make_view(o, plan['axes'], plan['imap'], plan['inv'],
                          plan['contig'] and c.contig)
        if not plan['axes']:
            s = I.snap(ref)
            e = s.fn([])
            if e.poisoned():
                e2 = by_case(I, o, c, items, node)
                if e2 is not None:
                    e = e2
            return Num(e, s.dtype if s.dtype in (
                'int', 'float', 'bool') else None)
        return ref
    s = I.snap(o)
    imap = plan['imap']
    return wrap(I, ArrC(plan['axes'], lambda ix: s.fn(imap(ix)), s.dtype))


def by_case(I, o, c, items, node):
    """a scalar read at a symbolic position of a small axis: case split"""
    if len(items) != c.ndim:
        return None
    for p, x in enumerate(items):
        if not isinstance(x, Num):
            return None
        n = c.axes[p].size.const()
        if x.e.const() is None and n is not None and 0 < n <= 8:
            tot, rest = ZERO, ONE
            for k in range(int(n)):
                r = getitem(I, o, Tup(items[:p] + [Num(E(k), 'int')] +
                                      items[p + 1:]), node)
                if not isinstance(r, Num):
                    return None
                g = ind_eq(x.e, k) if k + 1 < n else rest
                rest = rest - g
                tot = tot + g * r.e
            return tot
    return None


def seq_getitem(I, o, idx, node):
    if isinstance(idx, Num):
        n = I.seq_len(o)
        e = index_num(idx.e, n)
        k = e.const()
        if k is not None and isinstance(o, Tup) and not (
                0 <= k < len(o.items)):
            from .interp import RaiseEvent
            raise RaiseEvent("IndexError: tuple index out of range", node)
        return I.seq_item(o, e)
    if isinstance(idx, Slice):
        it = I.to_items(o)
        if it and it[0] == 'items':
            def cv(v):
                if v is None or is_none(v):
                    return None
                e = num(v)
                c = e.const() if e is not None else None
                return int(c) if c is not None else 'x'
            a, b, s = cv(idx.lo), cv(idx.hi), cv(idx.step)
            if 'x' not in (a, b, s):
                r = it[1][a:b:s]
                if isinstance(o, Tup):
                    return Tup(r)
                return I.alloc(ListC([('v', x) for x in r]))
        elif it and it[0] == 'seq':
            sq = it[1]
            sb = slice_bounds(I, idx, sq.n)
            if sb is not None:
                lo, n, st = sb
                return I.alloc(ListC([('s', Seq(
                    n, lambda i: sq.item(lo + i * st)))]))
        return I.gap("slice of sequence", node)
    if I.is_arr(idx) and I.is_list(o):
        from .interp import RaiseEvent
        raise RaiseEvent("TypeError: list indices must be integers", node)
    return I.gap("sequence index", node)


def grid_index(I, o, idx, node):
    if o.name in ('numpy.ogrid', 'numpy.mgrid') and isinstance(idx, Slice):
        sb = slice_bounds(I, Slice(idx.lo or Num(ZERO), idx.hi, idx.step),
                          num(idx.hi) if idx.hi is not None else ZERO)
        if sb is not None:
            lo, n, st = sb
            return I.alloc(ArrC([Axis.of(n)],
                                lambda ix: lo + ix[0] * st, 'int'))
    if o.name in ('numpy.ogrid',) and isinstance(idx, Tup):
        out = []
        nd = len(idx.items)
        for k, s in enumerate(idx.items):
            n = num(s.hi)
            axes = [Axis.of(n) if j == k else Axis.of(1)
                    for j in range(nd)]
            out.append(I.alloc(ArrC(axes, lambda ix, k=k: ix[k], 'int')))
        return I.alloc(ListC([('v', x) for x in out]))
    if o.name == 'numpy.mgrid' and isinstance(idx, Tup):
        ns = [num(s.hi) for s in idx.items]
        return indices(I, ns)
    if o.name == 'numpy.c_' and isinstance(idx, Tup):
        return call_ext(I, 'numpy.column_stack', [idx], {}, node)
    if o.name == 'numpy.r_' and isinstance(idx, Tup):
        return call_ext(I, 'numpy.hstack', [idx], {}, node)
    return I.gap("grid index", node)


def indices(I, ns):
    axes = [Axis.of(len(ns))] + [Axis.of(n) for n in ns]

    def fn(idx):
        k = idx[0].const()
        if k is not None:
            return idx[1 + int(k)]
        r = ZERO
        for j in range(len(ns)):
            r = r + ind_eq(idx[0], E(j)) * idx[1 + j]
        return r
    return I.alloc(ArrC(axes, fn, 'int'))


def index_plan(I, c, items, node):
    """axes/imap/inv of an index expression on content c"""
    adv = []
    specs = []       # per index item
    ax = 0
    for it in items:
        if isinstance(it, Const) and it.v is None:
            specs.append(('new',))
            continue
        if isinstance(it, Phi):
            a = as_arr(I, it)
            if a is None:
                return None
            specs.append(('arr', a, ax))
            adv.append(len(specs) - 1)
            ax += 1
            continue
        if isinstance(it, Slice):
            if ax >= c.ndim:
                raise ShapeError("too many indices")
            sb = slice_bounds(I, it, c.axes[ax].size)
            if sb is None:
                return None
            specs.append(('slice', ax) + sb)
            ax += 1
        elif isinstance(it, Num) and it.kind != 'bool':
            if ax >= c.ndim:
                raise ShapeError("too many indices for array")
            specs.append(('int', ax, index_num(it.e, c.axes[ax].size)))
            ax += 1
        elif isinstance(it, (Tup, Seq)) or I.is_list(it) or I.is_arr(it):
            a = as_arr(I, it)
            if a is None:
                return None
            if a.dtype == 'bool':
                sel = Sel([x.size for x in c.axes[ax:ax + a.ndim]], a.fn)
                for x, y in zip(a.axes, c.axes[ax:ax + a.ndim]):
                    if size_differs(x.size, y.size):
                        raise ShapeError(
                            "boolean index did not match: %r vs %r"
                            % (x.size, y.size))
                cells = concrete_sel(sel)
                if cells is not None:
                    for j in range(a.ndim):
                        specs.append(('arr', cell_array(
                            [t[j] for t in cells]), ax + j))
                        adv.append(len(specs) - 1)
                else:
                    specs.append(('mask', sel, ax, a.ndim))
                    adv.append(len(specs) - 1)
                ax += a.ndim
            else:
                if ax >= c.ndim:
                    raise ShapeError("too many indices")
                specs.append(('arr', a, ax))
                adv.append(len(specs) - 1)
                ax += 1
        else:
            return None
    if not adv:
        return basic_plan(c, specs)
    return adv_plan(I, c, specs, adv)


def basic_plan(c, specs):
    axes = []
    vmap = []      # view axis -> ('new',) or (base axis, lo, step)
    fixed = {}
    contig = True
    seen_slice = False
    for s in specs:
        if s[0] == 'new':
            axes.append(Axis.of(1))
            vmap.append(None)
        elif s[0] == 'int':
            fixed[s[1]] = s[2]
            if seen_slice:
                contig = False
        else:
            _, ax, lo, n, st = s
            if st.const() == 1:
                axes.append(sub_axis(c.axes[ax], lo, n))
            else:
                axes.append(Axis.of(n))
                contig = False
            full = lo.is_zero() and n == c.axes[ax].size
            if not full and seen_slice:
                contig = False
            seen_slice = True
            vmap.append((ax, lo, st))
    nd = c.ndim

    def imap(idx):
        b = [None] * nd
        for k, e in fixed.items():
            b[k] = e
        for v, m in zip(idx, vmap):
            if m is not None:
                ax, lo, st = m
                b[ax] = lo + v * st
        return b

    def inv(bidx):
        cond = ONE
        for k, e in fixed.items():
            cond = cond * ind_eq(bidx[k], e)
        out = []
        for j, m in enumerate(vmap):
            if m is None:
                out.append(ZERO)
            else:
                ax, lo, st = m
                full = lo.is_zero() and axes[j].size == c.axes[ax].size \
                    and st.const() == 1
                if st.const() in (1, -1):
                    p = (bidx[ax] - lo) * st
                    out.append(p)
                else:
                    p = int_div(bidx[ax] - lo, st)
                    cond = cond * ind_eq(int_mod(bidx[ax] - lo, st), ZERO)
                    out.append(p)
                if not full:
                    cond = cond * ind_ge0(p) * ind_ge0(
                        axes[j].size - 1 - p)
        return cond, out
    return dict(adv=False, axes=axes, imap=imap, inv=inv, contig=contig)


def adv_plan(I, c, specs, adv):
    # ints take part as broadcast scalars
    parts = []
    ints = [k for k, s in enumerate(specs) if s[0] == 'int']
    masks = [specs[k] for k in adv if specs[k][0] == 'mask']
    arrs = [specs[k] for k in adv if specs[k][0] == 'arr']
    allk = sorted(adv + ints)
    contiguous = allk == list(range(allk[0], allk[-1] + 1))
    # broadcast of index arrays; a mask contributes one 1-d axis
    barrs = []
    for k in sorted(adv):
        s = specs[k]
        if s[0] == 'arr':
            barrs.append((s, s[1]))
        else:
            sel = s[1]
            barrs.append((s, ArrC([Axis([('sel', sel)])],
                                  lambda ix: ix[0], 'int')))
    baxes, bfns = broadcast([b for _, b in barrs])
    pos = 0
    if contiguous:
        pos = sum(1 for s in specs[:allk[0]] if s[0] in ('new', 'slice'))
    raxes = []
    rest = []
    for s in specs:
        if s[0] == 'new':
            rest.append((Axis.of(1), None))
        elif s[0] == 'slice':
            _, ax, lo, n, st = s
            rest.append((sub_axis(c.axes[ax], lo, n) if st.const() == 1
                         else Axis.of(n), (ax, lo, st)))
    raxes = [r[0] for r in rest[:pos]] + list(baxes) + \
        [r[0] for r in rest[pos:]]
    nb = len(baxes)
    nd = c.ndim

    def adv_index(bi):
        """base index positions fixed by the advanced part"""
        out = {}
        for (s, _), f in zip(barrs, bfns):
            e = f(bi)
            if s[0] == 'arr':
                ax = s[2]
                out[ax] = index_num(e, c.axes[ax].size)
            else:
                sel, ax, k = s[1], s[2], s[3]
                inv = RANKINV.get((sel.key.key, e.key))
                if inv is None:
                    inv = sel_inverse(sel, e)
                for j in range(k):
                    out[ax + j] = inv[j]
        for k in ints:
            out[specs[k][1]] = specs[k][2]
        return out

    def imap(idx):
        b = [None] * nd
        bi = idx[pos:pos + nb]
        for ax, e in adv_index(bi).items():
            b[ax] = e
        ri = list(idx[:pos]) + list(idx[pos + nb:])
        for v, (_, m) in zip(ri, rest):
            if m is not None:
                ax, lo, st = m
                b[ax] = lo + v * st
        return b
    return dict(adv=True, axes=raxes, imap=imap, pos=pos, nb=nb,
                baxes=baxes, adv_index=adv_index, rest=rest, nd=nd)


def concrete_sel(sel):
    """the selected cells, when every mask cell is decided"""
    n = 1
    for d in sel.dims:
        if d.const() is None:
            return None
        n *= int(d.const())
    if n > 64:
        return None
    out = []
    for t in itertools.product(*[range(int(d.const())) for d in sel.dims]):
        v = sel.mask([E(i) for i in t]).const()
        if v is None:
            return None
        if v:
            out.append(t)
    return out


def cell_array(idx):
    idx = list(idx)

    def fn(ix):
        c = ix[0].const()
        if c is not None and 0 <= c < len(idx):
            return E(idx[int(c)])
        r = ZERO
        for k, v in enumerate(idx):
            if v:
                r = r + ind_eq(ix[0], E(k)) * E(v)
        return r
    return ArrC([Axis.of(len(idx))], fn, 'int')


def sel_inverse(sel, e):
    """cell of the mask enumerated at position e (opaque when unknown)"""
    if len(sel.dims) == 1 and sel.generic[1] == ONE:
        return [e]
    lo = sel.interval()
    if lo is not None:
        return [e + lo]
    return [atom(('fn', 'bnd:select%d' % j, (sel.key, e, sel.dims[j])))
            for j in range(len(sel.dims))]


def setitem(I, o, idx, v, node=None):
    if isinstance(o, Phi):
        for x in (o.a, o.b):
            if I.is_arr(x):
                havoc(I, x, 'conditional store', node)
        return
    if isinstance(o, Unk):
        if o.owners:
            I.event('write', owners=o.owners, node=node)
        return
    if I.is_dict(o):
        from .interp import mkkey
        c = I.c(o)
        d = dict(c.items)
        k = mkkey(idx)
        if k is None:
            I.heap[o.loc] = DictC(d, False)
        else:
            d[k] = v
            I.heap[o.loc] = DictC(d, c.exact)
        return
    if I.is_list(o):
        c = I.c(o)
        if c.owners:
            I.event('write', owners=c.owners, node=node)
        if isinstance(idx, Num) and idx.e.const() is not None and \
                all(p[0] == 'v' for p in c.parts):
            k = int(idx.e.const())
            parts = list(c.parts)
            if -len(parts) <= k < len(parts):
                parts[k] = ('v', v)
                I.heap[o.loc] = ListC(parts, c.owners)
                return
        ow = c.owners
        I.heap[o.loc] = ListC([('s', Seq(I.seq_len(o),
                                         lambda i: Unk('list store', ow)))],
                              ow)
        return
    if not I.is_arr(o):
        I.gap("store into %r" % (o,), node)
        return
    c = I.c(o)
    if isinstance(idx, Phi):
        havoc(I, o, 'conditional index', node)
        return
    items = norm_index(I, c, idx)
    plan = index_plan(I, c, items, node)
    va = as_arr(I, v)
    if plan is None or va is None:
        havoc(I, o, 'store with unknown index or value', node)
        return
    check_assign_shape(plan['axes'], va.axes)
    old = I.snap(o)
    vf = broadcast_fn(trim(va, len(plan['axes'])), plan['axes'])
    if not plan['adv']:
        inv = plan['inv']

        def new(ridx):
            cond, vi = inv(ridx)
            k = cond.const()
            if k == 0:
                return old.fn(ridx)
            if k == 1:
                return vf(vi)
            return cond * vf(vi) + (ONE - cond) * old.fn(ridx)
        I.write(o, new, node)
        return
    scatter(I, o, c, old, plan, vf, node)


def trim(a, nd):
    if a.ndim <= nd:
        return a
    k = a.ndim - nd
    return ArrC(a.axes[k:], lambda ix: a.fn([ZERO] * k + list(ix)), a.dtype)


def scatter(I, o, c, old, plan, vf, node, accumulate=False):
    pos, nb, rest, nd = plan['pos'], plan['nb'], plan['rest'], plan['nd']
    cells = concrete_cells(plan)

    def new(ridx):
        cond0 = ONE
        ri = []
        for axis, m in rest:
            if m is None:
                ri.append(ZERO)
                continue
            ax, lo, st = m
            if st.const() not in (1, -1):
                return unk('strided scatter')
            p = (ridx[ax] - lo) * st
            full = lo.is_zero() and axis.size == c.axes[ax].size
            if not full:
                cond0 = cond0 * ind_ge0(p) * ind_ge0(axis.size - 1 - p)
            ri.append(p)
        hit = ZERO
        val = ZERO
        bad = False
        if cells is not None:
            base = old.fn(ridx)
            for bidx, pos_e in cells:
                h = cond0
                for ax, e in pos_e.items():
                    h = h * ind_eq(ridx[ax], e)
                vv = vf(ri[:pos] + list(bidx) + ri[pos:])
                if accumulate:
                    base = base + h * vv
                else:
                    base = (ONE - h) * base + h * vv
            return base
        for bs, g, bidx in iter_axes(plan['baxes']):
            pos_e = plan['adv_index'](bidx)
            h = g
            for ax, e in pos_e.items():
                h = h * ind_eq(ridx[ax], e)
            vi = ri[:pos] + list(bidx) + ri[pos:]
            hh = sum_over(bs, h)
            if has_binders(hh, bs) or not unique_hit(h, bs):
                # the same cell may be hit more than once
                if not accumulate:
                    vv = vf(vi)
                    if any(e_depends(vv, b) for b in bs):
                        bad = True
                    else:
                        hh = mk_fn('anyhit', [hh])
                        hit = hit + hh
                        val = val + hh * vv
                        continue
            hit = hit + hh
            val = val + sum_over(bs, h * vf(vi))
        if bad:
            return unk('overlapping scatter')
        if accumulate:
            return old.fn(ridx) + cond0 * val
        hit = cond0 * hit
        k = hit.const()
        if k == 0:
            return old.fn(ridx)
        if k == 1:
            return val
        return (ONE - hit) * old.fn(ridx) + cond0 * val
    I.write(o, new, node)


def concrete_cells(plan):
    """the cells addressed, when all sizes and indices are decided"""
    n = 1
    for a in plan['baxes']:
        if a.size.const() is None:
            return None
        n *= int(a.size.const())
    if n > 64:
        return None
    out = []
    for t in itertools.product(*[range(int(a.size.const()))
                                 for a in plan['baxes']]):
        bi = [E(i) for i in t]
        d = plan['adv_index'](bi)
        if any(e.const() is None for e in d.values()):
            return None
        out.append((bi, d))
    return out


def unique_hit(h, bs):
    """every binder is determined by an equality (at most one hit)"""
    bs = list(bs)
    for t in h.terms:
        left = list(bs)
        eqs = [a[1] for a in t if a[0] == 'eq']
        progress = True
        while progress and left and eqs:
            progress = False
            for q in eqs:
                r = solve_eq(q, left)
                if r is None:
                    continue
                v, sol, res = r
                if any(b in sol.atoms() for b in left):
                    continue
                left.remove(v)
                eqs = [subst(x, {v: sol}) for x in eqs if x is not q]
                for t2 in res.terms:
                    eqs.extend(a[1] for a in t2 if a[0] == 'eq')
                progress = True
                break
        if left:
            return False
    return True


def has_binders(e, bs):
    return False


def iter_axes(axes):
    """product iteration over several axes"""
    if not axes:
        yield [], ONE, []
        return
    for bs, g, k in iter_axis(axes[0]):
        for bs2, g2, k2 in iter_axes(axes[1:]):
            yield bs + bs2, g * g2, [k] + k2


def havoc(I, o, why, node=None):
    if isinstance(o, Phi):
        havoc(I, o.a, why, node)
        havoc(I, o.b, why, node)
        return
    if I.is_arr(o):
        I.gap('havoc: ' + why, node)
        I.write(o, lambda idx: unk(why), node)


# -- shape manipulation --------------------------------------------------------------
def resolve_shape(I, dims, total):
    dims = list(dims)
    out = []
    neg = None
    for k, d in enumerate(dims):
        e = num(d)
        if e is None:
            return None
        if e.const() == -1:
            neg = k
            out.append(None)
        else:
            out.append(e)
    if neg is not None:
        p = ONE
        for e in out:
            if e is not None:
                p = p * e
        q = exact_div(total, p)
        if q is None:
            c, _ = compare(int_mod(total, p), ZERO)
            if c == 'differ':
                raise ShapeError("cannot reshape size %r into multiples of "
                                 "%r" % (total, p))
            q = int_div(total, p)
        out[neg] = q
    return out


def total_size(axes):
    r = ONE
    for a in axes:
        r = r * a.size
    return r


def flat_index(idx, axes):
    k = ZERO
    for i, a in zip(idx, axes):
        k = k * a.size + i
    return k


def unflatten(k, sizes):
    out = []
    for s in reversed(sizes[1:]):
        out.append(int_mod(k, s))
        k = int_div(k, s)
    out.append(k)
    return out[::-1]


def factor_list(axes):
    """flattened factor dims when every axis has one plain segment"""
    fs = []
    for a in axes:
        if len(a.segs) != 1 or (a.segs[0] and a.segs[0][0] == 'sel'):
            return None
        fs.extend(a.segs[0])
    return fs


def regroup(fs, sizes):
    """split factors into groups whose products are `sizes`; factors of a
    target may be refined"""
    fs = [f for f in fs if not is_one(f)]
    out = []
    i = 0
    for s in sizes:
        grp = []
        p = ONE
        while not same_quick(p, s):
            if i >= len(fs):
                return None
            grp.append(fs[i])
            p = p * fs[i]
            i += 1
            if len(grp) > 6:
                return None
        out.append(tuple(grp) if grp else (s,))
    if i != len(fs):
        return None
    return out


def same_quick(a, b):
    return a == b


def reshape(I, o, dims, node=None):
    if not I.is_arr(o):
        a = as_arr(I, o)
        if a is None:
            return I.gap("reshape", node)
        o = I.alloc(a)
    c = I.c(o)
    if len(dims) == 1 and not isinstance(dims[0], Num):
        it = I.to_items(dims[0])
        if it is None or it[0] != 'items':
            return I.gap("reshape to unknown shape", node)
        dims = it[1]
    tot = total_size(c.axes)
    sizes = resolve_shape(I, dims, tot)
    if sizes is None:
        return Unk('reshape', I.owners_of(o))
    p = ONE
    for s in sizes:
        p = p * s
    if p != tot and not same_size(p, tot):
        if size_differs(p, tot):
            raise ShapeError("cannot reshape array of size %r into %r"
                             % (tot, sizes))
        return Unk('reshape', I.owners_of(o))
    axes = None
    if len(sizes) == 1 and c.ndim >= 1:
        # flattening keeps the structure of rows
        fs = factor_list(c.axes)
        if fs is not None:
            axes = [Axis([tuple(f for f in fs if not is_one(f)) or (ONE,)])]
        elif c.ndim == 1:
            axes = [c.axes[0]]
    if axes is None:
        fs = factor_list(c.axes)
        if fs is not None:
            g = regroup(fs, sizes)
            if g is not None:
                axes = [Axis([x]) for x in g]
    if axes is None and [s for s in sizes] == [a.size for a in c.axes]:
        axes = list(c.axes)
    if axes is None and c.ndim == 1 and len(c.axes[0].segs) > 1:
        pass
    if axes is None:
        axes = [Axis.of(s) for s in sizes]
    src = list(c.axes)
    tgt = [a.size for a in axes]

    def imap(idx):
        if not src:
            return []
        return unflatten(flat_index(idx, axes), [a.size for a in src])

    def inv(bidx):
        return ONE, unflatten(flat_index(bidx, src), tgt)
    if c.contig:
        return I.make_view(o, axes, imap, inv, True)
    s = I.snap(o)
    return I.alloc(ArrC(axes, lambda idx: s.fn(imap(idx)), s.dtype))


def transpose(I, o, perm):
    c = I.c(o)
    axes = [c.axes[p] for p in perm]

    def imap(idx):
        b = [None] * c.ndim
        for k, p in enumerate(perm):
            b[p] = idx[k]
        return b

    def inv(bidx):
        return ONE, [bidx[p] for p in perm]
    if c.ndim <= 1:
        return o
    return I.make_view(o, axes, imap, inv, False)


def dot(I, a, b, node=None, matmul=False):
    for x, sw in ((a, 0), (b, 1)):
        if isinstance(x, Phi):
            return I.phi_map(x, lambda z: dot(
                I, *((z, b) if not sw else (a, z)), node=node))
    x, y = as_arr(I, a), as_arr(I, b)
    if x is None or y is None:
        return I.gap("dot of unknown", node)
    if x.ndim == 0 or y.ndim == 0:
        return elementwise(I, lambda p, q: p * q, [a, b], arith_dtype, node)
    if matmul and (x.ndim > 2 or y.ndim > 2):
        return matmul_nd(I, x, y, node)
    ax, ay = x.axes[-1], y.axes[-2 if y.ndim > 1 else 0]
    if ax.size != ay.size and not same_size(ax.size, ay.size):
        if size_differs(ax.size, ay.size):
            raise ShapeError("dot: sizes %r and %r differ"
                             % (ax.size, ay.size))
        return I.gap("dot with unknown sizes", node)
    kax = ax if ax.rich() >= ay.rich() else ay
    axes = x.axes[:-1] + ([y_ for i, y_ in enumerate(y.axes)
                           if i != (y.ndim - 2 if y.ndim > 1 else 0)])
    nx = x.ndim - 1

    def fn(idx):
        xi, yi = list(idx[:nx]), list(idx[nx:])

        def term(k):
            if y.ndim > 1:
                yy = yi[:-1] + [k] + yi[-1:]
            else:
                yy = [k]
            return x.fn(xi + [k]) * y.fn(yy)
        return sum_axis_elem(kax, term)
    return wrap(I, ArrC(axes, fn, arith_dtype([x.dtype, y.dtype])))


def matmul_nd(I, x, y, node):
    if y.ndim < 2 or x.ndim < 2:
        return I.gap("matmul", node)
    bx = ArrC(x.axes[:-2], None)
    by = ArrC(y.axes[:-2], None)
    nd = max(bx.ndim, by.ndim)
    baxes = []
    for k in range(nd):
        jx, jy = k - (nd - bx.ndim), k - (nd - by.ndim)
        cand = []
        if jx >= 0:
            cand.append(bx.axes[jx])
        if jy >= 0:
            cand.append(by.axes[jy])
        cand = [q for q in cand if not is_one(q.size)] or cand
        baxes.append(cand[0])
    kax = x.axes[-1] if x.axes[-1].rich() >= y.axes[-2].rich() \
        else y.axes[-2]
    if size_differs(x.axes[-1].size, y.axes[-2].size):
        raise ShapeError("matmul sizes differ")
    axes = baxes + [x.axes[-2], y.axes[-1]]

    def fn(idx):
        b = list(idx[:nd])

        def term(k):
            xb = [ZERO if is_one(x.axes[j].size) else
                  b[nd - bx.ndim + j] for j in range(bx.ndim)]
            yb = [ZERO if is_one(y.axes[j].size) else
                  b[nd - by.ndim + j] for j in range(by.ndim)]
            return x.fn(xb + [idx[nd], k]) * y.fn(yb + [k, idx[nd + 1]])
        return sum_axis_elem(kax, term)
    return I.alloc(ArrC(axes, fn, arith_dtype([x.dtype, y.dtype])))


def outer(I, a, b, node):
    x, y = as_arr(I, a), as_arr(I, b)
    if x is None or y is None:
        return I.gap("outer", node)
    fx, fy = flatc(x), flatc(y)
    return I.alloc(ArrC([fx.axes[0], fy.axes[0]],
                        lambda ix: fx.fn([ix[0]]) * fy.fn([ix[1]]),
                        arith_dtype([x.dtype, y.dtype])))


def flatc(x):
    if x.ndim == 1:
        return x
    if x.ndim == 0:
        return ArrC([Axis.of(1)], lambda ix: x.fn([]), x.dtype)
    fs = factor_list(x.axes)
    axes = [Axis([tuple(fs)])] if fs is not None else \
        [Axis.of(total_size(x.axes))]
    return ArrC(axes, lambda ix: x.fn(unflatten(
        ix[0], [a.size for a in x.axes])), x.dtype)


def concat(I, arrs, axis, node):
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ShapeError("concatenate: numbers of dimensions differ")
    if nd == 0:
        raise ShapeError("concatenate of scalars")
    axis = axis % nd
    axes = []
    for k in range(nd):
        if k == axis:
            segs = []
            for a in arrs:
                segs.extend(a.axes[k].segs)
            # merge: keep as segments
            axes.append(Axis(segs))
        else:
            axes.append(merge_axes([ArrC([a.axes[k]], None)
                                    for a in arrs])[0])
    sizes = [a.axes[axis].size for a in arrs]

    def fn(idx):
        i = idx[axis]
        off = ZERO
        res = ZERO
        remaining = ONE
        for a, s in zip(arrs, sizes):
            loc = i - off
            sub = list(idx)
            sub[axis] = loc
            in_ = ind_ge0(loc) * ind_ge0(s - 1 - loc)
            c = in_.const()
            if c == 1:
                return a.fn(sub)
            if c != 0:
                res = res + in_ * a.fn(sub)
            off = off + s
        return res
    return I.alloc(ArrC(axes, fn, join_dtype([a.dtype for a in arrs])))


def seq_arrays(I, v, node):
    """arrays of a sequence: list of ArrC, or ('seq', n, var, ArrC)"""
    if I.is_arr(v):
        c = I.snap(v)
        n = c.axes[0].size.const()
        if n is not None and n <= 12:
            return [ArrC(c.axes[1:], lambda ix, k=k: c.fn([E(k)] + list(ix)),
                         c.dtype) for k in range(int(n))]
        u = fresh_var(c.axes[0].size)
        return ('seq', c.axes[0], u, ArrC(
            c.axes[1:], lambda ix: c.fn([atom(u)] + list(ix)), c.dtype))
    it = I.to_items(v)
    if it is None:
        return None
    if it[0] == 'items':
        out = [as_arr(I, x) for x in it[1]]
        if any(o is None for o in out):
            return None
        return out
    sq = it[1]
    if I.is_list(v) and len(I.c(v).parts) > 1:
        return None
    u = fresh_var(sq.n)
    a = as_arr(I, sq.item(atom(u)))
    if a is None:
        return None
    ax = Axis.of(sq.n)
    if getattr(sq, 'sel', None) is not None:
        return None
    return ('seq', ax, u, a)


def stack_concat(I, r, axis, node):
    """concatenate a symbolic number of equally sized blocks along axis"""
    _, ax0, u, a = r
    for x in a.axes:
        if e_depends(x.size, u):
            return I.gap("concatenation of blocks of varying size", node)
    axis = axis % a.ndim
    inner = a.axes[axis]
    if len(ax0.segs) == 1 and len(inner.segs) == 1 and \
            ax0.segs[0][0] != 'sel' and inner.segs[0][0] != 'sel':
        nax = Axis([tuple(ax0.segs[0]) + tuple(inner.segs[0])])
    else:
        nax = Axis.of(ax0.size * inner.size)
    axes = list(a.axes)
    axes[axis] = nax

    def fn(idx):
        q = int_div(idx[axis], inner.size)
        r_ = int_mod(idx[axis], inner.size)
        sub = list(idx)
        sub[axis] = r_
        return subst(a.fn(sub), {u: q})
    return I.alloc(ArrC(axes, fn, a.dtype))


# -- reductions ------------------------------------------------------------------------
def get_axis(v, nd):
    if v is None or is_none(v):
        return None
    e = num(v)
    c = e.const() if e is not None else None
    if c is None:
        return 'x'
    return int(c) % nd if nd else 0


def reduce_sum(I, v, axis, node, keepdims=False):
    a = as_arr(I, v)
    if a is None:
        return I.gap("sum of unknown", node)
    dt = 'int' if a.dtype == 'bool' else a.dtype
    if isinstance(axis, Tup):
        axs = sorted([get_axis(x, a.ndim) for x in axis.items], reverse=True)
        r = v
        for x in axs:
            r = reduce_sum(I, r, Num(E(x)), node)
        return r
    k = get_axis(axis, a.ndim)
    if k == 'x':
        return I.gap("sum axis", node)
    if k is None or a.ndim <= 1:
        r = Num(sum_all(a), dt if dt in ('int', 'float') else None)
        if keepdims:
            return I.alloc(ArrC([Axis.of(1)] * a.ndim, lambda ix: r.e, dt))
        return r
    axes = a.axes[:k] + ([Axis.of(1)] if keepdims else []) + a.axes[k + 1:]

    def fn(idx):
        rest = list(idx)
        if keepdims:
            del rest[k]
        return sum_axis_elem(a.axes[k], lambda m: a.fn(
            rest[:k] + [m] + rest[k:]))
    return wrap(I, ArrC(axes, fn, dt))


def reduce_fn(I, name, v, axis, node, dtype=None, keepdims=False):
    """uninterpreted reduction (max, argmax, ...) over canonical cells"""
    a = as_arr(I, v)
    if a is None:
        return I.gap("%s of unknown" % name, node)
    k = get_axis(axis, a.ndim)
    if k == 'x':
        return I.gap("axis", node)
    dt = dtype or a.dtype
    if a.ndim == 0:
        return v
    if k is None:
        key = arr_key(a)
        return Num(mk_fn(name, [key]), dt if dt in ('int', 'float', 'bool')
                   else None)
    axes = a.axes[:k] + ([Axis.of(1)] if keepdims else []) + a.axes[k + 1:]

    def fn(idx):
        rest = list(idx)
        if keepdims:
            del rest[k]
        row = ArrC([a.axes[k]], lambda m: a.fn(
            rest[:k] + [m[0]] + rest[k:]), a.dtype)
        return mk_fn(name, [arr_key(row)])
    return wrap(I, ArrC(axes, fn, dt))


def few_cells(a, limit=12):
    """cells of a small array of known shape"""
    import itertools
    dims = [x.size.const() for x in a.axes]
    n = 1
    for d in dims:
        if d is None:
            return None
        n *= int(d)
    if n > limit:
        return None
    return [a.fn([E(i) for i in ix]) for ix in itertools.product(
        *[range(int(d)) for d in dims])]


def any_all(I, v, axis, node, is_any):
    a = as_arr(I, v)
    if a is None:
        return Unk('any/all')
    if a.ndim == 0:
        return Num(I.truth(v if isinstance(v, Num) else Num(a.fn([]))),
                   'bool')
    tot = total_size(a.axes)
    if tot.const() == 0:
        return Num(ZERO if is_any else ONE, 'bool')
    k = get_axis(axis, a.ndim)
    cells = few_cells(a) if k is None else None
    if cells is not None:
        acc = ZERO if is_any else ONE
        for x in cells:
            if a.dtype != 'bool':
                x = ONE - ind_eq(x, ZERO)
            acc = acc + x - acc * x if is_any else acc * x
        return Num(acc, 'bool')
    bs = [fresh_var(x.size) for x in a.axes]
    e = a.fn([atom(b) for b in bs])
    if a.dtype != 'bool':
        e = ONE - ind_eq(e, ZERO)
    if k is None:
        if e == ONE or e == ZERO:
            return Num(e, 'bool')
        return Num(atom(('fn', 'cond:%s' % ('any' if is_any else 'all'),
                         (mk_key(bs, e),))), 'bool')
    if k == 'x':
        return Unk('any/all')
    axes = a.axes[:k] + a.axes[k + 1:]

    def fn(idx):
        b = fresh_var(a.axes[k].size)
        rest = list(idx)
        x = a.fn(rest[:k] + [atom(b)] + rest[k:])
        if a.dtype != 'bool':
            x = ONE - ind_eq(x, ZERO)
        if x == ONE or x == ZERO:
            return x
        return atom(('fn', 'cond:%s' % ('any' if is_any else 'all'),
                     (mk_key([b], x),)))
    return wrap(I, ArrC(axes, fn, 'bool'))


def cumsum(I, v, axis, node):
    a = as_arr(I, v)
    if a is None:
        return I.gap("cumsum", node)
    if a.ndim != 1:
        return I.gap("cumsum nd", node)

    def fn(idx):
        c = idx[0].const()
        if c is not None:
            r = ZERO
            for k in range(int(c) + 1):
                r = r + a.fn([E(k)])
            return r
        n = a.axes[0].size.const()
        if n is not None and n <= 12:
            r = ZERO
            for k in range(int(n)):
                r = r + a.fn([E(k)]) * ind_ge0(idx[0] - k)
            return r
        b = fresh_var(idx[0] + 1)
        return mk_sum(b, a.fn([atom(b)]))
    return I.alloc(ArrC(a.axes, fn, 'int' if a.dtype == 'bool' else a.dtype))


# -- the function table ---------------------------------------------------------------------
F = {}


def reg(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def shape_arg(I, v):
    if isinstance(v, Num):
        return [v.e]
    it = I.to_items(v) if not isinstance(v, Unk) else None
    if it is None or it[0] != 'items':
        return None
    out = [num(x) for x in it[1]]
    return None if None in out else out


def filled(name, value):
    def f(I, args, kw, node):
        sh = shape_arg(I, arg(args, kw, 0, 'shape'))
        if sh is None:
            return I.gap("%s shape" % name, node)
        dt = dtype_of(arg(args, kw, 1, 'dtype'))
        return I.alloc(ArrC([Axis.of(s) for s in sh],
                            lambda ix: value() , dt))
    return f


F['numpy.zeros'] = filled('zeros', lambda: ZERO)
F['numpy.ones'] = filled('ones', lambda: ONE)


def garbage(I, axes, dt):
    """uninitialised memory: unknown, but the same each time it is read"""
    I.nloc += 1
    name = 'undef:%d' % I.nloc
    return ArrC(axes, lambda ix: mk_read(name, ix, None, None, dt in (
        'int', 'bool')), dt)


@reg('numpy.empty')
def f_empty(I, args, kw, node):
    sh = shape_arg(I, arg(args, kw, 0, 'shape'))
    if sh is None:
        return I.gap("empty shape", node)
    return I.alloc(garbage(I, [Axis.of(s) for s in sh],
                           dtype_of(arg(args, kw, 1, 'dtype'))))


@reg('numpy.empty_like')
def f_empty_like(I, args, kw, node):
    a = as_arr(I, args[0])
    if a is None:
        return I.gap("like", node)
    return wrap(I, garbage(I, a.axes, dtype_of(arg(args, kw, 1, 'dtype'),
                                               a.dtype)))


def filled_like(value):
    def f(I, args, kw, node):
        a = as_arr(I, args[0])
        if a is None:
            return I.gap("like", node)
        dt = dtype_of(arg(args, kw, 1, 'dtype'), a.dtype)
        return wrap(I, ArrC(a.axes, lambda ix: value(), dt))
    return f


F['numpy.zeros_like'] = filled_like(lambda: ZERO)
F['numpy.ones_like'] = filled_like(lambda: ONE)


@reg('numpy.full')
def f_full(I, args, kw, node):
    sh = shape_arg(I, args[0])
    v = arg(args, kw, 1, 'fill_value')
    if sh is None or not isinstance(v, Num):
        return I.gap("full", node)
    return I.alloc(ArrC([Axis.of(s) for s in sh], lambda ix: v.e,
                        dtype_of(arg(args, kw, 2, 'dtype'), v.kind)))


@reg('numpy.full_like')
def f_full_like(I, args, kw, node):
    a = as_arr(I, args[0])
    v = arg(args, kw, 1, 'fill_value')
    if a is None or not isinstance(v, Num):
        return I.gap("full_like", node)
    return I.alloc(ArrC(a.axes, lambda ix: v.e, a.dtype))


@reg('numpy.eye', 'numpy.identity')
def f_eye(I, args, kw, node):
    n = num(args[0])
    m = num(args[1]) if len(args) > 1 and isinstance(args[1], Num) else n
    if n is None or m is None or 'k' in kw:
        return I.gap("eye", node)
    return I.alloc(ArrC([Axis.of(n), Axis.of(m)],
                        lambda ix: ind_eq(ix[0], ix[1]),
                        dtype_of(kw.get('dtype'))))


@reg('numpy.arange', 'builtins.range', 'future.range', 'builtins.xrange')
def f_arange(I, args, kw, node):
    es = [num(a) for a in args]
    if any(e is None for e in es) or not es:
        return I.gap("arange", node)
    lo, st = ZERO, ONE
    if len(es) == 1:
        hi = es[0]
    else:
        lo, hi = es[0], es[1]
    if len(es) == 3:
        st = es[2]
    k = st.const()
    if k is None or k == 0:
        return I.gap("range step", node)
    n = hi - lo
    if k == -1:
        n = lo - hi
    elif k != 1:
        n = int_div(hi - lo + k - 1, st) if k > 0 else \
            int_div(lo - hi - k - 1, -st)
    if n.const() is not None and n.const() < 0:
        n = ZERO
    return I.alloc(ArrC([Axis.of(n)], lambda ix: lo + ix[0] * st, 'int'))


@reg('numpy.indices')
def f_indices(I, args, kw, node):
    sh = shape_arg(I, args[0])
    if sh is None:
        return I.gap("indices", node)
    return indices(I, sh)


@reg(*['scipy.sparse.%s_%s' % (f, k) for f in ('coo', 'csr', 'csc', 'lil')
       for k in ('matrix',)])
def f_sparse(I, args, kw, node):
    a = args[0]
    sh = arg(args, kw, 1, 'shape')
    if I.is_arr(a):
        return cast(I, I.snap(a), 'sparse')
    if not isinstance(a, Tup) or len(a.items) != 2 or sh is None:
        return I.gap('sparse matrix', node)
    data = as_arr(I, a.items[0])
    ij = as_arr(I, a.items[1])
    dims = I.to_items(sh)
    if data is None or ij is None or dims is None or dims[0] != 'items':
        return I.gap('sparse matrix', node)
    d = [num(x) for x in dims[1]]
    if len(d) != 2 or None in d or ij.ndim != 2 or data.ndim != 1:
        return I.gap('sparse matrix', node)

    def el(ix):
        return sum_axis_elem(data.axes[0], lambda k: data.fn([k]) * ind_eq(
            ij.fn([ZERO, k]), ix[0]) * ind_eq(ij.fn([ONE, k]), ix[1]))
    return I.new_arr([Axis.of(x) for x in d], el, 'sparse')


@reg('sklearn.cluster.KMeans')
def f_kmeans(I, args, kw, node):
    if 'k' in kw:
        I.event('raise', node=node, msg='KMeans has no parameter k')
    k = num(arg(args, kw, 0, 'n_clusters', Num(E(8))))
    if k is None:
        return I.gap('KMeans', node)
    o = I.new_obj(None, {})

    def predict(I, a, kws):
        x = as_arr(I, a[0])
        if x is None:
            return Unk('KMeans.predict')
        nm = 'km%d' % next(_KM)
        return I.input_arr(nm, [x.axes[0]], lo=0, hi=k, dtype='int')
    for nm, f in (('fit', lambda I, a, kws: o), ('predict', predict),
                  ('fit_predict', predict)):
        I.set_attr(o, nm, ModelFn(f, 'KMeans.' + nm))
    return o


_KM = itertools.count()


@reg('numpy.dot', 'numpy.matmul')
def f_dot(I, args, kw, node):
    return dot(I, args[0], args[1], node)


@reg('numpy.inner', 'numpy.vdot')
def f_inner(I, args, kw, node):
    x, y = as_arr(I, args[0]), as_arr(I, args[1])
    if x is None or y is None or x.ndim > 1 or y.ndim > 1:
        return I.gap("inner", node)
    return dot(I, args[0], args[1], node)


@reg('numpy.outer')
def f_outer(I, args, kw, node):
    return outer(I, args[0], args[1], node)


@reg('numpy.tensordot')
def f_tensordot(I, args, kw, node):
    x, y = as_arr(I, args[0]), as_arr(I, args[1])
    axv = arg(args, kw, 2, 'axes', Num(E(2)))
    if x is None or y is None:
        return I.gap("tensordot", node)
    if isinstance(axv, Num):
        k = int(axv.e.const())
        xa, ya = list(range(x.ndim - k, x.ndim)), list(range(k))
    else:
        it = I.to_items(axv)[1]
        def lst(v):
            if isinstance(v, Num):
                return [int(v.e.const())]
            return [int(q.e.const()) for q in I.to_items(v)[1]]
        xa, ya = lst(it[0]), lst(it[1])
    xa = [a % x.ndim for a in xa]
    ya = [a % y.ndim for a in ya]
    kaxes = []
    for p, q in zip(xa, ya):
        if size_differs(x.axes[p].size, y.axes[q].size):
            raise ShapeError("tensordot sizes differ")
        kaxes.append(x.axes[p] if x.axes[p].rich() >= y.axes[q].rich()
                     else y.axes[q])
    xr = [i for i in range(x.ndim) if i not in xa]
    yr = [i for i in range(y.ndim) if i not in ya]
    axes = [x.axes[i] for i in xr] + [y.axes[i] for i in yr]

    def fn(idx):
        out = ZERO
        for bs, g, ks in iter_axes(kaxes):
            xi, yi = [None] * x.ndim, [None] * y.ndim
            for p, k in zip(xa, ks):
                xi[p] = k
            for q, k in zip(ya, ks):
                yi[q] = k
            for n, i in enumerate(xr):
                xi[i] = idx[n]
            for n, i in enumerate(yr):
                yi[i] = idx[len(xr) + n]
            out = out + sum_over(bs, g * x.fn(xi) * y.fn(yi))
        return out
    return wrap(I, ArrC(axes, fn, arith_dtype([x.dtype, y.dtype])))


@reg('numpy.einsum')
def f_einsum(I, args, kw, node):
    if not isinstance(args[0], Const):
        return I.gap("einsum", node)
    spec = args[0].v.replace(' ', '')
    if '.' in spec:
        return I.gap("einsum", node)
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters)
                             if letters.count(c) == 1))
    ins = ins.split(',')
    arrs = [as_arr(I, a) for a in args[1:]]
    if any(a is None for a in arrs) or len(ins) != len(arrs):
        return I.gap("einsum", node)
    ax = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ShapeError("einsum rank")
        for c, x in zip(s, a.axes):
            if c in ax:
                if size_differs(ax[c].size, x.size):
                    raise ShapeError("einsum sizes differ")
                if x.rich() > ax[c].rich():
                    ax[c] = x
            else:
                ax[c] = x
    summed = [c for c in ax if c not in out]

    def fn(idx):
        m = dict(zip(out, idx))
        tot = ZERO
        for bs, g, ks in iter_axes([ax[c] for c in summed]):
            mm = dict(m)
            mm.update(zip(summed, ks))
            p = g
            for s, a in zip(ins, arrs):
                p = p * a.fn([mm[c] for c in s])
            tot = tot + sum_over(bs, p)
        return tot
    return wrap(I, ArrC([ax[c] for c in out], fn,
                        arith_dtype([a.dtype for a in arrs])))


def at_least(a, n):
    if a.ndim >= n:
        return a
    if n == 1:
        return ArrC([Axis.of(1)], lambda ix: a.fn([]), a.dtype)
    if n == 2:
        if a.ndim == 0:
            return ArrC([Axis.of(1), Axis.of(1)], lambda ix: a.fn([]),
                        a.dtype)
        return ArrC([Axis.of(1)] + a.axes, lambda ix: a.fn(ix[1:]), a.dtype)


@reg('numpy.hstack')
def f_hstack(I, args, kw, node):
    r = seq_arrays(I, args[0], node)
    if r is None:
        return I.gap("hstack", node)
    if isinstance(r, tuple):
        _, ax, u, a = r
        a2 = at_least(a, 1)
        r = (r[0], ax, u, a2)
        return stack_concat(I, r, 0 if a2.ndim == 1 else 1, node)
    r = [at_least(a, 1) for a in r]
    if not r:
        raise ShapeError("need at least one array to concatenate")
    return concat(I, r, 0 if r[0].ndim == 1 else 1, node)


@reg('numpy.vstack', 'numpy.row_stack')
def f_vstack(I, args, kw, node):
    r = seq_arrays(I, args[0], node)
    if r is None:
        return I.gap("vstack", node)
    if isinstance(r, tuple):
        _, ax, u, a = r
        return stack_concat(I, (r[0], ax, u, at_least(a, 2)), 0, node)
    if not r:
        raise ShapeError("need at least one array to concatenate")
    return concat(I, [at_least(a, 2) for a in r], 0, node)


@reg('numpy.concatenate')
def f_concat(I, args, kw, node):
    r = seq_arrays(I, args[0], node)
    axv = arg(args, kw, 1, 'axis', Num(ZERO))
    if r is None:
        return I.gap("concatenate", node)
    if is_none(axv):
        if isinstance(r, tuple):
            return I.gap("concatenate axis None", node)
        return concat(I, [flatc(a) for a in r], 0, node)
    ax = int(num(axv).const())
    if isinstance(r, tuple):
        return stack_concat(I, r, ax, node)
    if not r:
        raise ShapeError("need at least one array to concatenate")
    return concat(I, r, ax, node)


@reg('numpy.append')
def f_append(I, args, kw, node):
    a, b = as_arr(I, args[0]), as_arr(I, args[1])
    axv = arg(args, kw, 2, 'axis')
    if a is None or b is None:
        return I.gap("append", node)
    if axv is None or is_none(axv):
        return concat(I, [flatc(a), flatc(b)], 0, node)
    return concat(I, [a, b], int(num(axv).const()), node)


@reg('numpy.column_stack')
def f_colstack(I, args, kw, node):
    r = seq_arrays(I, args[0], node)
    if r is None or isinstance(r, tuple):
        return I.gap("column_stack", node)
    r = [ArrC([a.axes[0], Axis.of(1)], lambda ix, a=a: a.fn([ix[0]]),
              a.dtype) if a.ndim == 1 else a for a in r]
    return concat(I, r, 1, node)


@reg('numpy.stack')
def f_stack(I, args, kw, node):
    axv = arg(args, kw, 1, 'axis', Num(ZERO))
    it = I.to_items(args[0])
    if it is None:
        return I.gap("stack", node)
    a = stack_arr(I, it)
    if a is None:
        return I.gap("stack", node)
    k = int(num(axv).const()) % a.ndim
    if k == 0:
        return I.alloc(a)
    perm = list(range(1, a.ndim))
    perm.insert(k, 0)
    ref = I.alloc(a)
    return I.alloc(I.snap(transpose(I, ref, perm)))


@reg('numpy.array', 'numpy.copy')
def f_array(I, args, kw, node):
    v = args[0]
    if isinstance(v, Phi):
        return I.phi_map(v, lambda x: f_array(I, [x] + args[1:], kw, node))
    a = as_arr(I, v)
    if a is None:
        return I.gap("array of unknown", node)
    dt = dtype_of(arg(args, kw, 1, 'dtype'), a.dtype)
    return cast(I, a, dt, node)


def cast(I, a, dt, node=None):
    if dt == a.dtype or dt in ('float', 'obj'):
        return I.alloc(ArrC(a.axes, a.fn, dt))
    if dt == 'int':
        from .interp import trunc
        return I.alloc(ArrC(a.axes, lambda ix: trunc(a.fn(ix)), dt))
    if dt == 'bool':
        return I.alloc(ArrC(a.axes, lambda ix: ONE - ind_eq(a.fn(ix), ZERO),
                            dt))
    return I.alloc(ArrC(a.axes, a.fn, dt))


@reg('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray',
     'numpy.require', 'numpy.atleast_1d', 'numpy.asfortranarray',
     'numpy.array_as')
def f_asarray(I, args, kw, node):
    v = args[0]
    if I.is_arr(v):
        d = arg(args, kw, 1, 'dtype')
        if d is None or is_none(d) or dtype_of(d) == I.snap(v).dtype:
            return v
        return cast(I, I.snap(v), dtype_of(d), node)
    return f_array(I, args, kw, node)


@reg('numpy.atleast_2d')
def f_at2(I, args, kw, node):
    if I.is_arr(args[0]):
        c = I.c(args[0])
        if c.ndim >= 2:
            return args[0]
        return getitem(I, args[0], Tup([NONE, Slice(None, None, None)]),
                       node)
    a = as_arr(I, args[0])
    if a is None:
        return I.gap("atleast_2d", node)
    return I.alloc(at_least(a, 2))


@reg('numpy.reshape')
def f_reshape(I, args, kw, node):
    sh = arg(args, kw, 1, 'newshape')
    return reshape(I, args[0], [sh], node)


@reg('numpy.ravel')
def f_ravel(I, args, kw, node):
    if kw or len(args) > 1:
        o = arg(args, kw, 1, 'order')
        if isinstance(o, Const) and o.v == 'F':
            return reshape(I, call_method(I, args[0], 'transpose', [], {},
                                          node), [Num(E(-1))], node)
    return reshape(I, args[0], [Num(E(-1))], node)


@reg('numpy.transpose')
def f_transpose(I, args, kw, node):
    a = args[0]
    if not I.is_arr(a):
        x = as_arr(I, a)
        if x is None:
            return I.gap("transpose", node)
        a = I.alloc(x)
    return call_method(I, a, 'transpose', list(args[1:]), kw, node)


@reg('numpy.swapaxes', 'numpy.rollaxis', 'numpy.moveaxis')
def f_swap(I, args, kw, node):
    return I.gap("axis move", node)


@reg('numpy.expand_dims')
def f_expand(I, args, kw, node):
    k = num(arg(args, kw, 1, 'axis')).const()
    if not I.is_arr(args[0]):
        return I.gap("expand_dims", node)
    nd = I.c(args[0]).ndim
    k = int(k) % (nd + 1)
    ix = [Slice(None, None, None)] * nd
    ix.insert(k, NONE)
    return getitem(I, args[0], Tup(ix), node)


@reg('numpy.squeeze')
def f_squeeze(I, args, kw, node):
    return call_method(I, args[0], 'squeeze', list(args[1:]), kw, node)


@reg('numpy.sum', 'numpy.add.reduce')
def f_sum(I, args, kw, node):
    kd = kw.get('keepdims')
    return reduce_sum(I, args[0], arg(args, kw, 1, 'axis',
                                      Num(ZERO) if False else None), node,
                      keepdims=kd is not None and
                      I.truth(kd).const() == 1)


@reg('numpy.mean', 'numpy.average')
def f_mean(I, args, kw, node):
    a = as_arr(I, args[0])
    axv = arg(args, kw, 1, 'axis')
    if a is None:
        return I.gap("mean", node)
    s = reduce_sum(I, args[0], axv, node)
    k = get_axis(axv, a.ndim)
    n = total_size(a.axes) if k is None else a.axes[k].size
    return binop(I, 'Div', s, Num(n, 'int'), node)


@reg('numpy.prod', 'numpy.product')
def f_prod(I, args, kw, node):
    it = I.to_items(args[0]) if not isinstance(args[0], Unk) else None
    if it and it[0] == 'items':
        r = ONE
        for x in it[1]:
            if num(x) is None:
                return I.gap("prod", node)
            r = r * num(x)
        return Num(r)
    return reduce_fn(I, 'prod', args[0], arg(args, kw, 1, 'axis'), node)


for _n in ('argmax', 'argmin'):
    def _mk(_n):
        def f(I, args, kw, node):
            return reduce_fn(I, _n, args[0], arg(args, kw, 1, 'axis'), node,
                             'int')
        return f
    F['numpy.' + _n] = _mk(_n)
for _n, _m in (('max', 'max'), ('min', 'min'), ('amax', 'max'),
               ('amin', 'min'), ('std', 'std'), ('var', 'var'),
               ('median', 'median'), ('ptp', 'ptp'), ('nanmax', 'max')):
    def _mk(_m):
        def f(I, args, kw, node):
            kd = kw.get('keepdims')
            return reduce_fn(I, _m, args[0], arg(args, kw, 1, 'axis'), node,
                             keepdims=kd is not None and
                             I.truth(kd).const() == 1)
        return f
    F['numpy.' + _n] = _mk(_m)


@reg('numpy.any', 'builtins.any')
def f_any(I, args, kw, node):
    return any_all(I, args[0], arg(args, kw, 1, 'axis'), node, True)


@reg('numpy.all', 'builtins.all')
def f_all(I, args, kw, node):
    return any_all(I, args[0], arg(args, kw, 1, 'axis'), node, False)


@reg('numpy.array_equal')
def f_array_equal(I, args, kw, node):
    a, b = as_arr(I, args[0]), as_arr(I, args[1])
    if a is None or b is None:
        return Unk('array_equal')
    if a.ndim != b.ndim:
        return Num(ZERO, 'bool')
    for x, y in zip(a.axes, b.axes):
        if size_differs(x.size, y.size):
            return Num(ZERO, 'bool')
    return any_all(I, elementwise(I, CMP['Eq'], [args[0], args[1]], 'bool'),
                   None, node, False)


@reg('numpy.cumsum')
def f_cumsum(I, args, kw, node):
    return cumsum(I, args[0], arg(args, kw, 1, 'axis'), node)


@reg('numpy.repeat')
def f_repeat(I, args, kw, node):
    a = as_arr(I, args[0])
    n = num(arg(args, kw, 1, 'repeats'))
    if a is None or n is None:
        return I.gap("repeat", node)
    k = get_axis(arg(args, kw, 2, 'axis'), a.ndim)
    if k is None:
        a = flatc(a)
        k = 0
    axes = list(a.axes)
    s = axes[k].segs
    if is_one(axes[k].size):
        axes[k] = Axis.of(n)
    elif len(s) == 1 and s[0][0] != 'sel':
        axes[k] = Axis([tuple(s[0]) + (n,)])
    else:
        axes[k] = Axis.of(axes[k].size * n)

    def fn(idx):
        sub = list(idx)
        sub[k] = int_div(idx[k], n)
        if is_one(a.axes[k].size):
            sub[k] = ZERO
        return a.fn(sub)
    return I.alloc(ArrC(axes, fn, a.dtype))


@reg('numpy.tile')
def f_tile(I, args, kw, node):
    a = as_arr(I, args[0])
    reps = args[1] if len(args) > 1 else kw.get('reps')
    rs = shape_arg(I, reps)
    if a is None or rs is None:
        return I.gap("tile", node)
    nd = max(a.ndim, len(rs))
    rs = [ONE] * (nd - len(rs)) + rs
    axes0 = [Axis.of(1)] * (nd - a.ndim) + a.axes
    axes = []
    for r, x in zip(rs, axes0):
        if is_one(r):
            axes.append(x)
        elif is_one(x.size):
            axes.append(Axis.of(r))
        elif len(x.segs) == 1 and x.segs[0][0] != 'sel':
            axes.append(Axis([(r,) + tuple(x.segs[0])]))
        else:
            axes.append(Axis.of(r * x.size))

    def fn(idx):
        sub = [ZERO if is_one(x.size) else
               (i if is_one(r) else int_mod(i, x.size))
               for i, r, x in zip(idx, rs, axes0)]
        return a.fn(sub[nd - a.ndim:])
    return I.alloc(ArrC(axes, fn, a.dtype))


@reg('numpy.broadcast_to')
def f_bto(I, args, kw, node):
    a = as_arr(I, args[0])
    sh = shape_arg(I, args[1])
    if a is None or sh is None:
        return I.gap("broadcast_to", node)
    axes = [Axis.of(s) for s in sh]
    return I.alloc(ArrC(axes, broadcast_fn(a, axes), a.dtype))


@reg('numpy.where')
def f_where(I, args, kw, node):
    if len(args) == 3:
        return elementwise(I, lambda c, x, y: mix(c, x, y),
                           [boolify(I, args[0])] + list(args[1:]),
                           lambda d: arith_dtype(d[1:])
                           if set(d[1:]) != {'bool'} else 'bool', node)
    return f_nonzero(I, args, kw, node)


def boolify(I, v):
    if kind_of(I, v) == 'bool':
        return v
    return elementwise(I, lambda x: ONE - ind_eq(x, ZERO), [v], 'bool')


@reg('numpy.nonzero', 'numpy.flatnonzero')
def f_nonzero(I, args, kw, node):
    m = as_arr(I, boolify(I, args[0]))
    if m is None:
        return I.gap("nonzero", node)
    return Tup(nonzero_arrays(I, m))


def nonzero_arrays(I, m):
    sel = Sel([a.size for a in m.axes], m.fn)
    cells = concrete_sel(sel)
    if cells is not None:
        return [I.alloc(cell_array([t[j] for t in cells]))
                for j in range(m.ndim)]
    out = []
    for j in range(m.ndim):
        def fn(idx, j=j):
            inv = RANKINV.get((sel.key.key, idx[0].key))
            if inv is None:
                inv = sel_inverse(sel, idx[0])
            return inv[j]
        out.append(I.alloc(ArrC([Axis([('sel', sel)])], fn, 'int')))
    return out


def f_flatnonzero(I, args, kw, node):
    m = as_arr(I, boolify(I, args[0]))
    if m is None:
        return I.gap("nonzero", node)
    return nonzero_arrays(I, flatc(m))[0]


F['numpy.flatnonzero'] = f_flatnonzero


@reg('numpy.tri')
def f_tri(I, args, kw, node):
    n = num(args[0])
    mv = arg(args, kw, 1, 'M')
    m = n if mv is None or is_none(mv) else num(mv)
    k = num(arg(args, kw, 2, 'k', Num(ZERO)))
    if n is None or m is None or k is None:
        return I.gap("tri", node)
    return I.alloc(ArrC([Axis.of(n), Axis.of(m)],
                        lambda ix: ind_ge0(ix[0] - ix[1] + k),
                        dtype_of(arg(args, kw, 3, 'dtype'))))


def tri_part(lower):
    def f(I, args, kw, node):
        a = as_arr(I, args[0])
        k = num(arg(args, kw, 1, 'k', Num(ZERO)))
        if a is None or k is None or a.ndim != 2:
            return I.gap("tril", node)
        if lower:
            g = lambda ix: ind_ge0(ix[0] - ix[1] + k)
        else:
            g = lambda ix: ind_ge0(ix[1] - ix[0] - k)
        return I.alloc(ArrC(a.axes, lambda ix: g(ix) * a.fn(ix), a.dtype))
    return f


F['numpy.tril'] = tri_part(True)
F['numpy.triu'] = tri_part(False)


def tri_ind(lower, frm=False):
    def f(I, args, kw, node):
        if frm:
            n = I.c(args[0]).axes[0].size
        else:
            n = num(args[0])
        k = num(arg(args, kw, 1, 'k', Num(ZERO)))
        if n is None or k is None:
            return I.gap("tril_indices", node)
        if lower:
            m = ArrC([Axis.of(n), Axis.of(n)],
                     lambda ix: ind_ge0(ix[0] - ix[1] + k), 'bool')
        else:
            m = ArrC([Axis.of(n), Axis.of(n)],
                     lambda ix: ind_ge0(ix[1] - ix[0] - k), 'bool')
        return Tup(nonzero_arrays(I, m))
    return f


F['numpy.tril_indices'] = tri_ind(True)
F['numpy.triu_indices'] = tri_ind(False)
F['numpy.tril_indices_from'] = tri_ind(True, True)
F['numpy.triu_indices_from'] = tri_ind(False, True)


@reg('numpy.diag', 'numpy.diagonal')
def f_diag(I, args, kw, node):
    a = as_arr(I, args[0])
    if a is None or len(args) > 1 or kw:
        return I.gap("diag", node)
    if a.ndim == 2:
        return I.alloc(ArrC([a.axes[0]], lambda ix: a.fn([ix[0], ix[0]]),
                            a.dtype))
    return I.alloc(ArrC([a.axes[0], a.axes[0]],
                        lambda ix: ind_eq(ix[0], ix[1]) * a.fn([ix[0]]),
                        a.dtype))


@reg('numpy.trace')
def f_trace(I, args, kw, node):
    return reduce_sum(I, f_diag(I, args, kw, node), None, node)


@reg('numpy.diag_indices', 'numpy.diag_indices_from')
def f_diag_ind(I, args, kw, node):
    n = num(args[0])
    if n is None:
        n = I.c(args[0]).axes[0].size
    r = I.alloc(ArrC([Axis.of(n)], lambda ix: ix[0], 'int'))
    return Tup([r, r])


@reg('numpy.fill_diagonal')
def f_fill_diag(I, args, kw, node):
    a = args[0]
    old = I.snap(a)
    v = num(args[1])
    if v is None:
        havoc(I, a, 'fill_diagonal', node)
        return NONE
    I.write(a, lambda ix: ind_eq(ix[0], ix[1]) * v +
            (ONE - ind_eq(ix[0], ix[1])) * old.fn(ix), node)
    return NONE


@reg('numpy.add.at')
def f_add_at(I, args, kw, node):
    o, idx, v = args
    c = I.c(o)
    if isinstance(idx, Tup):
        pass
    items = norm_index(I, c, idx)
    plan = index_plan(I, c, items, node)
    va = as_arr(I, v)
    if plan is None or va is None or not plan['adv']:
        havoc(I, o, 'add.at', node)
        return NONE
    check_assign_shape(plan['axes'], va.axes)
    vf = broadcast_fn(trim(va, len(plan['axes'])), plan['axes'])
    scatter(I, o, c, I.snap(o), plan, vf, node, accumulate=True)
    return NONE


@reg('numpy.bincount')
def f_bincount(I, args, kw, node):
    x = as_arr(I, args[0])
    w = arg(args, kw, 1, 'weights')
    ml = arg(args, kw, 2, 'minlength')
    if x is None or ml is None or num(ml) is None:
        return I.gap("bincount", node)
    wa = as_arr(I, w) if w is not None and not is_none(w) else None

    def fn(idx):
        return sum_axis_elem(x.axes[0], lambda k: ind_eq(
            x.fn([k]), idx[0]) * (wa.fn([k]) if wa is not None else ONE))
    return I.alloc(ArrC([Axis.of(num(ml))], fn,
                        'float' if wa is not None else 'int'))


@reg('numpy.take')
def f_take(I, args, kw, node):
    axv = arg(args, kw, 2, 'axis')
    if not I.is_arr(args[0]):
        return I.gap("take", node)
    c = I.c(args[0])
    k = get_axis(axv, c.ndim)
    if k is None:
        if c.ndim != 1:
            return I.gap("take", node)
        k = 0
    ix = [Slice(None, None, None)] * c.ndim
    ix[k] = args[1]
    return getitem(I, args[0], Tup(ix), node)


@reg('numpy.ix_')
def f_ix(I, args, kw, node):
    out = []
    n = len(args)
    for k, a in enumerate(args):
        x = as_arr(I, a)
        if x is None or x.dtype == 'bool':
            return I.gap("ix_", node)
        axes = [Axis.of(1)] * n
        axes[k] = x.axes[0]
        out.append(I.alloc(ArrC(axes, lambda ix, x=x, k=k: x.fn([ix[k]]),
                                'int')))
    return Tup(out)


@reg('numpy.unravel_index')
def f_unravel(I, args, kw, node):
    return I.gap("unravel_index", node)


def ew(name, dtype='float'):
    def f(I, args, kw, node):
        return elementwise(I, lambda x: mk_fn(name, [x]), [args[0]], dtype,
                           node)
    return f


for _n in ('sqrt', 'exp', 'log', 'sign', 'round', 'around', 'rint', 'tanh',
           'log2', 'log1p', 'isnan', 'isinf', 'isfinite', 'nan_to_num'):
    F['numpy.' + _n] = ew(_n, (lambda d: d[0]) if _n in ('sign', 'round')
                          else 'float')
F['math.sqrt'] = ew('sqrt')
F['numpy.abs'] = F['numpy.absolute'] = F['builtins.abs'] = \
    F['numpy.fabs'] = ew('abs', lambda d: d[0])
F['numpy.floor'] = F['math.floor'] = ew('floor')
F['numpy.ceil'] = F['math.ceil'] = ew('ceil')
F['numpy.square'] = lambda I, a, kw, n: elementwise(
    I, lambda x: x * x, [a[0]], lambda d: d[0], n)
F['numpy.negative'] = lambda I, a, kw, n: unop(I, 'USub', a[0], n)
F['numpy.logical_not'] = lambda I, a, kw, n: elementwise(
    I, lambda x: ONE - x, [boolify(I, a[0])], 'bool', n)
F['numpy.invert'] = F['numpy.bitwise_not'] = \
    lambda I, a, kw, n: unop(I, 'Invert', a[0], n)
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'),
               ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'),
               ('mod', 'Mod'), ('floor_divide', 'FloorDiv')):
    def _mk(_o):
        def f(I, args, kw, node):
            r = binop(I, _o, args[0], args[1], node)
            out = arg(args, kw, 2, 'out')
            if out is not None and I.is_arr(out):
                a = as_arr(I, r)
                I.write(out, broadcast_fn(a, I.c(out).axes), node)
                return out
            return r
        return f
    F['numpy.' + _n] = _mk(_o)
for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'),
               ('greater', 'Gt'), ('less_equal', 'LtE'),
               ('greater_equal', 'GtE')):
    def _mk(_o):
        return lambda I, a, kw, n: compare_op(I, _o, a[0], a[1], n)
    F['numpy.' + _n] = _mk(_o)
F['numpy.logical_and'] = lambda I, a, kw, n: elementwise(
    I, lambda x, y: x * y, [boolify(I, a[0]), boolify(I, a[1])], 'bool', n)
F['numpy.logical_or'] = lambda I, a, kw, n: elementwise(
    I, lambda x, y: x + y - x * y, [boolify(I, a[0]), boolify(I, a[1])],
    'bool', n)
F['numpy.maximum'] = lambda I, a, kw, n: elementwise(
    I, lambda x, y: mk_fn('max2', [x, y]), [a[0], a[1]], arith_dtype, n)
F['numpy.minimum'] = lambda I, a, kw, n: elementwise(
    I, lambda x, y: mk_fn('min2', [x, y]), [a[0], a[1]], arith_dtype, n)


@reg('numpy.clip')
def f_clip(I, args, kw, node):
    return elementwise(I, lambda x, lo, hi: mk_fn('min2', [
        mk_fn('max2', [x, lo]), hi]), list(args[:3]), lambda d: d[0], node)


@reg('numpy.linalg.norm', 'scipy.linalg.norm')
def f_norm(I, args, kw, node):
    a = as_arr(I, args[0])
    if a is None or len(args) > 1 or kw:
        return I.gap("norm", node)
    sq = ArrC(a.axes, lambda ix: a.fn(ix) * a.fn(ix), a.dtype)
    return Num(mk_fn('sqrt', [sum_all(sq)]), 'float')


@reg('numpy.isscalar')
def f_isscalar(I, args, kw, node):
    return Num(ONE if isinstance(args[0], Num) else ZERO, 'bool')


@reg('numpy.unique')
def f_unique(I, args, kw, node):
    a = as_arr(I, args[0])
    if a is None:
        return I.gap("unique", node)
    if kw or len(args) > 1:
        return I.gap("unique with options", node)
    sz = [x.size.const() for x in a.axes]
    if None not in sz:
        vals = [a.fn([E(i) for i in ix]).const() for ix in itertools.product(
            *[range(int(k)) for k in sz])]
        if None not in vals:
            vals = sorted(set(vals))
            return I.new_arr([Axis.of(len(vals))], lambda ix: E(vals[int(
                ix[0].const())]) if ix[0].const() is not None else sum(
                    (ind_eq(ix[0], E(k)) * x for k, x in enumerate(vals)),
                    ZERO), a.dtype)
    key = arr_key(a)
    n = atom(('fn', 'bnd:nunique', (key, sym('BIG'))))
    return I.alloc(ArrC([Axis.of(n)], lambda ix: mk_fn(
        'unique', [key, ix[0]]), a.dtype))


@reg('numpy.sort')
def f_sort(I, args, kw, node):
    a = as_arr(I, args[0])
    if a is None:
        return I.gap("sort", node)
    key = arr_key(a)
    return I.alloc(ArrC(a.axes, lambda ix: mk_fn('sorted', [key] + list(ix)),
                        a.dtype))


@reg('numpy.flip', 'numpy.flipud')
def f_flip(I, args, kw, node):
    return getitem(I, args[0], Slice(None, None, Num(E(-1))), node)


@reg('numpy.fliplr')
def f_fliplr(I, args, kw, node):
    return getitem(I, args[0], Tup([Slice(None, None, None), Slice(
        None, None, Num(E(-1)))]), node)


@reg('numpy.roll')
def f_roll(I, args, kw, node):
    a = as_arr(I, args[0])
    k = num(arg(args, kw, 1, 'shift'))
    if a is None or k is None or a.ndim != 1:
        return I.gap("roll", node)
    n = a.axes[0].size
    return I.alloc(ArrC(a.axes, lambda ix: a.fn([int_mod(ix[0] - k, n)]),
                        a.dtype))


@reg('numpy.isin', 'numpy.in1d')
def f_isin(I, args, kw, node):
    it = I.to_items(args[1])
    if it is None or it[0] != 'items':
        return I.gap("isin", node)

    def f(x):
        acc = ZERO
        for v in it[1]:
            t = ind_eq(x, num(v))
            acc = acc + t - acc * t
        return acc
    return elementwise(I, f, [args[0]], 'bool', node)


@reg('numpy.ndim')
def f_ndim(I, args, kw, node):
    return attr(I, args[0], 'ndim') if I.is_arr(args[0]) else Num(ZERO)


@reg('numpy.shape')
def f_shape(I, args, kw, node):
    return attr(I, args[0], 'shape')


@reg('numpy.size')
def f_size(I, args, kw, node):
    return attr(I, args[0], 'size')


for _n in ('numpy.float64', 'numpy.float', 'numpy.float32', 'builtins.float'):
    F[_n] = lambda I, a, kw, n: (
        Num(a[0].e, 'float') if a and isinstance(a[0], Num) else
        (Num(I.snap(a[0]).fn([ZERO] * I.c(a[0]).ndim), 'float')
         if a and I.is_arr(a[0]) else I.gap("float()", n)))


@reg('builtins.int', 'numpy.int', 'numpy.int64', 'numpy.int32', 'numpy.intp')
def f_int(I, args, kw, node):
    from .interp import trunc
    if args and isinstance(args[0], Num):
        return Num(trunc(args[0].e), 'int')
    if args and I.is_arr(args[0]):
        c = I.snap(args[0])
        return Num(trunc(c.fn([ZERO] * c.ndim)), 'int')
    return I.gap("int()", node)


@reg('builtins.bool', 'numpy.bool_')
def f_bool(I, args, kw, node):
    return Num(I.truth(args[0]), 'bool')


# -- builtins ---------------------------------------------------------------
@reg('builtins.len')
def f_len(I, args, kw, node):
    v = args[0]
    if isinstance(v, Phi):
        return I.phi_map(v, lambda x: f_len(I, [x], kw, node))
    if is_none(v):
        from .interp import RaiseEvent
        raise RaiseEvent("TypeError: len(None)", node)
    if I.is_obj(v) or isinstance(v, Num):
        I.event('raise', node=node, msg='len() of object')
        return Unk('len')
    return Num(I.seq_len(v), 'int')


@reg('builtins.zip', 'itertools.izip')
def f_zip(I, args, kw, node):
    if len(args) == 1 and isinstance(args[0], tuple) and \
            args[0][0] == 'star':
        sq = args[0][1]
        # transpose of a sequence of tuples
        v = fresh_var(sq.n)
        x = sq.item(atom(v))
        it = I.to_items(x) if not isinstance(x, Unk) else None
        if it and it[0] == 'items':
            return I.alloc(ListC([('v', Seq(
                sq.n, lambda i, k=k: I.seq_item(sq.item(i), E(k))))
                for k in range(len(it[1]))]))
        return I.gap("zip(*)", node)
    its = []
    for a in args:
        if isinstance(a, Phi):
            return I.phi_map(a, lambda x: f_zip(
                I, [x if y is a else y for y in args], kw, node))
        it = I.to_items(a) if not isinstance(a, Unk) else None
        if it is None:
            ow = I.owners_of(a)
            it = ('unk', a)
        its.append(it)
    known = [it for it in its if it[0] != 'unk']
    if not known:
        ow = frozenset()
        for a in args:
            ow |= I.owners_of(a)
        return I.gap("zip of unknown", node, ow)
    conc = [len(it[1]) for it in known if it[0] == 'items']
    if conc and len(known) < len(its):
        why = unk('zip with a sequence of unknown length')

        def mixed(i):
            row = []
            for it in its:
                if it[0] == 'seq':
                    row.append(it[1].item(i))
                else:
                    row.append(Unk('zip item', frozenset().union(
                        *[I.owners_of(x) for x in it[1]])
                        if it[0] == 'items' else I.owners_of(it[1])))
            return Tup(row)
        return I.alloc(ListC([('s', Seq(why, mixed))]))
    if conc:
        n = min(conc + [int(it[1].n.const()) for it in known
                        if it[0] == 'seq' and it[1].n.const() is not None])
        out = []
        for k in range(n):
            row = []
            for it in its:
                if it[0] == 'items':
                    row.append(it[1][k])
                elif it[0] == 'seq':
                    row.append(it[1].item(E(k)))
                else:
                    row.append(Unk('zip item', I.owners_of(it[1])))
            out.append(Tup(row))
        return I.alloc(ListC([('v', x) for x in out]))
    n = known[0][1].n
    for it in known[1:]:
        if it[1].n != n and size_differs(it[1].n, n):
            I.event('zip', node=node, msg="zip of sequences of sizes %r, %r"
                    % (n, it[1].n))

    def item(i):
        return Tup([it[1].item(i) if it[0] == 'seq' else
                    Unk('zip item', I.owners_of(it[1])) for it in its])
    return I.alloc(ListC([('s', Seq(n, item))]))


@reg('builtins.enumerate')
def f_enumerate(I, args, kw, node):
    it = I.to_items(args[0]) if not isinstance(args[0], Unk) else None
    start = num(arg(args, kw, 1, 'start', Num(ZERO)))
    if it is None:
        return I.gap("enumerate", node, I.owners_of(args[0]))
    if it[0] == 'items':
        return I.alloc(ListC([('v', Tup([Num(E(k) + start, 'int'), x]))
                              for k, x in enumerate(it[1])]))
    sq = it[1]
    return I.alloc(ListC([('s', Seq(sq.n, lambda i: Tup(
        [Num(i + start, 'int'), sq.item(i)])))]))


@reg('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.set',
     'builtins.frozenset')
def f_list(I, args, kw, node):
    if not args:
        return I.alloc(ListC([]))
    v = args[0]
    if isinstance(v, Phi):
        return I.phi_map(v, lambda x: f_list(I, [x], kw, node))
    if isinstance(v, Tup):
        return I.alloc(ListC([('v', x) for x in v.items]))
    it = I.to_items(v) if not isinstance(v, Unk) else None
    if it is None:
        return I.gap("list()", node, I.owners_of(v))
    if I.is_list(v):
        return I.alloc(ListC(I.c(v).parts))
    if it[0] == 'items':
        return I.alloc(ListC([('v', x) for x in it[1]]))
    return I.alloc(ListC([('s', it[1])]))


def f_tuple(I, args, kw, node):
    if not args:
        return Tup([])
    v = args[0]
    if isinstance(v, Tup):
        return v
    it = I.to_items(v) if not isinstance(v, Unk) else None
    if it and it[0] == 'items':
        return Tup(it[1])
    if it:
        return it[1]
    return I.gap("tuple()", node, I.owners_of(v))


F['builtins.tuple'] = f_tuple


@reg('builtins.filter')
def f_filter(I, args, kw, node):
    f = args[0]
    it = I.to_items(args[1]) if not isinstance(args[1], Unk) else None
    if it is None or it[0] != 'items':
        return I.gap("filter", node, I.owners_of(args[1]))
    out = []
    for x in it[1]:
        t = I.truth(x if isinstance(f, Const) and f.v is None else I.call(f, [x], {}, node)).const()
        if t is None:
            return I.gap("filter", node, I.owners_of(args[1]))
        if t:
            out.append(('v', x))
    return I.alloc(ListC(out))


@reg('builtins.map')
def f_map(I, args, kw, node):
    f = args[0]
    if len(args) == 2:
        it = I.to_items(args[1]) if not isinstance(args[1], Unk) else None
        if it is None:
            return I.gap("map", node)
        if it[0] == 'items':
            return I.alloc(ListC([('v', I.call(f, [x], {}, node))
                                  for x in it[1]]))
        sq = it[1]
        v = fresh_var(sq.n)
        r = I.call(f, [sq.item(atom(v))], {}, node)
        fz = I.freeze(r, I.heap)
        return I.alloc(ListC([('s', Seq(sq.n, lambda i: fz(
            lambda e: subst(e, {v: i}))))]))
    z = f_zip(I, args[1:], {}, node)
    it = I.to_items(z) if not isinstance(z, Unk) else None
    if it is None:
        return z
    if it[0] == 'items':
        return I.alloc(ListC([('v', I.call(f, list(x.items), {}, node))
                              for x in it[1]]))
    sq = it[1]
    v = fresh_var(sq.n)
    r = I.call(f, list(sq.item(atom(v)).items), {}, node)
    fz = I.freeze(r, I.heap)
    return I.alloc(ListC([('s', Seq(sq.n, lambda i: fz(
        lambda e: subst(e, {v: i}))))]))


@reg('builtins.reversed')
def f_reversed(I, args, kw, node):
    it = I.to_items(args[0]) if not isinstance(args[0], Unk) else None
    if it is None:
        return I.gap("reversed", node)
    if it[0] == 'items':
        return I.alloc(ListC([('v', x) for x in it[1][::-1]]))
    sq = it[1]
    return I.alloc(ListC([('s', Seq(sq.n, lambda i: sq.item(
        sq.n - 1 - i)))]))


@reg('builtins.sum')
def f_bsum(I, args, kw, node):
    v = args[0]
    start = args[1] if len(args) > 1 else Num(ZERO, 'int')
    it = I.to_items(v) if not isinstance(v, Unk) else None
    if it is None:
        return I.gap("sum()", node)
    if it[0] == 'items':
        acc = start
        for x in it[1]:
            acc = I.binop('Add', acc, x, node)
        return acc
    a = stack_arr(I, it)
    if a is None:
        return I.gap("sum()", node)
    if I.is_list(v) and len(I.c(v).parts) > 1:
        return I.gap("sum()", node)
    return I.binop('Add', start, reduce_sum(I, I.alloc(a), Num(ZERO), node),
                   node)


def f_minmax(name):
    def f(I, args, kw, node):
        if 'key' in kw:
            return I.gap("%s with key" % name, node)
        if len(args) == 1:
            it = I.to_items(args[0]) if not isinstance(args[0], Unk) else \
                None
            if it is None:
                return I.gap("%s()" % name, node)
            if it[0] == 'items':
                args = it[1]
            else:
                a = stack_arr(I, it)
                if a is None or a.ndim != 1:
                    return I.gap("%s()" % name, node)
                return reduce_fn(I, name, I.alloc(a), None, node)
        if not args:
            return I.gap("%s()" % name, node)
        r = args[0]
        for x in args[1:]:
            r = elementwise(I, lambda p, q: mk_fn(name + '2', [p, q]),
                            [r, x], arith_dtype, node)
        return r
    return f


F['builtins.max'] = f_minmax('max')
F['builtins.min'] = f_minmax('min')


@reg('builtins.print', 'builtins.setattr', 'warnings.warn',
     'numpy.random.seed')
def f_none(I, args, kw, node):
    return NONE


def f_setattr(I, args, kw, node):
    if I.is_obj(args[0]) and isinstance(args[1], Const):
        I.store_attr(args[0], args[1].v, args[2], node, I.stack[-1])
    return NONE


F['builtins.setattr'] = f_setattr


NDARRAY = frozenset('''T __abs__ __add__ __and__ __array__ __array_interface__
__bool__ __class__ __contains__ __copy__ __deepcopy__ __dir__ __divmod__
__doc__ __eq__ __float__ __floordiv__ __ge__ __getitem__ __gt__ __hash__
__iadd__ __imul__ __index__ __init__ __int__ __invert__ __isub__ __iter__
__le__ __len__ __lt__ __matmul__ __mod__ __mul__ __ne__ __neg__ __or__ __pos__
__pow__ __radd__ __repr__ __rmul__ __rsub__ __setitem__ __str__ __sub__
__truediv__ __xor__ all any argmax argmin argpartition argsort astype base
byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data
diagonal dot dtype dump dumps fill flags flat flatten getfield imag item
itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod
ptp put ravel real repeat reshape resize round searchsorted setfield setflags
shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist
trace transpose var view'''.split())


@reg('builtins.hasattr')
def f_hasattr(I, args, kw, node):
    o, n = args[0], args[1].v if isinstance(args[1], Const) else None
    if isinstance(o, Phi):
        return I.phi_map(o, lambda x: f_hasattr(I, [x, args[1]], kw, node))
    if I.is_obj(o):
        c = I.c(o)
        if n in c.attrs:
            return Num(ONE, 'bool')
        if c.cls is not None and (c.cls.find(n) or c.cls.find_attr(n)):
            return Num(ONE, 'bool')
        if getattr(c, 'open', False):
            return Unk('hasattr')
        d = I.ext_hooks.get('hasattr')
        if d is not None:
            r = d(I, o, n)
            if r is not None:
                return r
        return Num(ZERO, 'bool')
    if I.is_arr(o):
        return Num(ONE if n in NDARRAY else ZERO, 'bool')
    if isinstance(o, Tup):
        return Num(ONE if hasattr((), n) else ZERO, 'bool')
    if I.is_list(o):
        return Num(ONE if hasattr([], n) else ZERO, 'bool')
    if I.is_dict(o):
        return Num(ONE if hasattr({}, n) else ZERO, 'bool')
    if isinstance(o, Const) and isinstance(o.v, (str, bool, type(None))):
        return Num(ONE if hasattr(o.v, n) else ZERO, 'bool')
    return Unk('hasattr')


@reg('builtins.getattr')
def f_getattr(I, args, kw, node):
    if not isinstance(args[1], Const):
        return I.gap("getattr", node)
    h = f_hasattr(I, args[:2], {}, node)
    if isinstance(h, Num):
        if h.e.const() == 1:
            return I.attr(args[0], args[1].v, None, node)
        if h.e.const() == 0 and len(args) > 2:
            return args[2]
    return I.gap("getattr", node)


KINDS = {'tuple': 'tup', 'list': 'list', 'int': 'int', 'float': 'float',
         'str': 'str', 'dict': 'dict', 'bool': 'bool',
         'numpy.ndarray': 'arr', 'ndarray': 'arr',
         'numbers.Integral': 'int', 'numbers.Number': 'num',
         'numbers.Real': 'num', 'numpy.integer': 'int',
         'numpy.floating': 'float', 'object': 'any', 'basestring': 'str'}


def abs_kind(I, v):
    if isinstance(v, Tup):
        return 'tup'
    if isinstance(v, Num):
        return v.kind
    if isinstance(v, Const):
        return 'str' if isinstance(v.v, str) else 'none'
    if isinstance(v, Ref):
        return I.c(v).kind
    if isinstance(v, Seq):
        return 'list'
    return None


@reg('builtins.isinstance')
def f_isinstance(I, args, kw, node):
    v, t = args
    if isinstance(v, Phi):
        return I.phi_map(v, lambda x: f_isinstance(I, [x, t], kw, node))
    if isinstance(t, Tup):
        acc = ZERO
        for x in t.items:
            r = f_isinstance(I, [v, x], kw, node)
            if not isinstance(r, Num):
                return r
            acc = acc + r.e - acc * r.e
        return Num(acc, 'bool')
    k = abs_kind(I, v)
    if k is None:
        return Unk('isinstance')
    if isinstance(t, ClassV):
        if k == 'obj':
            cl = I.c(v).cls
            if cl is None:
                d = I.ext_hooks.get('isinstance')
                if d:
                    return d(I, v, t)
                return Unk('isinstance')
            return Num(ONE if t.c in cl.mro() else ZERO, 'bool')
        return Num(ZERO, 'bool')
    if isinstance(t, Ext):
        n = t.name
        if n.startswith('builtins.'):
            n = n[9:]
        want = KINDS.get(n)
        if want is None:
            return Unk('isinstance %s' % n)
        if want == 'any':
            return Num(ONE, 'bool')
        ok = want == k or (want == 'num' and k in ('int', 'float', 'bool')) \
            or (want == 'int' and k == 'bool')
        return Num(ONE if ok else ZERO, 'bool')
    return Unk('isinstance')


@reg('builtins.type')
def f_type(I, args, kw, node):
    if I.is_obj(args[0]) and I.c(args[0]).cls is not None:
        return ClassV(I.c(args[0]).cls)
    return Unk('type')


@reg('builtins.callable')
def f_callable(I, args, kw, node):
    v = args[0]
    return Num(ONE if isinstance(v, (Func, Bound, ModelFn, ClassV, Ext))
               else ZERO, 'bool')


@reg('builtins.str', 'builtins.repr', 'builtins.format')
def f_str(I, args, kw, node):
    if len(args) == 1 and not kw and isinstance(args[0], (Const, Num)):
        f = repr if getattr(getattr(node, 'func', None), 'id',
                            None) == 'repr' else str
        return text(lambda: f(pyval(args[0])))
    return Const('<str>')


@reg('builtins.sorted')
def f_sorted(I, args, kw, node):
    return I.gap("sorted", node)


@reg('builtins.slice')
def f_slice(I, args, kw, node):
    a = list(args)
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


@reg('builtins.dict')
def f_dict(I, args, kw, node):
    if args:
        return I.gap("dict()", node)
    return I.alloc(DictC({('c', k): v for k, v in kw.items()}))


@reg('builtins.divmod')
def f_divmod(I, args, kw, node):
    return Tup([binop(I, 'FloorDiv', args[0], args[1], node),
                binop(I, 'Mod', args[0], args[1], node)])


@reg('builtins.pow')
def f_pow_b(I, args, kw, node):
    return binop(I, 'Pow', args[0], args[1], node)


@reg('itertools.product')
def f_product(I, args, kw, node):
    its = []
    for a in args:
        it = I.to_items(a)
        if it is None or it[0] != 'items':
            return I.gap("product", node)
        its.append(it[1])
    rep = kw.get('repeat')
    if rep is not None:
        c = num(rep).const() if num(rep) is not None else None
        if c is None:
            return I.gap("product repeat", node)
        its = its * int(c)
    import itertools
    return I.alloc(ListC([('v', Tup(t)) for t in itertools.product(*its)]))


@reg('itertools.chain')
def f_chain(I, args, kw, node):
    parts = []
    for a in args:
        it = I.to_items(a)
        if it is None:
            return I.gap("chain", node)
        parts += [('v', x) for x in it[1]] if it[0] == 'items' else \
            [('s', it[1])]
    return I.alloc(ListC(parts))


@reg('functools.partial')
def f_partial(I, args, kw, node):
    return Partial(args[0], args[1:], kw)


@reg('operator.itemgetter')
def f_itemgetter(I, args, kw, node):
    ks = list(args)

    def go(I, a, kw):
        r = [getitem(I, a[0], k) for k in ks]
        return r[0] if len(r) == 1 else Tup(r)
    return ModelFn(go, 'itemgetter')


@reg('copy.copy', 'copy.deepcopy')
def f_copy(I, args, kw, node):
    v = args[0]
    if I.is_arr(v):
        return f_array(I, [v], {}, node)
    if I.is_list(v):
        return I.alloc(ListC(I.c(v).parts))
    if I.is_obj(v):
        return I.alloc(I.c(v))
    return v


@reg('joblib.Parallel', 'sklearn.externals.joblib.Parallel')
def f_parallel(I, args, kw, node):
    def go(I, a, kw2):
        it = I.to_items(a[0]) if not isinstance(a[0], Unk) else None
        if it is None:
            return I.gap("Parallel", node, I.owners_of(a[0]))
        return a[0]
    return ModelFn(go, 'Parallel')


@reg('joblib.delayed', 'sklearn.externals.joblib.delayed')
def f_delayed(I, args, kw, node):
    return args[0]


@reg('time.time', 'time.clock')
def f_time(I, args, kw, node):
    return Num(atom(('fn', 'time%d' % I.nloc, ())), 'float')


PURE_UNKNOWN = ('numpy.', 'scipy.', 'math.')


def call_ext(I, name, args, kw, node):
    f = F.get(name)
    for i, a in enumerate(args):
        if isinstance(a, Phi) and name not in (
                'builtins.isinstance', 'builtins.zip', 'builtins.len',
                'builtins.list', 'numpy.array', 'builtins.hasattr',
                'joblib.delayed'):
            return I.phi_map(a, lambda x: call_ext(
                I, name, args[:i] + [x] + args[i + 1:], kw, node))
    if f is not None:
        return f(I, list(args), kw, node)
    if name.startswith('dtype:'):
        return Unk('dtype call')
    out = kw.get('out')
    if out is not None and I.is_arr(out):
        havoc(I, out, name, node)
        return out
    if name.startswith('builtins.') and name.split('.')[-1][0].isupper():
        return Unk('exception object')
    # methods of Ext such as numpy.random.normal(...) : fresh unknown
    return I.gap("external %s" % name, node)


# -- methods ----------------------------------------------------------------------------
def call_method(I, o, name, args, kw, node=None):
    for i, a in enumerate(args):
        if isinstance(a, Phi):
            return I.phi_map(a, lambda x: call_method(
                I, o, name, args[:i] + [x] + args[i + 1:], kw, node))
    if I.is_arr(o):
        return arr_method(I, o, name, args, kw, node)
    if isinstance(o, Num):
        if name in ('sum', 'max', 'min', 'copy', 'item', 'conj', 'mean'):
            return o
        if name in ('any', 'all'):
            return Num(I.truth(o), 'bool')
        if name == 'astype':
            dt = dtype_of(args[0])
            if dt == 'int':
                from .interp import trunc
                return Num(trunc(o.e), 'int')
            return Num(o.e, dt)
        if name in ('reshape', 'ravel', 'flatten'):
            r = I.alloc(ArrC([Axis.of(1)], lambda ix: o.e, o.kind))
            if name == 'reshape':
                return reshape(I, r, args, node)
            return r
        if name == 'squeeze' or name == 'transpose':
            return o
        return I.gap("scalar method %s" % name, node)
    if I.is_list(o):
        return list_method(I, o, name, args, kw, node)
    if I.is_dict(o):
        return dict_method(I, o, name, args, kw, node)
    if isinstance(o, Const) and isinstance(o.v, str):
        if name in ('startswith', 'endswith') and isinstance(args[0], Const)\
                and o.v != '<str>':
            return Num(ONE if getattr(o.v, name)(args[0].v) else ZERO,
                       'bool')
        if name in ('lower', 'upper', 'strip') and o.v != '<str>':
            return Const(getattr(o.v, name)())
        if name in ('replace', 'format', 'lstrip', 'rstrip', 'strip',
                    'zfill', 'join'):
            def go():
                if name == 'join':
                    it = I.to_items(args[0])
                    if it is None or it[0] != 'items':
                        raise NotConcrete()
                    return pyval(o).join([pyval(x) for x in it[1]])
                return getattr(pyval(o), name)(
                    *[pyval(x) for x in args],
                    **{k: pyval(x) for k, x in kw.items()})
            return text(go)
        return Const('<str>')
    if isinstance(o, (Tup, Seq)):
        if name == 'index' or name == 'count':
            return I.gap("tuple method", node)
        if isinstance(o, Seq):
            return arr_like_seq(I, o, name, args, kw, node)
    if isinstance(o, Unk):
        ow = set(o.owners) if name in VIEWISH else set()
        if name in MUTATORS and o.owners:
            I.event('write', owners=o.owners, node=node)
        if name not in VIEWISH:
            for a in args:
                pass
        return Unk('method %s of unknown' % name, ow)
    if isinstance(o, Ext):
        return call_ext(I, o.name + '.' + name, args, kw, node)
    return I.gap("method %s of %r" % (name, o), node)


def arr_like_seq(I, o, name, args, kw, node):
    return I.gap("method %s of sequence" % name, node)


VIEWISH = ('reshape', 'ravel', 'T', 'transpose', 'squeeze', 'view',
           'swapaxes', 'items', 'values', 'get')
MUTATORS = ('append', 'extend', 'sort', 'fill', 'insert', 'remove', 'pop',
            'update', 'clear', 'put', 'itemset', 'partition', 'resize',
            'reverse', 'setdefault', 'add', 'discard')


def list_method(I, o, name, args, kw, node):
    c = I.c(o)
    if name in MUTATORS and c.owners:
        I.event('write', owners=c.owners, node=node)
    if name == 'append' or name == 'add':
        if I.observe:
            I.event('append', loc=o.loc, value=args[0], heap=dict(I.heap),
                    node=node)
        I.heap[o.loc] = ListC(list(c.parts) + [('v', args[0])], c.owners)
        return NONE
    if name == 'extend':
        it = I.to_items(args[0]) if not isinstance(args[0], Unk) else None
        if it is None:
            I.heap[o.loc] = ListC([('s', Seq(unk('extend'), lambda i: Unk(
                'extend')))], c.owners)
            return NONE
        add = [('v', x) for x in it[1]] if it[0] == 'items' else \
            [('s', it[1])]
        I.heap[o.loc] = ListC(list(c.parts) + add, c.owners)
        return NONE
    if name == 'copy':
        return I.alloc(ListC(c.parts))
    if name == 'pop' and all(p[0] == 'v' for p in c.parts) and c.parts:
        k = -1
        if args and num(args[0]) is not None and \
                num(args[0]).const() is not None:
            k = int(num(args[0]).const())
        parts = list(c.parts)
        v = parts.pop(k)[1]
        I.heap[o.loc] = ListC(parts, c.owners)
        return v
    if name == 'insert' and all(p[0] == 'v' for p in c.parts):
        k = num(args[0]).const() if num(args[0]) is not None else None
        if k is not None:
            parts = list(c.parts)
            parts.insert(int(k), ('v', args[1]))
            I.heap[o.loc] = ListC(parts, c.owners)
            return NONE
    if name in ('isdisjoint', 'intersection', 'union', 'issubset',
                'difference'):
        if not c.parts:
            if name == 'isdisjoint':
                return Num(ONE, 'bool')
        it = I.to_items(args[0]) if not isinstance(args[0], Unk) else None
        if it and it[0] == 'items' and not it[1] and name == 'isdisjoint':
            return Num(ONE, 'bool')
        return Unk('set operation')
    if name in MUTATORS:
        ow = c.owners
        I.heap[o.loc] = ListC([('s', Seq(unk('list'), lambda i: Unk(
            'list', ow)))], ow)
        return Unk('list method')
    return I.gap("list method %s" % name, node)


def dict_method(I, o, name, args, kw, node):
    from .interp import mkkey, unkey
    c = I.c(o)
    if name == 'get' or name == 'pop':
        k = mkkey(args[0])
        if k is not None and k in c.items:
            v = c.items[k]
        elif c.exact and k is not None:
            v = args[1] if len(args) > 1 else NONE
        else:
            v = Unk('dict value')
        if name == 'pop':
            d = dict(c.items)
            d.pop(k, None)
            I.heap[o.loc] = DictC(d, c.exact)
        return v
    if name == 'items' and c.exact:
        return I.alloc(ListC([('v', Tup([unkey(k), v]))
                              for k, v in c.items.items()]))
    if name == 'values' and c.exact:
        return I.alloc(ListC([('v', v) for v in c.items.values()]))
    if name == 'keys' and c.exact:
        return I.alloc(ListC([('v', unkey(k)) for k in c.items]))
    if name == 'copy':
        return I.alloc(DictC(c.items, c.exact))
    if name == 'update':
        d = dict(c.items)
        for k, v in kw.items():
            d[('c', k)] = v
        exact = c.exact
        if args:
            if I.is_dict(args[0]):
                d.update(I.c(args[0]).items)
                exact = exact and I.c(args[0]).exact
            else:
                exact = False
        I.heap[o.loc] = DictC(d, exact)
        return NONE
    return I.gap("dict method %s" % name, node)


def arr_method(I, o, name, args, kw, node):
    c = I.c(o)
    if c.dtype == 'sparse':
        if name in ('toarray', 'todense'):
            return dense(I, o)
        if name in ('tocsr', 'tocsc', 'tocoo', 'copy'):
            return cast(I, I.snap(o), 'sparse')
        if name == 'dot':
            return binop(I, 'Mult', o, args[0], node)
        if name != 'transpose':
            return I.gap('sparse.%s' % name, node)
    if name == 'reshape':
        return reshape(I, o, args if args else [kw.get('newshape')], node)
    if name == 'ravel':
        return f_ravel(I, [o] + list(args), kw, node)
    if name == 'flatten':
        r = f_ravel(I, [o] + list(args), kw, node)
        return I.alloc(I.snap(r)) if I.is_arr(r) else r
    if name == 'copy':
        return f_array(I, [o], {}, node)
    if name == 'astype':
        return cast(I, I.snap(o), dtype_of(arg(args, kw, 0, 'dtype')), node)
    if name == 'dot':
        return dot(I, o, args[0], node)
    if name == 'transpose':
        if not args:
            return transpose(I, o, list(range(c.ndim))[::-1])
        if len(args) == 1 and not isinstance(args[0], Num):
            args = I.to_items(args[0])[1]
        return transpose(I, o, [int(num(a).const()) % c.ndim for a in args])
    if name == 'swapaxes':
        a, b = [int(num(x).const()) % c.ndim for x in args]
        p = list(range(c.ndim))
        p[a], p[b] = p[b], p[a]
        return transpose(I, o, p)
    if name == 'squeeze':
        ix = [Num(ZERO) if is_one(a.size) else Slice(None, None, None)
              for a in c.axes]
        return getitem(I, o, Tup(ix), node)
    if name in ('tolist', '__iter__'):
        it = I.to_items(o)
        if it[0] == 'items':
            return I.alloc(ListC([('v', x) for x in it[1]]))
        return I.alloc(ListC([('s', it[1])]))
    if name == 'fill':
        e = num(args[0])
        if e is None:
            havoc(I, o, 'fill', node)
        else:
            I.write(o, lambda ix: e, node)
        return NONE
    if name == 'item':
        s = I.snap(o)
        if args:
            return getitem(I, reshape(I, o, [Num(E(-1))]), args[0], node)
        return Num(s.fn([ZERO] * s.ndim), s.dtype)
    if name in ('nonzero',):
        return f_nonzero(I, [o], {}, node)
    if name == 'view':
        return o
    if name in ('sort', 'put', 'partition', 'resize', 'itemset'):
        havoc(I, o, name, node)
        return NONE
    if name == 'clip':
        return f_clip(I, [o] + list(args), kw, node)
    if name == 'conj':
        return o
    full = 'numpy.' + name
    if full in F:
        return F[full](I, [o] + list(args), kw, node)
    return I.gap("array method %s" % name, node)
