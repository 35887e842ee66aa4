"""Abstract values and arrays."""
import itertools
from .expr import (register_parts, PARTS, Expr, E, ZERO, ONE, atom, sym, fresh_var, unk, ind_eq,
                   ind_ge0, ind_gt0, ind_not, int_div, int_mod, exact_div,
                   mk_sum, sum_over, subst, is_int, mk_key, mk_fn, prove_nonneg,
                   compare, Key, e_depends)

_uid = itertools.count(1)


class Num(object):
    __slots__ = ("e", "kind")

    def __init__(self, e, kind=None):
        self.e = E(e)
        if kind is None:
            kind = 'int' if is_int(self.e) else 'float'
        self.kind = kind

    def __repr__(self):
        return "Num(%r)" % (self.e,)


class Const(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)


class Ref(object):
    """reference to a heap cell"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "Ref(%d)" % self.loc


class Tup(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Slice(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Seq(object):
    """immutable sequence of symbolic length: item(i: Expr) -> value"""

    def __init__(self, n, item, tag='seq'):
        self.n = E(n)
        self.item = item
        self.tag = tag


class Func(object):
    def __init__(self, info, env=None, interp_globals=None):
        self.info = info
        self.env = env


class Bound(object):
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func


class ClassV(object):
    def __init__(self, c):
        self.c = c


class ModV(object):
    def __init__(self, name):
        self.name = name


class Ext(object):
    """external name such as numpy.dot, or a builtin"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtBound(object):
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Phi(object):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%r, %r, %r)" % (self.c, self.a, self.b)


class Unk(object):
    def __init__(self, why, owners=frozenset()):
        self.why = why
        self.owners = frozenset(owners)
        self.id = next(_uid)

    def __repr__(self):
        return "Unk(%s)" % self.why


class Partial(object):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Super(object):
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class ModelFn(object):
    """python callable implementing an abstract function"""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name


# -- heap cells (immutable contents) -----------------------------------------
class ListC(object):
    """parts: list of ('v', value) or ('s', Seq)"""
    kind = 'list'

    def __init__(self, parts, owners=frozenset()):
        self.parts = tuple(parts)
        self.owners = owners


class DictC(object):
    kind = 'dict'

    def __init__(self, items, exact=True):
        self.items = dict(items)
        self.exact = exact


class ObjC(object):
    kind = 'obj'

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = dict(attrs)


class Axis(object):
    """segments: list of tuple of factor dims, or ('sel', binders, maskfn)"""
    __slots__ = ("segs", "size", "mult")

    def __init__(self, segs, size=None):
        self.segs = list(segs)
        if size is None:
            size = ZERO
            for s in self.segs:
                size = size + seg_size(s)
        self.size = size
        if (len(self.segs) > 1 or (self.segs and len(self.segs[0]) > 1)) \
                and size.const() is None and \
                not any(x and x[0] == 'sel' for x in self.segs):
            register_parts(size, self.segs)

    @staticmethod
    def of(n):
        return Axis([(E(n),)])

    def rich(self):
        n = len(self.segs) * 10
        for s in self.segs:
            if s and s[0] == 'sel':
                n += 5
            else:
                n += len(s)
        return n


class Sel(object):
    """selection by a boolean mask: enumerates mask cells in row-major order"""

    def __init__(self, dims, maskfn):
        self.dims = [E(d) for d in dims]
        self.mask = maskfn
        bs = [fresh_var(d) for d in self.dims]
        elem = maskfn([atom(b) for b in bs])
        self.key = mk_key(bs, elem)
        self.generic = (bs, elem)
        self._count = None
        self._rank = None

    def count(self):
        if self._count is None:
            self._count = sum_over(list(self.generic[0]), self.generic[1])
        return self._count

    def rank(self, idx):
        """position of cell idx (assumed selected) as an Expr"""
        if self._rank is None:
            self._rank = self._mk_rank()
        bs, r = self._rank
        return subst(r, dict(zip(bs, idx)))

    def _mk_rank(self):
        bs, elem = self.generic
        if elem == ONE:
            r = ZERO
            for b in bs:
                r = r * b[2] + atom(b)
            return bs, r
        r = self._closed()
        if r is not None:
            return bs, r
        # row-constant masks: rank = row * per_row + opaque within-row index
        if len(bs) == 2:
            per = mk_sum(bs[1], elem)
            if not e_depends(per, bs[0]):
                w = atom(('fn', 'bnd:within', (self.key, atom(bs[0]),
                                               atom(bs[1]), per)))
                return bs, atom(bs[0]) * per + w
        return bs, atom(('fn', 'bnd:rank', (self.key,) + tuple(
            atom(b) for b in bs) + (self.count(),)))

    def interval(self):
        """(lo) when a 1-D mask selects exactly the indices >= lo or is a
        prefix (lo = 0); None otherwise"""
        bs, elem = self.generic
        if len(bs) != 1:
            return None
        b, n = bs[0], bs[0][2]
        if elem == ONE:
            return ZERO

        def const_part(e):
            """e = b + const -> const"""
            r = e - atom(b)
            return None if e_depends(r, b) else r
        t = dict(elem.terms)
        neg = False
        if t.get(()) == 1 and len(t) == 2:
            t.pop(())
            neg = True
        if len(t) != 1:
            return None
        (k, c), = t.items()
        if len(k) != 1 or k[0][0] != 'ge' or c != (-1 if neg else 1):
            return None
        d = k[0][1]
        up = const_part(d)
        dn = const_part(-d)
        if up is not None:
            if neg:
                return ZERO
            return -up if prove_nonneg(-up) else None
        if dn is not None:
            # d = -(b + dn) >= 0  <=>  b <= -dn: prefix
            if not neg:
                return ZERO
            return (-dn + 1) if prove_nonneg(-dn + 1) else None
        return None

    def _closed(self):
        bs, elem = self.generic
        lo = self.interval()
        if lo is not None:
            return atom(bs[0]) - lo
        if len(bs) != 2 or len(elem.terms) != 1:
            return None
        (t, c), = elem.terms.items()
        if c != 1 or len(t) != 1 or t[0][0] != 'ge':
            return None
        i, j = bs
        d = t[0][1]
        if d == atom(i) - atom(j):         # lower triangle
            return atom(i) * (atom(i) + 1) / 2 + atom(j)
        if d == atom(i) - atom(j) - 1:     # strict lower
            return atom(i) * (atom(i) - 1) / 2 + atom(j)
        n = j[2]
        if d == atom(j) - atom(i):         # upper
            return atom(i) * n - atom(i) * (atom(i) - 1) / 2 + \
                atom(j) - atom(i)
        return None


RANKINV = {}


def seg_size(s):
    if s and s[0] == 'sel':
        return s[1].count()
    r = ONE
    for d in s:
        r = r * d
    return r


def iter_axis(axis):
    """yield (binders, guard, flat index) per segment"""
    off = ZERO
    for s in axis.segs:
        if s and s[0] == 'sel':
            sel = s[1]
            bs = [fresh_var(d) for d in sel.dims]
            idx = [atom(b) for b in bs]
            k = sel.rank(idx)
            RANKINV[(sel.key.key, k.key)] = idx
            yield bs, sel.mask(idx), off + k
        else:
            bs = [fresh_var(d) for d in s]
            k = ZERO
            for b in bs:
                k = k * b[2] + atom(b)
            yield bs, ONE, off + k
        off = off + seg_size(s)


class ArrC(object):
    """array content: axes, element function of flat indices (one per axis)"""
    kind = 'arr'

    def __init__(self, axes, fn, dtype='float', owners=frozenset(),
                 view=None, contig=True):
        self.axes = list(axes)
        self._fn = fn
        self.dtype = dtype
        self.owners = owners
        self.view = view     # (base loc, imap, inv) for views
        self.contig = contig
        self._memo = {}

    def fn(self, idx):
        k = tuple(i.key for i in idx)
        r = self._memo.get(k)
        if r is None:
            r = self._fn(idx)
            self._memo[k] = r
        return r

    @property
    def shape(self):
        return [a.size for a in self.axes]

    @property
    def ndim(self):
        return len(self.axes)


def sum_axis_elem(axis, f):
    """sum_{k in axis} f(k)"""
    out = ZERO
    for bs, g, k in iter_axis(axis):
        out = out + sum_over(bs, g * f(k))
    return out


def sum_all(arr):
    def rec(i, idx):
        if i == arr.ndim:
            return arr.fn(idx)
        return sum_axis_elem(arr.axes[i], lambda k: rec(i + 1, idx + [k]))
    return rec(0, [])


def arr_key(arr):
    """canonical identity of an array"""
    bs, idx = [], []
    for a in arr.axes:
        b = fresh_var(a.size)
        bs.append(b)
        idx.append(atom(b))
    return mk_key(bs, arr.fn(idx))


def generic_cells(arr):
    """list of (binders, guard, idx, elem) covering the array by segments"""
    out = []

    def rec(i, bs, g, idx):
        if i == arr.ndim:
            out.append((bs, g, idx, arr.fn(idx)))
            return
        for b, gg, k in iter_axis(arr.axes[i]):
            rec(i + 1, bs + b, g * gg, idx + [k])
    rec(0, [], ONE, [])
    return out


class ShapeError(Exception):
    def __init__(self, msg, definite=True):
        Exception.__init__(self, msg)
        self.definite = definite


def same_size(a, b):
    if a == b:
        return True
    r, _ = compare(a, b)
    return r in ('equal', 'same')


def size_differs(a, b):
    r, _ = compare(a, b)
    return r == 'differ'
