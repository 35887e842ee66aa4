"""Abstract interpreter: evaluates function bodies over the array-expression
domain.  Branches are joined (gated values), loops over symbolic ranges are
summarised (accumulators, scatter writes, appended sequences, induction
variables); whatever does not fit becomes an explicit unknown."""
import ast
import builtins
import sys
from fractions import Fraction
from .vals import *
from .expr import Expr, ReadMap, INF_TERM, mix, tick, mk_fn, mk_read, evaluate, show, atom_key
from . import npmodel

sys.setrecursionlimit(20000)


class Abort(Exception):
    """analysis cannot continue on this path"""


class RaiseEvent(Exception):
    """the interpreted program raises on every path here"""

    def __init__(self, what, node=None, func=None):
        Exception.__init__(self, what)
        self.what, self.node, self.func = what, node, func


def raised(excs):
    """one text for the exceptions a function ends with on every path; it
    starts with the exception's name when all of them are the same one"""
    names = []
    for e in excs:
        n = e.split('(')[0].split(':')[0].strip()
        if n not in names:
            names.append(n)
    if len(names) == 1:
        return excs[-1]
    return "raises on every path"


class Frame(object):
    def __init__(self, func, module, env, cls=None):
        self.func = func
        self.module = module
        self.env = env
        self.cls = cls
        self.returns = []
        self.guard = ONE
        self.loops = []
        self.excs = []
        self.left = False


UNROLL = 12


class Interp(object):
    def __init__(self, project, hooks=None, ext_hooks=None):
        self.p = project
        self.heap = {}
        self.shared = {}
        self.nloc = 0
        self.hooks = hooks or {}
        self.ext_hooks = ext_hooks or {}
        self.events = []
        self.depth = 0
        self.stack = []
        self.visited = set()
        self.nodes = 0
        self.globals_cache = {}
        self.gap_notes = []
        self.tries = []
        self.nexc = 0
        self.unroll = UNROLL
        self.oracle = None      # settles conditions, see decide()
        self.on_loop = None

    # -- heap ---------------------------------------------------------------
    def alloc(self, content):
        self.nloc += 1
        self.heap[self.nloc] = content
        return Ref(self.nloc)

    def new_arr(self, axes, fn, dtype='float', owners=frozenset()):
        return self.alloc(ArrC(axes, fn, dtype, owners))

    def input_arr(self, name, dims, lo=None, hi=None, dtype='float',
                  owners=None):
        lo = E(lo) if lo is not None else None
        hi = E(hi) if hi is not None else None
        isint = dtype in ('int', 'bool')

        def fn(idx):
            return mk_read(name, idx, lo, hi, isint)
        axes = [d if isinstance(d, Axis) else Axis.of(d) for d in dims]
        return self.new_arr(axes, fn, dtype,
                            frozenset([owners]) if owners else frozenset())

    def c(self, v):
        return self.heap[v.loc]

    def is_arr(self, v):
        return isinstance(v, Ref) and self.c(v).kind == 'arr'

    def is_list(self, v):
        return isinstance(v, Ref) and self.c(v).kind == 'list'

    def is_obj(self, v):
        return isinstance(v, Ref) and self.c(v).kind == 'obj'

    def is_dict(self, v):
        return isinstance(v, Ref) and self.c(v).kind == 'dict'

    def snap(self, ref):
        """content with a pure element function (views resolved now)"""
        c = self.c(ref)
        if c.view is None:
            return c
        loc, imap, inv = c.view
        base = self.heap[loc]
        return ArrC(c.axes, lambda idx: base.fn(imap(idx)), base.dtype,
                    base.owners, contig=c.contig)

    def root_loc(self, ref):
        c = self.c(ref)
        return c.view[0] if c.view is not None else ref.loc

    def owners_of(self, v, seen=None):
        if isinstance(v, Unk):
            return v.owners
        if isinstance(v, Ref):
            c = self.c(v)
            if c.kind == 'arr':
                return self.heap[self.root_loc(v)].owners
            if c.kind == 'list':
                return c.owners
        return frozenset()

    def make_view(self, ref, axes, imap, inv, contig=False):
        c = self.c(ref)
        if c.view is not None:
            loc, im0, inv0 = c.view

            def imap2(idx, im0=im0):
                return im0(imap(idx))

            def inv2(ridx, inv0=inv0):
                c1, i1 = inv0(ridx)
                c2, i2 = inv(i1)
                return c1 * c2, i2
            view = (loc, imap2, inv2)
            dt = self.heap[loc].dtype
        else:
            view = (ref.loc, imap, inv)
            dt = c.dtype
        return self.alloc(ArrC(axes, None, dt, view=view, contig=contig))

    def write(self, ref, new, node=None):
        """replace the cells of ref: new(idx) -> Expr (already closed over
        the old content)"""
        c = self.c(ref)
        if c.view is None:
            if c.owners:
                self.event('write', owners=c.owners, node=node)
            self.heap[ref.loc] = ArrC(c.axes, self.coerce(c.dtype, new),
                                      c.dtype, c.owners)
        else:
            loc, imap, inv = c.view
            base = self.heap[loc]
            if base.owners:
                self.event('write', owners=base.owners, node=node)
            new = self.coerce(base.dtype, new)

            def fn(ridx):
                cond, vidx = inv(ridx)
                k = cond.const()
                if k == 0:
                    return base.fn(ridx)
                if k == 1:
                    return new(vidx)
                return cond * new(vidx) + (ONE - cond) * base.fn(ridx)
            self.heap[loc] = ArrC(base.axes, fn, base.dtype, base.owners)

    def coerce(self, dtype, new):
        if dtype == 'int':
            return lambda idx: trunc(new(idx))
        if dtype == 'bool':
            return lambda idx: to_bool(new(idx))
        return new

    def event(self, kind, node=None, **kw):
        fr = self.stack[-1] if self.stack else None
        ev = dict(kind=kind, line=getattr(node, 'lineno', None),
                  func=fr.func.qual if fr and fr.func else None, **kw)
        ev['guard'] = fr.guard if fr else ONE
        ev['stack'] = [f.func.qual for f in self.stack if f.func]
        if kind == 'raise' and fr is not None and kw.get('msg'):
            fr.excs.append(str(kw['msg']))
        self.events.append(ev)

    def gap(self, why, node=None, owners=frozenset()):
        fr = self.stack[-1] if self.stack else None
        self.gap_notes.append("%s (%s:%s)" % (
            why, fr.func.qual if fr and fr.func else '?',
            getattr(node, 'lineno', '?')))
        return Unk(why, owners)

    # -- objects --------------------------------------------------------------
    def new_obj(self, cls, attrs=None):
        return self.alloc(ObjC(cls, attrs or {}))

    def instantiate(self, cls, args=(), kw=None):
        o = self.new_obj(cls)
        init = cls.find('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kw or {})
        return o

    def get_attr_raw(self, ref, name):
        return self.c(ref).attrs.get(name)

    def set_attr(self, ref, name, v):
        c = self.c(ref)
        d = dict(c.attrs)
        d[name] = v
        self.heap[ref.loc] = ObjC(c.cls, d)

    # -- function calls ---------------------------------------------------------
    def call_func(self, info, args, kw, env=None, node=None):
        q = info.qual
        h = self.hooks.get(q) or self.hooks.get(info.name if info.cls is None
                                                else None)
        if h is not None:
            r = h(self, info, args, kw)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            return self.gap("recursion", node)
        self.visited.add(q)
        bound = self.bind(info, args, kw, env)
        fr = Frame(info, info.module, bound, info.cls)
        fr.closure = env
        gen = is_generator(info.node)
        if gen:
            # generators are evaluated eagerly into a list
            fr.env['%gen'] = self.alloc(ListC([]))
        self.stack.append(fr)
        self.depth += 1
        try:
            st = self.exec_block(info.node.body if not isinstance(
                info.node, ast.Lambda) else
                [ast.Return(value=info.node.body, lineno=info.node.lineno)],
                fr)
            if st == 'fall':
                fr.returns.append((fr.guard, NONE, self.heap))
            if not fr.returns:
                raise RaiseEvent(raised(fr.excs), node, info)
            if gen:
                fr.returns = [(g, bound['%gen'], h)
                              for g, _, h in fr.returns]
            return self.join_returns(fr)
        finally:
            self.depth -= 1
            self.stack.pop()

    def join_returns(self, fr):
        rets = fr.returns
        g, v, h = rets[-1]
        self.heap = h
        for g2, v2, h2 in reversed(rets[:-1]):
            v, self.heap = self.join_state(
                g2, {'r': v2}, h2, {'r': v}, self.heap)
            v = v['r']
        return v

    def bind(self, info, args, kw, env=None):
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names) and a.vararg is None:
            raise RaiseEvent("TypeError: %s takes %d positional arguments but "
                             "%d were given" % (info.qual, len(names),
                                                len(args)), info.node, info)
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(args[len(names):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in out:
                    raise RaiseEvent("TypeError: duplicate argument %s" % k,
                                     info.node, info)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise RaiseEvent("TypeError: %s got an unexpected keyword "
                                 "argument %r" % (info.qual, k), info.node,
                                 info)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(DictC(
                {('c', k): v for k, v in extra.items()}))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + kwonly:
            if n not in out:
                if n in defaults:
                    out[n] = self.eval_default(defaults[n], info)
                else:
                    raise RaiseEvent("TypeError: %s missing argument %r"
                                     % (info.qual, n), info.node, info)
        return out

    def eval_default(self, node, info):
        fr = Frame(info, info.module, {}, info.cls)
        fr.closure = None
        if isinstance(node, (ast.Constant, ast.Name, ast.UnaryOp)):
            return self.ev(node, fr)
        # evaluated once: a mutable value is shared by all uses
        v = self.shared.get(id(node))
        if not isinstance(v, Ref) or v.loc not in self.heap:
            v = self.shared[id(node)] = self.ev(node, fr)
        return v

    def call(self, f, args, kw, node=None):
        if isinstance(f, Phi):
            return self.phi_map(f, lambda x: self.call(x, args, kw, node))
        if isinstance(f, Func):
            return self.call_func(f.info, args, kw, f.env, node)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kw, None,
                                  node)
        if isinstance(f, ModelFn):
            return f.fn(self, args, kw)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2, node)
        if isinstance(f, ClassV):
            q = 'new:' + f.c.name
            if q in self.hooks:
                return self.hooks[q](self, f.c, args, kw)
            return self.instantiate(f.c, args, kw)
        if isinstance(f, Ext):
            h = self.ext_hooks.get(f.name)
            if h is not None:
                r = h(self, args, kw)
                if r is not NotImplemented:
                    return r
            try:
                return npmodel.call_ext(self, f.name, args, kw, node)
            except ShapeError as e:
                if e.definite:
                    self.event('shape', node=node, msg=str(e))
                return Unk('shape: %s' % e)
        if isinstance(f, ExtBound):
            try:
                return npmodel.call_method(self, f.obj, f.name, args, kw,
                                           node)
            except ShapeError as e:
                if e.definite:
                    self.event('shape', node=node, msg=str(e))
                return Unk('shape: %s' % e)
        if self.is_obj(f):
            m = self.c(f).cls.find('__call__')
            if m is not None:
                return self.call_func(m, [f] + list(args), kw, None, node)
        ow = frozenset()
        for a in list(args) + list(kw.values()):
            ow |= self.owners_of(a)
        return self.gap("call of unknown %r" % (f,), node, ow)

    # -- values -------------------------------------------------------------------
    def phi_map(self, v, f):
        if isinstance(v, Phi):
            return self.mk_phi(v.c, self.phi_map(v.a, f),
                               self.phi_map(v.b, f))
        return f(v)

    def mk_phi(self, c, a, b):
        k = c.const()
        if k == 1:
            return a
        if k == 0:
            return b
        if self.same(a, b):
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(mix(c, a.e, b.e),
                       a.kind if a.kind == b.kind else None)
        if self.is_arr(a) and self.is_arr(b):
            m = self.mix_arr(c, self.snap(a), self.snap(b))
            if m is not None:
                return self.alloc(m)
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items):
            return Tup([self.mk_phi(c, x, y)
                        for x, y in zip(a.items, b.items)])
        return Phi(c, a, b)

    def mix_arr(self, c, a, b):
        if a.ndim != b.ndim:
            return None
        axes = []
        for x, y in zip(a.axes, b.axes):
            if not same_size(x.size, y.size):
                return None
            axes.append(x if x.rich() >= y.rich() else y)
        return ArrC(axes, lambda idx: mix(c, a.fn(idx), b.fn(idx)),
                    a.dtype if a.dtype == b.dtype else 'float',
                    a.owners | b.owners)

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Num):
            return a.e == b.e
        if isinstance(a, Const):
            return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, Ref):
            return a.loc == b.loc
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(
                self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (ClassV,)):
            return a.c is b.c
        if isinstance(a, Func):
            return a.info is b.info and a.env is b.env
        if isinstance(a, Bound):
            return a.func is b.func and self.same(a.self_, b.self_)
        if isinstance(a, Ext):
            return a.name == b.name
        if isinstance(a, ModV):
            return a.name == b.name
        return False

    def join_state(self, c, envA, hA, envB, hB):
        """state when c (A) else (B)"""
        heap = {}
        self.heap = heap
        # first merge heap contents
        keys = set(hA) | set(hB)
        pend = []
        for k in keys:
            x, y = hA.get(k), hB.get(k)
            if x is y or y is None:
                heap[k] = x
            elif x is None:
                heap[k] = y
            else:
                heap[k] = x
                pend.append((k, x, y))
        for k, x, y in pend:
            heap[k] = self.join_content(c, x, y, hA, hB)
        env = {}
        for n in set(envA) | set(envB):
            if n in envA and n in envB:
                env[n] = self.mk_phi_h(c, envA[n], envB[n], hA, hB)
            else:
                env[n] = envA.get(n, envB.get(n))
        return env, heap

    def mk_phi_h(self, c, a, b, hA, hB):
        if self.same(a, b):
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and \
                a.loc in hA and b.loc in hB and \
                hA[a.loc].kind == hB[b.loc].kind == 'arr':
            # snapshots in their own heaps
            save = self.heap
            self.heap = hA
            sa = self.snap(a)
            self.heap = hB
            sb = self.snap(b)
            self.heap = save
            m = self.mix_arr(c, sa, sb)
            if m is not None:
                return self.alloc(m)
            return Phi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items):
            return Tup([self.mk_phi_h(c, x, y, hA, hB)
                        for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and \
                a.loc in hA and b.loc in hB and \
                hA[a.loc].kind == hB[b.loc].kind == 'list':
            m = self.join_list(c, hA[a.loc], hB[b.loc], hA, hB)
            if m is not None:
                return self.alloc(m)
            return Phi(c, a, b)
        return self.mk_phi(c, a, b) if not (
            isinstance(a, Ref) and isinstance(b, Ref)) else Phi(c, a, b)

    def join_list(self, c, x, y, hA, hB):
        if len(x.parts) == len(y.parts) and all(
                p[0] == q[0] for p, q in zip(x.parts, y.parts)):
            parts = []
            for p, q in zip(x.parts, y.parts):
                if p[0] == 'v':
                    parts.append(('v', self.mk_phi_h(c, p[1], q[1], hA, hB)))
                elif p[1] is q[1]:
                    parts.append(p)
                else:
                    return None
            return ListC(parts, x.owners | y.owners)
        return None

    def join_content(self, c, x, y, hA, hB):
        if x.kind != y.kind:
            return x
        if x.kind == 'arr':
            if x.view is not None:
                return x
            m = self.mix_arr(c, x, y)
            if m is None:
                return ArrC(x.axes, lambda idx: unk('join of shapes'),
                            x.dtype, x.owners | y.owners)
            m.dtype = x.dtype
            return m
        if x.kind == 'obj':
            d = {}
            for n in set(x.attrs) | set(y.attrs):
                if n in x.attrs and n in y.attrs:
                    d[n] = self.mk_phi_h(c, x.attrs[n], y.attrs[n], hA, hB)
                else:
                    d[n] = x.attrs.get(n, y.attrs.get(n))
            return ObjC(x.cls, d)
        if x.kind == 'list':
            m = self.join_list(c, x, y, hA, hB)
            if m is not None:
                return m
            return ListC([('s', Seq(unk('list join'),
                                    lambda i: Unk('list join')))],
                         x.owners | y.owners)
        if x.kind == 'dict':
            d = {}
            for n in set(x.items) | set(y.items):
                if n in x.items and n in y.items:
                    d[n] = self.mk_phi_h(c, x.items[n], y.items[n], hA, hB)
                else:
                    d[n] = Phi(c, x.items.get(n, Unk('missing key')),
                               y.items.get(n, Unk('missing key')))
            return DictC(d, False)
        return x

    # -- truth --------------------------------------------------------------------
    def truth(self, v, node=None):
        if isinstance(v, Num):
            if v.kind == 'bool':
                return v.e
            c = v.e.const()
            if c is not None:
                return ONE if c else ZERO
            if is_int(v.e) and prove_nonneg(v.e - 1):
                return ONE
            return ONE - ind_eq(v.e, ZERO)
        if isinstance(v, Const):
            return ONE if v.v else ZERO
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, Phi):
            return v.c * self.truth(v.a, node) + \
                (ONE - v.c) * self.truth(v.b, node)
        if isinstance(v, Ref):
            c = self.c(v)
            if c.kind == 'list':
                n = self.seq_len(v)
                return self.truth(Num(n, 'int'))
            if c.kind == 'arr':
                if c.ndim == 0:
                    return self.truth(Num(self.snap(v).fn([]),
                                          c.dtype))
                sz = ONE
                for a in c.axes:
                    sz = sz * a.size
                if sz.const() == 1:
                    return self.truth(Num(self.snap(v).fn(
                        [ZERO] * c.ndim), c.dtype))
                self.event('raise', node=node,
                           msg='truth value of an array')
                return atom(('fn', 'cond:arr%d' % v.loc, ()))
            if c.kind == 'dict':
                if c.exact:
                    return ONE if c.items else ZERO
            if c.kind == 'obj':
                return ONE
        if isinstance(v, Seq):
            return self.truth(Num(v.n, 'int'))
        if isinstance(v, (Func, Bound, ClassV, ModV, Ext, ModelFn)):
            return ONE
        if isinstance(v, Unk):
            return atom(('fn', 'cond:u%d' % v.id, ()))
        return atom(('fn', 'cond:%s' % id(v), ()))

    # -- sequences ------------------------------------------------------------------
    def seq_len(self, v):
        if isinstance(v, Tup):
            return E(len(v.items))
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Ref):
            c = self.c(v)
            if c.kind == 'list':
                n = ZERO
                for p in c.parts:
                    n = n + (ONE if p[0] == 'v' else p[1].n)
                return n
            if c.kind == 'arr':
                if c.ndim == 0:
                    return unk('len of scalar')
                return c.axes[0].size
            if c.kind == 'dict' and c.exact:
                return E(len(c.items))
        if isinstance(v, Const) and isinstance(v.v, str):
            return E(len(v.v))
        return unk('len')

    def seq_item(self, v, i):
        """element at Expr index i"""
        if isinstance(v, Tup):
            return self.pick(list(v.items), i)
        if isinstance(v, Seq):
            return v.item(i)
        if self.is_list(v):
            parts = self.c(v).parts
            if all(p[0] == 'v' for p in parts):
                return self.pick([p[1] for p in parts], i)
            if len(parts) == 1:
                return parts[0][1].item(i)
            c = i.const()
            off = ZERO
            for p in parts:
                n = ONE if p[0] == 'v' else p[1].n
                if prove_nonneg(i - off) and prove_nonneg(n - 1 - (i - off)):
                    return p[1] if p[0] == 'v' else p[1].item(i - off)
                off = off + n
            return self.gap("list index")
        if self.is_arr(v):
            return npmodel.getitem(self, v, Num(i, 'int'))
        return self.gap("item of %r" % (v,))

    def pick(self, items, i):
        c = i.const()
        if c is not None:
            k = int(c)
            if -len(items) <= k < len(items):
                return items[k]
            raise RaiseEvent("IndexError")
        if not items:
            raise RaiseEvent("IndexError")
        if self.oracle is not None:
            for k in range(len(items) - 1):
                d = self.decide(ind_eq(i, E(k))).const()
                if d is None:
                    break
                if d:
                    return items[k]
            else:
                return items[-1]
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = self.mk_phi(ind_eq(i, E(k)), items[k], r)
        return r

    def to_items(self, v):
        """('items', [values]) or ('seq', Seq) or None"""
        if isinstance(v, Tup):
            return 'items', list(v.items)
        if isinstance(v, Seq):
            c = v.n.const()
            if c is not None and c <= self.unroll:
                return 'items', [v.item(E(i)) for i in range(int(c))]
            return 'seq', v
        if isinstance(v, Ref):
            c = self.c(v)
            if c.kind == 'list':
                if all(p[0] == 'v' for p in c.parts):
                    return 'items', [p[1] for p in c.parts]
                if len(c.parts) == 1:
                    return self.to_items(c.parts[0][1])
                return 'seq', Seq(self.seq_len(v),
                                  lambda i, v=v: self.seq_item(v, i))
            if c.kind == 'arr' and c.ndim >= 1:
                n = c.axes[0].size.const()
                if n is not None and n <= self.unroll:
                    return 'items', [npmodel.getitem(self, v, Num(i, 'int'))
                                     for i in range(int(n))]
                return 'seq', Seq(c.axes[0].size,
                                  lambda i, v=v: npmodel.getitem(
                                      self, v, Num(i, 'int')))
            if c.kind == 'dict' and c.exact:
                return 'items', [unkey(k) for k in c.items]
        if isinstance(v, Const) and isinstance(v.v, str):
            return 'items', [Const(x) for x in v.v]
        return None

    # -- statements --------------------------------------------------------------------
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.nodes += 1
            r = self.exec_stmt(s, fr)
            if r != 'fall':
                return r
        return 'fall'

    def exec_stmt(self, s, fr):
        tick(10)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.gap("statement %s" % type(s).__name__, s)
            return 'fall'
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return 'fall'
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                c.func.id in ('map', 'filter') and c.func.id not in fr.env:
            # lazy: nothing is called until somebody asks for the items
            f = self.ev(c.func, fr)
            if isinstance(f, Ext) and f.name.startswith('builtins.'):
                for a in c.args:
                    self.ev(a.value if isinstance(a, ast.Starred) else a, fr)
                return 'fall'
        self.ev(c, fr)
        return 'fall'

    def s_Pass(self, s, fr):
        return 'fall'

    s_Import = s_Global = s_Nonlocal = s_Pass

    def s_ImportFrom(self, s, fr):
        base = self.p._abs(fr.module, s)
        for a in s.names:
            r = self.p.mod_attr(base, a.name)
            fr.env[a.asname or a.name] = self.from_lookup(r, fr)
        return 'fall'

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split('.')[0]] = ModV(
                a.name if a.asname else a.name.split('.')[0])
        return 'fall'

    def s_Assert(self, s, fr):
        try:
            v = self.ev(s.test, fr)
        except RaiseEvent:
            raise
        if isinstance(v, (Num, Const)) and self.truth(v) == ZERO:
            raise RaiseEvent("AssertionError", s)
        return 'fall'

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if self.is_obj(o):
                    c = self.c(o)
                    d = dict(c.attrs)
                    d.pop(t.attr, None)
                    self.heap[o.loc] = ObjC(c.cls, d)
            elif isinstance(t, ast.Subscript):
                self.del_item(self.ev(t.value, fr),
                              self.ev_index(t.slice, fr), s)
            else:
                self.gap("del", s)
        return 'fall'

    def del_item(self, o, idx, node):
        if self.is_list(o):
            c = self.c(o)
            if c.owners:
                self.event('write', owners=c.owners, node=node)
            if isinstance(idx, Num) and idx.e.const() is not None and \
                    all(p[0] == 'v' for p in c.parts):
                k = int(idx.e.const())
                parts = list(c.parts)
                if -len(parts) <= k < len(parts):
                    del parts[k]
                    self.heap[o.loc] = ListC(parts, c.owners)
                    return
                raise RaiseEvent("IndexError: del", node)
            if isinstance(idx, Slice) and all(p[0] == 'v' for p in c.parts):
                ends = [None if x is None or x is NONE else
                        (x.e.const() if isinstance(x, Num) else 'x')
                        for x in (idx.lo, idx.hi, idx.step)]
                if all(x is None or isinstance(x, (int, Fraction))
                       for x in ends):
                    parts = list(c.parts)
                    del parts[slice(*[None if x is None else int(x)
                                      for x in ends])]
                    self.heap[o.loc] = ListC(parts, c.owners)
                    return
            self.heap[o.loc] = havoc_content(c, "del")
            self.gap("del", node)
            return
        if self.is_dict(o):
            c = self.c(o)
            k = mkkey(idx)
            d = dict(c.items)
            if k is not None and k in d:
                d.pop(k)
                self.heap[o.loc] = DictC(d, c.exact)
                return
            self.heap[o.loc] = DictC({}, False)
            return
        self.gap("del", node)

    def s_FunctionDef(self, s, fr):
        from .project import FuncInfo
        f = FuncInfo(s, fr.module, None)
        fr.env[s.name] = Func(f, fr.env)
        return 'fall'

    def s_ClassDef(self, s, fr):
        fr.env[s.name] = Unk('local class')
        return 'fall'

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        fr.returns.append((fr.guard, v, dict(self.heap)))
        return 'return'

    def s_Raise(self, s, fr):
        what = ast.unparse(s.exc) if s.exc is not None else 'raise'
        self.event('raise', node=s, msg=what[:120])
        self.note_raise(s.exc)
        return 'raise'

    def note_raise(self, exc):
        if not self.tries:
            return
        nm = None
        if isinstance(exc, ast.Call):
            exc = exc.func
        if isinstance(exc, (ast.Name, ast.Attribute)):
            nm = ast.unparse(exc).split('.')[-1]
        elif isinstance(exc, str):
            nm = exc
        tf, col = self.tries[-1]
        col.append((nm, dict(tf.env), dict(self.heap)))

    def s_Break(self, s, fr):
        if fr.loops:
            fr.loops[-1]['break'].append((fr.guard, dict(fr.env),
                                          dict(self.heap)))
        return 'break'

    def s_Continue(self, s, fr):
        if fr.loops:
            fr.loops[-1]['cont'].append((fr.guard, dict(fr.env),
                                         dict(self.heap)))
        return 'continue'

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
        return 'fall'

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        return 'fall'

    def s_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, fr, t)
            v = self.ev(s.value, fr)
            fr.env[t.id] = self.aug(op, cur, v, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.attr(o, t.attr, fr, t)
            v = self.ev(s.value, fr)
            self.store_attr(o, t.attr, self.aug(op, cur, v, s), s, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            try:
                cur = npmodel.getitem(self, o, idx, t)
                v = self.ev(s.value, fr)
                # element views must not alias while combining
                new = self.binop(op, cur, v, s)
                npmodel.setitem(self, o, idx, new, s)
            except ShapeError as e:
                if e.definite:
                    self.event('shape', node=s, msg=str(e))
                npmodel.havoc(self, o, 'shape: %s' % e)
        return 'fall'

    def aug(self, op, cur, v, node):
        if self.is_arr(cur):
            try:
                if op == 'MatMult':
                    return self.binop(op, cur, v, node)
                old = self.snap(cur)
                new = self.binop(op, cur, v, node)
                if self.is_arr(new):
                    nc = self.snap(new)
                    npmodel.check_assign_shape(old.axes, nc.axes)
                    b = npmodel.broadcast_fn(nc, old.axes)
                    if op == 'Div' and old.dtype == 'int':
                        self.event('raise', node=node,
                                   msg='in-place true division of an '
                                       'integer array')
                    self.write(cur, b, node)
                elif isinstance(new, Num):
                    self.write(cur, lambda idx: new.e, node)
                else:
                    npmodel.havoc(self, cur, 'augmented assignment', node)
                return cur
            except ShapeError as e:
                if e.definite:
                    self.event('shape', node=node, msg=str(e))
                npmodel.havoc(self, cur, 'shape: %s' % e, node)
                return cur
        if self.is_list(cur) and op == 'Add':
            c = self.c(cur)
            it = self.to_items(v)
            if it is None:
                return self.gap('list +=', node)
            if c.owners:
                self.event('write', owners=c.owners, node=node)
            add = [('v', x) for x in it[1]] if it[0] == 'items' else \
                [('s', it[1])]
            self.heap[cur.loc] = ListC(list(c.parts) + add, c.owners)
            return cur
        return self.binop(op, cur, v, node)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.store_attr(o, t.attr, v, t, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            try:
                npmodel.setitem(self, o, idx, v, t)
            except ShapeError as e:
                if e.definite:
                    self.event('shape', node=t, msg=str(e))
                npmodel.havoc(self, o, 'shape: %s' % e)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def store_attr(self, o, name, v, node, fr):
        if isinstance(o, Phi):
            for x in (o.a, o.b):
                if self.is_obj(x):
                    self.store_attr(x, name, Unk('weak attr'), node, fr)
            return
        if self.is_obj(o):
            cls = self.c(o).cls
            setter = cls.find(name + '@setter') if cls is not None else None
            if setter is not None:
                self.call_func(setter, [o, v], {}, None, node)
            else:
                self.event('setattr', node=node, obj=o.loc, attr=name)
                self.set_attr(o, name, v)
        elif self.is_arr(o) and name == 'shape':
            it = self.to_items(v)
            if it:
                r = npmodel.reshape(self, o, it[1])
                self.heap[o.loc] = self.c(r)

    def unpack(self, t, v, fr):
        n = len(t.elts)
        if isinstance(v, Phi):
            if isinstance(v.a, Unk) or isinstance(v.b, Unk):
                pass
            parts = []
            for i in range(n):
                parts.append(self.phi_map(v, lambda x: self.unpack_item(
                    x, i, n)))
            for e, x in zip(t.elts, parts):
                self.assign(e, x, fr)
            return
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            it = self.to_items(v)
            if it and it[0] == 'items':
                k = star[0]
                items = it[1]
                post = n - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                mid = items[k:len(items) - post]
                self.assign(t.elts[k].value, self.alloc(ListC(
                    [('v', x) for x in mid])), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - post:]):
                    self.assign(e, x, fr)
                return
        for i, e in enumerate(t.elts):
            self.assign(e, self.unpack_item(v, i, n), fr)

    def unpack_item(self, v, i, n):
        it = self.to_items(v)
        if it is None:
            ow = self.owners_of(v)
            return Unk('unpack', ow)
        if it[0] == 'items':
            if len(it[1]) != n:
                raise RaiseEvent("ValueError: unpack %d values into %d"
                                 % (len(it[1]), n))
            return it[1][i]
        return it[1].item(E(i))

    def s_If(self, s, fr):
        c = self.ev_cond(s.test, fr)
        k = c.const()
        if k is not None:
            return self.exec_block(s.body if k else s.orelse, fr)
        return self.fork(c, lambda: self.exec_block(s.body, fr),
                         lambda: self.exec_block(s.orelse, fr), fr)

    def fork(self, c, fa, fb, fr):
        env0, heap0, g0 = dict(fr.env), dict(self.heap), fr.guard
        fr.guard = g0 * c
        try:
            ra = fa()
        except RaiseEvent as e:
            self.event('raise', node=e.node, msg=e.what)
            ra = 'raise'
        envA, hA, gA = fr.env, self.heap, fr.guard
        fr.env = dict(env0)
        self.heap = dict(heap0)
        fr.guard = g0 * (ONE - c)
        try:
            rb = fb()
        except RaiseEvent as e:
            self.event('raise', node=e.node, msg=e.what)
            rb = 'raise'
        envB, hB, gB = fr.env, self.heap, fr.guard
        if ra == 'fall' and rb == 'fall':
            fr.env, self.heap = self.join_state(c, envA, hA, envB, hB)
            # inner early exits narrow the guard on both sides
            fr.guard = g0 if (gA == g0 * c and gB == g0 * (ONE - c)) \
                else gA + gB
            return 'fall'
        # a branch that raises leaves the run: what follows assumes normal
        # completion, so its complement is not tracked as a guard
        if ra == 'fall':
            fr.env, self.heap = envA, hA
            fr.guard = g0 if rb == 'raise' and gA == g0 * c else gA
            return 'fall'
        if rb == 'fall':
            fr.env, self.heap = envB, hB
            fr.guard = g0 if ra == 'raise' and gB == g0 * (ONE - c) else gB
            return 'fall'
        if ra == 'raise':
            return rb
        if rb == 'raise':
            return ra
        return ra

    def s_While(self, s, fr):
        for _ in range(self.unroll):
            c = self.ev_cond(s.test, fr)
            k = c.const()
            if k == 0:
                return self.exec_block(s.orelse, fr)
            if k is None:
                break
            before = dict(fr.env), dict(self.heap), fr.guard, \
                len(fr.returns)
            fr.loops.append({'break': [], 'cont': []})
            r = self.exec_block(s.body, fr)
            lp = fr.loops.pop()
            if lp['break'] or r not in ('fall', 'continue'):
                if r == 'break' and len(lp['break']) == 1:
                    return 'fall'
                if r in ('return', 'raise') and not lp['break'] and \
                        not lp['cont']:
                    return r
                fr.env, self.heap, fr.guard = before[:3]
                del fr.returns[before[3]:]
                break
        self.havoc_loop(s, fr)
        return 'fall'

    def havoc_loop(self, s, fr):
        self.gap("while loop", s)
        env0, heap0, g0 = dict(fr.env), dict(self.heap), fr.guard
        nret = len(fr.returns)
        names = {n.id for b in s.body for n in ast.walk(b)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        locs = set()
        for _ in range(2):
            lp = {'break': [], 'cont': []}
            fr.loops.append(lp)
            try:
                self.exec_block(s.body, fr)
            except RaiseEvent:
                pass
            fr.loops.pop()
            for _, env, h in lp['break'] + lp['cont']:
                names |= {n for n in env if n in env0 and
                          not self.same(env0[n], env[n])}
                locs |= {k for k in h if k in heap0 and h[k] is not heap0[k]}
            for _, _, h in fr.returns[nret:]:
                locs |= {k for k in h if k in heap0 and h[k] is not heap0[k]}
            for k in list(self.heap):
                if k in heap0 and heap0[k] is not self.heap[k]:
                    locs.add(k)
            for n in list(fr.env):
                if n in names or n not in env0 or \
                        not self.same(env0[n], fr.env[n]):
                    fr.env[n] = self.havoc_like(fr.env[n], env0.get(n))
            for n in names - set(fr.env):
                fr.env[n] = self.havoc_like(env0[n], env0[n]) \
                    if n in env0 else Unk('loop')
            for k in locs:
                if k in self.heap:
                    self.heap[k] = havoc_content(self.heap[k], 'loop',
                                                 heap0.get(k))
            fr.guard = g0
        if len(fr.returns) > nret or has_return(s.body):
            del fr.returns[nret:]
            self.lost_return(fr)

    def lost_return(self, fr):
        """the function may have returned from a loop given up on"""
        fr.returns.append((unk('return inside a loop'),
                           Unk('return inside a loop'), dict(self.heap)))

    def havoc_like(self, v, old):
        if self.is_arr(v) and self.is_arr(old) and v != old:
            a, b = self.c(v).axes, self.c(old).axes
            if len(a) != len(b) or any(
                    not (p.size - q.size).is_zero() for p, q in zip(a, b)):
                return Unk('loop', self.owners_of(v))
        if self.is_arr(v):
            c = self.c(v)
            return self.alloc(ArrC(c.axes, lambda idx: unk('loop'), c.dtype,
                                   self.owners_of(v)))
        return Unk('loop', self.owners_of(v))

    def s_Try(self, s, fr):
        env0, heap0 = dict(fr.env), dict(self.heap)
        col = []
        depth = len(self.stack)
        if s.handlers:
            self.tries.append((fr, col))
        try:
            r = self.exec_block(s.body, fr)
        except RaiseEvent as e:
            del self.stack[depth:]
            self.event('raise', node=e.node, msg=e.what)
            r = 'raise'
        if s.handlers:
            self.tries.pop()
        if r == 'fall' and s.orelse:
            r = self.exec_block(s.orelse, fr)
        caught = []
        for exc, env, heap in col:
            h = self.handler_for(s, exc, fr)
            if h is None:
                if self.tries:
                    self.tries[-1][1].append(
                        (exc, dict(self.tries[-1][0].env), heap))
            else:
                caught.append((h, env, heap))
        if r == 'raise' and s.handlers and not col:
            caught.append((s.handlers[0], env0, heap0))

        def run(h, env, heap):
            def go():
                fr.env, self.heap = dict(env), dict(heap)
                if h.name:
                    fr.env[h.name] = Unk('exception')
                return self.exec_block(h.body, fr)
            return go
        if caught:
            k = 0
            if r == 'raise':
                h, env, heap = caught[0]
                r = run(h, env, heap)()
                k = 1
            seen = {id(caught[0][0])} if k else set()
            for h, env, heap in caught[k:]:
                # the same handler from several raise points: one more state
                be, bh, br = fr.env, self.heap, r
                if br == 'raise':
                    r = run(h, env, heap)()
                    continue
                self.nexc += 1
                c = atom(('fn', 'cond:exc%d' % self.nexc, ()))

                def stay():
                    fr.env, self.heap = be, bh
                    return br
                if br == 'fall':
                    r = self.fork(c, run(h, env, heap), stay, fr)
                else:
                    g0 = fr.guard
                    r2 = run(h, env, heap)()
                    if r2 == 'fall':
                        r = 'fall'
                    else:
                        fr.env, self.heap, fr.guard = be, bh, g0
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, fr)
            if r2 != 'fall':
                r = r2
        return r

    def handler_for(self, s, exc, fr):
        """first handler that may catch an exception of class name exc"""
        for h in s.handlers:
            if h.type is None:
                return h
            names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for n in names:
                t = ast.unparse(n).split('.')[-1]
                if t in ('Exception', 'BaseException') or t == exc:
                    return h
                if exc is None:
                    return h
                try:
                    ce = getattr(builtins, exc, None)
                    ct = getattr(builtins, t, None)
                    if ce is not None and ct is not None and \
                            issubclass(ce, ct):
                        return h
                except TypeError:
                    pass
        return None

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                if not (isinstance(v, Const) and isinstance(v.v, tuple)):
                    v = Unk('with', self.owners_of(v))
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(s.body, fr)

    # -- loops ---------------------------------------------------------------------
    def s_For(self, s, fr):
        itv = self.ev(s.iter, fr)
        it = self.to_items(itv)
        if it is None:
            if isinstance(itv, Phi):
                self.gap("loop over joined value", s)
            ow = self.owners_of(itv)
            seq = Seq(atom(('fn', 'bnd:len%d' % getattr(itv, 'id', id(itv)),
                            (sym('BIG', 2),))),
                      lambda i: Unk('element', ow))
            it = ('seq', seq)
        if it[0] == 'items':
            return self.loop_items(s, it[1], fr)
        return self.loop_seq(s, it[1], fr)

    def loop_items(self, s, items, fr):
        breaks = []
        for x in items:
            lp = {'break': [], 'cont': []}
            fr.loops.append(lp)
            g0 = fr.guard
            self.assign(s.target, x, fr)
            r = self.exec_block(s.body, fr)
            fr.loops.pop()
            r = self.merge_exits(r, lp['cont'], fr)
            breaks.extend(lp['break'])
            if r != 'fall':
                if r == 'break':
                    r = self.merge_breaks('dead', breaks, fr)
                    return r
                if breaks:
                    return self.merge_breaks('dead', breaks, fr)
                return r
        if s.orelse:
            r = self.exec_block(s.orelse, fr)
            if r != 'fall':
                return r
        return self.merge_breaks('fall', breaks, fr)

    def merge_exits(self, r, conts, fr):
        """join 'continue' states with the fall-through state"""
        states = list(conts)
        if r == 'continue':
            g, env, h = states.pop()
            fr.env, self.heap, fr.guard = env, h, g
            r = 'fall'
        if not states:
            return r
        if r != 'fall':
            g, env, h = states.pop()
            fr.env, self.heap, fr.guard = dict(env), dict(h), g
            if r == 'break':
                pass
        for g, env, h in states:
            fr.env, self.heap = self.join_state(
                g, env, h, fr.env, self.heap)
            fr.guard = fr.guard + g
        return 'fall'

    def merge_breaks(self, r, breaks, fr):
        states = list(breaks)
        if r == 'dead':
            if not states:
                return 'raise'
            g, env, h = states.pop()
            fr.env, self.heap, fr.guard = dict(env), dict(h), g
        for g, env, h in reversed(states):
            fr.env, self.heap = self.join_state(g, env, h, fr.env, self.heap)
            fr.guard = fr.guard + g
        return 'fall'

    def loop_seq(self, s, seq, fr):
        n = seq.n
        v = fresh_var(n)
        iv = atom(v)

        def body():
            self.assign(s.target, seq.item(iv), fr)
            return self.exec_block(s.body, fr)
        ok = self.summarise(v, n, body, fr, s)
        if ok and s.orelse:
            return self.exec_block(s.orelse, fr)
        return 'fall'

    def run_body(self, body, fr):
        lp = {'break': [], 'cont': []}
        fr.loops.append(lp)
        g0 = fr.guard
        nret = len(fr.returns)
        try:
            r = body()
        except RaiseEvent as e:
            self.event('raise', node=e.node, msg=e.what)
            r = 'raise'
        fr.loops.pop()
        r = self.merge_exits_local(r, lp['cont'], fr, g0)
        exited = bool(lp['break']) or len(fr.returns) > nret
        fr.left = fr.left or len(fr.returns) > nret
        del fr.returns[nret:]
        return r, exited, lp['break']

    def merge_exits_local(self, r, conts, fr, g0):
        states = list(conts)
        if r == 'continue':
            g, env, h = states.pop()
            fr.env, self.heap, fr.guard = env, h, g
            r = 'fall'
        for g, env, h in states:
            if r != 'fall':
                fr.env, self.heap, fr.guard = dict(env), dict(h), g
                r = 'fall'
                continue
            # the guard relative to the loop body entry decides the join
            rel = self.relative(g, g0)
            fr.env, self.heap = self.join_state(
                rel, env, h, fr.env, self.heap)
        return r

    def relative(self, g, g0):
        """g = g0 * rel"""
        if g0 == ONE:
            return g
        # divide out the factors of g0 when it is a single term
        from .expr import exact_div
        d = exact_div(g, g0)
        return d if d is not None else g

    def summarise(self, v, n, body, fr, node):
        env0, heap0, g0 = dict(fr.env), dict(self.heap), fr.guard
        changed_env, changed_loc = set(), set()
        self.obj_changed = {}
        ev_mark = len(self.events)
        ends = {}
        for attempt in range(6):
            # placeholders for everything known to change
            fr.env, self.heap, fr.guard = dict(env0), dict(heap0), g0
            olds = {}
            self.alias = {}
            for nm in changed_env:
                fr.env[nm] = self.placeholder(env0.get(nm), 'e:' + nm, olds,
                                              heap0, ends.get('e:' + nm))
            for loc in changed_loc:
                self.heap[loc] = self.placeholder_content(
                    heap0[loc], 'h:%d' % loc, olds, ends, heap0)
            envs, heaps = dict(fr.env), dict(self.heap)
            del self.events[ev_mark:]
            r, exited, brk = self.run_body(body, fr)
            ce = {nm for nm in fr.env if nm in env0 and not self.same(
                envs.get(nm, Unk('')), fr.env[nm])}
            cl = {loc for loc in heap0 if self.heap.get(loc) is not
                  heaps.get(loc)}
            grew = False
            for nm in ce:
                grew |= self.note_end(ends, 'e:' + nm, fr.env[nm], heap0)
            for loc in cl:
                if heap0[loc].kind == 'obj':
                    ch = self.obj_changed.setdefault('h:%d' % loc, set())
                    for a, val in self.heap[loc].attrs.items():
                        if a in ch or not self.same(
                                heaps[loc].attrs.get(a, Unk('')), val):
                            grew |= self.note_end(
                                ends, 'h:%d.%s' % (loc, a), val, heap0)
                        was = heaps[loc].attrs.get(a)
                        if a not in ch and (was is None or
                                            not self.same(was, val)):
                            ch.add(a)
                            grew = True
            if ce <= changed_env and cl <= changed_loc and not grew:
                break
            changed_env |= ce
            changed_loc |= cl
        if exited or r not in ('fall',):
            if r == 'raise' and not exited:
                fr.env, self.heap, fr.guard = env0, heap0, g0
                return True
            self.gap("loop with early exit", node)
            for b in brk:
                for nm in b[1]:
                    if nm in env0 and not self.same(env0[nm], b[1][nm]):
                        changed_env.add(nm)
                for loc in heap0:
                    if b[2].get(loc) is not heap0[loc]:
                        changed_loc.add(loc)
            fr.guard = g0
            self.finish_havoc(env0, heap0, changed_env, changed_loc, fr)
            if fr.left:
                fr.left = False
                self.lost_return(fr)
            return True
        endenv, endheap = fr.env, self.heap
        fr.guard = g0
        # closed forms
        last = {v: n - 1}
        closed = {}       # old atom -> closed form inside iteration v
        results = {}
        todo = [('e', x) for x in changed_env] + \
               [('h', x) for x in changed_loc]
        # scalars first: find induction variables
        scal = {}
        for kind, x in todo:
            if kind == 'e':
                init, new = env0.get(x), endenv.get(x)
                if isinstance(init, Num) and isinstance(new, Num):
                    scal[('e', x)] = (init.e, new.e, olds.get('e:' + x))
            else:
                c0, c1 = heap0[x], endheap[x]
                if c0.kind == 'obj':
                    for a in c1.attrs:
                        i0, n1 = c0.attrs.get(a), c1.attrs[a]
                        if isinstance(i0, Num) and isinstance(n1, Num) and \
                                ('h:%d.%s' % (x, a)) in olds:
                            scal[('o', x, a)] = (i0.e, n1.e,
                                                 olds['h:%d.%s' % (x, a)])
        oldats = {o for o in olds.values() if isinstance(o, tuple)}
        scalval = {}
        pending = dict(scal)
        for _ in range(len(pending) + 1):
            for k, (i0, n1, old) in list(pending.items()):
                if old is None:
                    continue
                n1s = subst(n1, {a: e for a, e in closed.items()})
                coef, rest = split_linear(n1s, old)
                if coef is None:
                    continue
                if any(o in rest.atoms() or o in coef.atoms()
                       for o in oldats):
                    continue
                if any_oldread(rest, olds) or any_oldread(coef, olds):
                    continue
                if coef.is_zero():
                    scalval[k] = subst(rest, last)
                    # value carried into iteration v is that of v-1
                    closed[old] = ind_eq(iv_(v), ZERO) * i0 + \
                        (ONE - ind_eq(iv_(v), ZERO)) * \
                        subst(rest, {v: iv_(v) - 1})
                    del pending[k]
                elif coef == ONE:
                    if not e_depends(rest, v):
                        closed[old] = i0 + iv_(v) * rest
                        scalval[k] = i0 + n * rest
                    else:
                        u = fresh_var(n)
                        hi = fresh_var(iv_(v))
                        closed[old] = i0 + mk_sum(
                            hi, subst(rest, {v: atom(hi)}))
                        scalval[k] = i0 + mk_sum(
                            u, subst(rest, {v: atom(u)}))
                    del pending[k]
                else:
                    closed[old] = affine(v, iv_(v), coef, rest, i0)
                    scalval[k] = affine(v, n, coef, rest, i0)
                    del pending[k]
        self.running_best(pending, closed, scalval, olds, oldats, v, n)
        for k in pending:
            scalval[k] = unk('loop-carried scalar')
            if pending[k][2] is not None:
                closed[pending[k][2]] = unk('loop-carried scalar')
        # arrays / lists / others
        fr.env, self.heap = dict(env0), dict(heap0)
        newrefs = {}

        arrs = {}
        for kind, x in todo:
            if kind == 'h' and heap0[x].kind == 'arr' and \
                    heap0[x].view is None and \
                    isinstance(olds.get('h:%d' % x), str):
                arrs[olds['h:%d' % x]] = (heap0[x], endheap[x])

        def fin_arr(c0, c1, tag):
            """closed form of an array updated by the loop"""
            name = olds.get(tag)
            init = c0
            if c1.ndim != c0.ndim:
                return ArrC(c1.axes, lambda idx: unk('loop: shape changes'),
                            c1.dtype, c0.owners)

            def fn(idx):
                gi = [fresh_free(a.size) for a in c0.axes]
                g = [atom(x) for x in gi]
                cell = subst(c1.fn(g), closed)
                coef, rest = split_read(cell, name, g)
                if coef is None or any_oldread(rest, olds):
                    coef, rest = unwritten(subst(c1.fn(g), closed), name, g,
                                           v, arrs, closed)
                if coef is None or any_oldread(rest, olds) or \
                        any_oldread(coef, olds) or \
                        any(o in rest.atoms() for o in oldats):
                    return unk('loop-carried array')
                back = dict(zip(gi, idx))
                if coef.is_zero():
                    return subst(subst(rest, last), back)
                u = fresh_var(n)
                sv = {v: atom(u)}
                if coef == ONE:
                    return subst(mk_sum(u, subst(rest, sv)), back) + \
                        init.fn(idx)
                gg = ONE - coef
                if not e_depends(gg, v):
                    # same cells rewritten every iteration
                    if not e_depends(rest, v):
                        return init.fn(idx) * subst(coef, back) + \
                            subst(rest, back)
                    return init.fn(idx) * subst(coef, back) + \
                        subst(subst(rest, last), back)
                if not pinned(gg, v):
                    return affine(v, n, subst(coef, back),
                                  subst(rest, back), init.fn(idx))
                tot = mk_sum(u, subst(gg, sv))
                add = mk_sum(u, subst(rest, sv))
                return subst(ONE - tot, back) * init.fn(idx) + \
                    subst(add, back)
            return ArrC(c0.axes, fn, c0.dtype, c0.owners)

        for kind, x in todo:
            if kind == 'h':
                c0, c1 = heap0[x], endheap[x]
                if c0.kind == 'arr':
                    if c0.view is not None:
                        continue
                    self.heap[x] = fin_arr(c0, c1, 'h:%d' % x)
                elif c0.kind == 'list':
                    self.heap[x] = self.fin_list(c0, c1, olds.get('h:%d' % x),
                                                 v, n, closed, endheap)
                elif c0.kind == 'obj':
                    d = dict(c0.attrs)
                    for a, val in c1.attrs.items():
                        if ('o', x, a) in scalval:
                            d[a] = Num(scalval[('o', x, a)])
                        elif a in d and self.same(d[a], val):
                            pass
                        else:
                            d[a] = self.last_value(
                                c0.attrs.get(a), val, v, n, closed, olds,
                                'h:%d.%s' % (x, a), heap0, endheap, oldats)
                    self.heap[x] = ObjC(c0.cls, d)
                else:
                    self.heap[x] = havoc_content(c1, 'loop')
        for kind, x in todo:
            if kind == 'e':
                if ('e', x) in scalval:
                    k0 = env0[x].kind
                    fr.env[x] = Num(scalval[('e', x)],
                                    k0 if k0 != 'bool' else None)
                    continue
                init, new = env0.get(x), endenv.get(x)
                fr.env[x] = self.last_value(init, new, v, n, closed, olds,
                                            'e:' + x, heap0, endheap, oldats,
                                            fin_arr)
        # variables first bound in the loop keep their last value
        for nm, val in endenv.items():
            if nm not in env0:
                fr.env[nm] = self.last_value(None, val, v, n, closed, olds,
                                             None, heap0, endheap, oldats)
        return True

    def running_best(self, pending, closed, scalval, olds, oldats, v, n):
        """best = -inf; for v: if f(v) > best: best = f(v); arg = v"""
        for k, (i0, n1, old) in list(pending.items()):
            if old is None or i0 != E(-1) * Expr({INF_TERM: 1}):
                continue
            n1 = subst(n1, closed)
            if len(n1.terms) != 1:
                continue
            (t, c), = n1.terms.items()
            if c != 1 or len(t) != 1 or t[0][:2] != ('fn', 'max2'):
                continue
            me = atom(old)
            fs = [x for x in t[0][2] if x != me]
            if len(fs) != 1:
                continue
            f = fs[0]
            if any(o in f.atoms() for o in oldats) or any_oldread(f, olds):
                continue
            better = ind_gt0(f - me)
            u = fresh_var(n)
            key = mk_key([u], subst(f, {v: atom(u)}))
            for k2, (j0, m1, old2) in list(pending.items()):
                if k2 == k or old2 is None:
                    continue
                if m1 == better * atom(v) + (ONE - better) * atom(old2):
                    scalval[k2] = mk_fn('argmax', [key])
                    closed[old2] = unk('loop-carried scalar')
                    del pending[k2]
            scalval[k] = mk_fn('max', [key])
            closed[old] = unk('loop-carried scalar')
            del pending[k]

    def last_value(self, init, new, v, n, closed, olds, tag, heap0, endheap,
                   oldats, fin_arr=None):
        if new is None:
            return init
        if isinstance(init, Ref) and isinstance(new, Ref) and fin_arr and \
                init.loc in heap0 and heap0[init.loc].kind == 'arr' and \
                endheap[new.loc].kind == 'arr':
            save = self.heap
            self.heap = endheap
            c1 = self.snap(new)
            self.heap = heap0
            c0 = self.snap(init)
            self.heap = save
            return self.alloc(fin_arr(c0, c1, tag))
        fz = self.freeze(new, endheap)
        m = {v: n - 1}

        def post(e):
            e = subst(e, closed)
            if any_oldread(e, olds) or any(o in e.atoms() for o in oldats):
                return unk('loop-carried')
            return subst(e, m)
        return fz(post)

    def fin_list(self, c0, c1, marker, v, n, closed, endheap):
        if c1.kind == 'list' and c1.parts and marker is not None and \
                c1.parts[0][1] is marker:
            rest = c1.parts[1:]
            if not rest:
                return c0
            if len(rest) == 1 and rest[0][0] == 'v':
                fz = self.freeze(rest[0][1], endheap)
                sq = Seq(n, lambda i: fz(lambda e: subst(
                    subst(e, closed), {v: i})))
                return ListC(list(c0.parts) + [('s', sq)], c0.owners)
            if all(p[0] == 'v' for p in rest):
                k = len(rest)
                fzs = [self.freeze(p[1], endheap) for p in rest]

                def item(i):
                    q, r = int_div(i, E(k)), int_mod(i, E(k))
                    vals = [fz(lambda e: subst(subst(e, closed), {v: q}))
                            for fz in fzs]
                    return self.pick(vals, r)
                return ListC(list(c0.parts) + [('s', Seq(n * k, item))],
                             c0.owners)
        return havoc_content(c1, 'list updated in loop')

    def freeze(self, v, heap):
        """closure rebuilding v (with contents as of `heap`) under a
        substitution of expressions"""
        if isinstance(v, Num):
            return lambda s: Num(s(v.e), v.kind)
        if isinstance(v, Tup):
            fs = [self.freeze(x, heap) for x in v.items]
            return lambda s: Tup([f(s) for f in fs])
        if isinstance(v, Phi):
            fa, fb = self.freeze(v.a, heap), self.freeze(v.b, heap)
            return lambda s: self.mk_phi(s(v.c), fa(s), fb(s))
        if isinstance(v, Seq):
            def seqf(s):
                return Seq(s(v.n), lambda i: self.freeze(
                    v.item(i), self.heap)(s))
            return seqf
        if isinstance(v, Ref) and v.loc in heap:
            c = heap[v.loc]
            if c.kind == 'arr':
                save = self.heap
                self.heap = heap
                sc = self.snap(v)
                self.heap = save

                def arrf(s):
                    axes = [subst_axis(a, s) for a in sc.axes]
                    return self.alloc(ArrC(
                        axes, lambda idx: subst_fn(sc.fn, idx, s), sc.dtype,
                        sc.owners))
                return arrf
            if c.kind == 'list':
                fs = [(p[0], self.freeze(p[1], heap)) for p in c.parts]
                return lambda s: self.alloc(ListC(
                    [(k, f(s)) for k, f in fs], c.owners))
        return lambda s: v

    def note_end(self, ends, tag, val, heap0):
        """which array a loop-carried name ends an iteration on: names
        ending on the same one are aliases from the second iteration on"""
        if not (isinstance(val, Ref) and self.c(val).kind == 'arr'):
            return False
        key = val.loc if val.loc in heap0 else ('new', val.loc)
        was = ends.get(tag)
        ends[tag] = key
        return was is None or (isinstance(was, int) != isinstance(key, int))

    def placeholder(self, v, tag, olds, heap0, end=None):
        if end is not None and isinstance(v, Ref) and v.loc in heap0 and \
                heap0[v.loc].kind == 'arr':
            if isinstance(end, int):
                return Ref(end)
            if end in self.alias:
                t0, r0 = self.alias[end]
                olds[tag] = olds.get(t0)
                return r0
        if isinstance(v, Num):
            a = ('fn', 'old:%s:%d' % (tag, self.nloc), ())
            if v.kind == 'int':
                a = ('fn', 'int:old:%s:%d' % (tag, self.nloc), ())
            olds[tag] = a
            return Num(atom(a), v.kind if v.kind != 'bool' else 'int')
        if isinstance(v, Ref) and v.loc in heap0 and \
                heap0[v.loc].kind == 'arr':
            save = self.heap
            self.heap = heap0
            c = self.snap(v)
            self.heap = save
            r = self.alloc(self.placeholder_content(c, tag, olds))
            if end is not None:
                self.alias[end] = (tag, r)
            return r
        if v is None:
            return Unk('undefined')
        return Unk('loop-carried %s' % tag, self.owners_of(v))

    alias = {}

    def placeholder_content(self, c, tag, olds, ends=None, heap0=None):
        if c.kind == 'arr' and c.view is None:
            name = 'old:%s:%d' % (tag, self.nloc)
            self.nloc += 1
            olds[tag] = name
            isint = c.dtype in ('int', 'bool')
            return ArrC(c.axes, lambda idx: mk_read(
                name, idx, None, None, isint), c.dtype,
                c.owners)
        if c.kind == 'list':
            mk = Seq(unk('old list'), lambda i: Unk('old list'))
            olds[tag] = mk
            return ListC([('s', mk)], c.owners)
        if c.kind == 'obj':
            d = {}
            for a, v in c.attrs.items():
                if isinstance(v, Num) and v.e.const() is None or \
                        isinstance(v, Num):
                    d[a] = v
                else:
                    d[a] = v
            # only numeric attributes that change get placeholders: done on
            # the retry through olds
            key = tag
            ch = self.obj_changed.get(key, set())
            for a in ch:
                if isinstance(c.attrs.get(a), Num):
                    at = ('fn', 'old:%s.%s' % (tag, a), ())
                    olds['%s.%s' % (tag, a)] = at
                    d[a] = Num(atom(at), c.attrs[a].kind)
                elif heap0 is not None:
                    t = '%s.%s' % (tag, a)
                    v0 = c.attrs.get(a)
                    if v0 is None:
                        d[a] = Unk('set in loop')
                    elif isinstance(v0, Ref) and v0.loc in heap0 and \
                            heap0[v0.loc].kind == 'list':
                        nl = self.placeholder_content(heap0[v0.loc], t, olds)
                        d[a] = self.alloc(nl)
                    else:
                        d[a] = self.placeholder(v0, t, olds, heap0,
                                                (ends or {}).get(t))
            return ObjC(c.cls, d)
        return c

    obj_changed = {}
    observe = False

    def finish_havoc(self, env0, heap0, ce, cl, fr):
        env, heap = fr.env, self.heap
        fr.env, self.heap = dict(env0), dict(heap0)
        for nm in ce:
            fr.env[nm] = self.havoc_like(env0[nm], None) \
                if nm in env0 else Unk('loop')
        for nm in env:
            if nm not in env0:
                fr.env[nm] = Unk('loop')
        for loc in cl:
            c = heap0[loc]
            if c.kind == 'arr' and c.view is not None:
                continue
            self.heap[loc] = havoc_content(heap.get(loc, c), 'loop', c)

    # -- expressions --------------------------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.gap("expression %s" % type(n).__name__, n)
        return m(n, fr)

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else NONE
        npmodel.call_method(self, fr.env['%gen'], 'append', [v], {}, n)
        return NONE

    def ev_cond(self, n, fr):
        return self.decide(self.truth(self.ev(n, fr), n), n)

    def decide(self, c, node=None):
        """with an oracle, every undecided condition is settled one way: the
        caller enumerates the ways"""
        if self.oracle is None or c.const() is not None:
            return c
        r = self.oracle(c, node)
        return c if r is None else E(int(r))

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, bool):
            return Num(ONE if v else ZERO, 'bool')
        if isinstance(v, (int, float)):
            return Num(E(v), 'int' if isinstance(v, int) else 'float')
        return Const(v)

    def e_Name(self, n, fr):
        return self.lookup_name(n.id, fr, n)

    def lookup_name(self, name, fr, node=None):
        if name in fr.env:
            return fr.env[name]
        env = getattr(fr, 'closure', None)
        if env is not None and name in env:
            return env[name]
        r = self.p.lookup(fr.module, name)
        if r is not None:
            return self.from_lookup(r, fr)
        if name in BUILTINS:
            return Ext('builtins.' + name)
        return self.gap("name %s" % name, node)

    def from_lookup(self, r, fr):
        if r is None:
            return Unk('import')
        if r[0] == 'func':
            return Func(r[1])
        if r[0] == 'class':
            return ClassV(r[1])
        if r[0] == 'mod':
            return ModV(r[1])
        if r[0] == 'ext':
            return Ext(r[1])
        if r[0] == 'assign':
            key = (r[1].name, id(r[2]))
            if key not in self.globals_cache:
                f2 = Frame(None, r[1], {})
                f2.closure = None
                self.globals_cache[key] = self.ev(r[2], f2)
            return self.globals_cache[key]
        return Unk('import')

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        return self.attr(o, n.attr, fr, n)

    def attr(self, o, name, fr=None, node=None):
        if isinstance(o, Phi):
            return self.phi_map(o, lambda x: self.attr(x, name, fr, node))
        if isinstance(o, ModV):
            r = self.p.mod_attr(o.name, name)
            if r is None:
                return self.gap("module attr %s.%s" % (o.name, name), node)
            if r[0] == 'ext':
                return npmodel.ext_value(self, r[1])
            return self.from_lookup(r, fr)
        if isinstance(o, Ext):
            return npmodel.ext_value(self, o.name + '.' + name)
        if isinstance(o, ClassV):
            f = o.c.find(name)
            if f is not None:
                if 'staticmethod' in f.decorators():
                    return Func(f)
                return Func(f)
            a = o.c.find_attr(name)
            if a is not None:
                return self.eval_default(a[1], _ModInfo(a[0].module))
            if name == '__name__':
                return Const(o.c.name)
            return self.gap("class attr %s" % name, node)
        if isinstance(o, Super):
            mro = self.c(o.obj).cls.mro()
            i = mro.index(o.after) if o.after in mro else -1
            for c in mro[i + 1:]:
                if name in c.methods:
                    return Bound(o.obj, c.methods[name])
            return Ext('builtins.object.' + name)
        if self.is_obj(o):
            c = self.c(o)
            if name in c.attrs:
                return c.attrs[name]
            if c.cls is not None:
                f = c.cls.find(name)
                if f is not None:
                    d = f.decorators()
                    if 'property' in d:
                        return self.call_func(f, [o], {}, None, node)
                    if 'staticmethod' in d:
                        return Func(f)
                    if 'classmethod' in d:
                        return Bound(ClassV(c.cls), f)
                    return Bound(o, f)
                a = c.cls.find_attr(name)
                if a is not None:
                    return self.eval_default(a[1], _ModInfo(a[0].module))
                if name == '__class__':
                    return ClassV(c.cls)
            dyn = self.ext_hooks.get('attr:' + name)
            if dyn is not None:
                return dyn(self, o)
            self.event('noattr', node=node, attr=name,
                       cls=c.cls.name if c.cls else '?')
            return self.gap("attribute %s" % name, node)
        if isinstance(o, Unk):
            if name in ('shape', 'size', 'ndim', 'dtype'):
                return Unk('%s of unknown' % name)
            return ExtBound(o, name)
        return npmodel.attr(self, o, name, node)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        idx = self.ev_index(n.slice, fr)
        try:
            return npmodel.getitem(self, o, idx, n)
        except ShapeError as e:
            if e.definite:
                self.event('shape', node=n, msg=str(e))
            return Unk('shape: %s' % e)

    def ev_index(self, n, fr):
        if isinstance(n, ast.Tuple):
            return Tup([self.ev_index(x, fr) for x in n.elts])
        if isinstance(n, ast.Slice):
            return Slice(*[self.ev(x, fr) if x is not None else None
                           for x in (n.lower, n.upper, n.step)])
        return self.ev(n, fr)

    def e_Slice(self, n, fr):
        return self.ev_index(n, fr)

    def e_Call(self, n, fr):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                'super' not in fr.env:
            if not n.args:
                me = list(fr.env.values())[0] if fr.env else NONE
                p = fr.func.params()
                me = fr.env.get(p[0]) if p else NONE
                return Super(me, fr.cls)
            cv = self.ev(n.args[0], fr)
            return Super(self.ev(n.args[1], fr), cv.c)
        f = self.ev(n.func, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.to_items(self.ev(a.value, fr))
                if it is None or it[0] != 'items':
                    if it is not None and isinstance(f, Ext) and \
                            f.name == 'builtins.zip':
                        args.append(('star', it[1]))
                        continue
                    return self.gap("star args", n)
                args.extend(it[1])
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if self.is_dict(v):
                    for kk, x in self.c(v).items.items():
                        if kk[0] == 'c':
                            kw[kk[1]] = x
                else:
                    self.gap("** args", n)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, n)

    def e_BinOp(self, n, fr):
        a, b = self.ev(n.left, fr), self.ev(n.right, fr)
        return self.binop(type(n.op).__name__, a, b, n)

    def binop(self, op, a, b, node=None):
        try:
            return npmodel.binop(self, op, a, b, node)
        except ShapeError as e:
            if e.definite:
                self.event('shape', node=node, msg=str(e))
            return Unk('shape: %s' % e)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        op = type(n.op).__name__
        if op == 'Not':
            return Num(ONE - self.truth(v, n), 'bool')
        return npmodel.unop(self, op, v, n)

    def e_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        vals = []
        acc = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            last = i == len(n.values) - 1
            t = self.truth(v, x)
            if self.oracle is not None and not last:
                t = self.decide(t, x)
            k = t.const()
            if k is not None:
                if bool(k) != is_and:
                    # decides the result
                    if acc is None:
                        return v
                    return self.mk_phi_bool(acc, t, is_and)
                if last and acc is None:
                    return v
                continue
            if last and acc is None:
                return v
            acc = t if acc is None else (
                acc * t if is_and else acc + t - acc * t)
        if acc is None:
            return v
        return Num(acc, 'bool')

    def mk_phi_bool(self, acc, t, is_and):
        return Num(acc * t if is_and else acc + t - acc * t, 'bool')

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            v = self.compare_vals(type(op).__name__, left, right, n)
            if acc is None:
                acc = v
            else:
                acc = Num(self.truth(acc) * self.truth(v), 'bool')
            left = right
        return acc

    def compare_vals(self, op, a, b, node):
        try:
            return npmodel.compare_op(self, op, a, b, node)
        except ShapeError as e:
            if e.definite:
                self.event('shape', node=node, msg=str(e))
            return Unk('shape: %s' % e)

    def e_IfExp(self, n, fr):
        c = self.ev_cond(n.test, fr)
        k = c.const()
        if k is not None:
            return self.ev(n.body if k else n.orelse, fr)
        out = {}

        def fa():
            out['a'] = self.ev(n.body, fr)
            return 'fall'

        def fb():
            out['b'] = self.ev(n.orelse, fr)
            return 'fall'
        self.fork(c, fa, fb, fr)
        if 'a' not in out:
            return out['b']
        if 'b' not in out:
            return out['a']
        return self.mk_phi(c, out['a'], out['b'])

    def e_Tuple(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                it = self.to_items(self.ev(x.value, fr))
                if it is None or it[0] != 'items':
                    return self.gap('starred', n)
                out.extend(it[1])
            else:
                out.append(self.ev(x, fr))
        return Tup(out)

    def e_List(self, n, fr):
        t = self.e_Tuple(n, fr)
        if not isinstance(t, Tup):
            return t
        return self.alloc(ListC([('v', x) for x in t.items]))

    e_Set = e_List

    def e_Dict(self, n, fr):
        d = {}
        exact = True
        for k, v in zip(n.keys, n.values):
            kk = mkkey(self.ev(k, fr)) if k is not None else None
            vv = self.ev(v, fr)
            if kk is None:
                exact = False
            else:
                d[kk] = vv
        return self.alloc(DictC(d, exact))

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
                continue
            x = self.ev(v.value, fr)
            spec = ''
            if v.format_spec is not None:
                spec = getattr(self.ev(v.format_spec, fr), 'v', None)
            c = npmodel.text(lambda: format(
                {-1: lambda q: q, 114: repr, 115: str, 97: ascii}[
                    v.conversion](npmodel.pyval(x)), spec))
            if c.v == '<str>':
                return c
            out.append(c.v)
        return Const(''.join(out))

    def e_Lambda(self, n, fr):
        from .project import FuncInfo
        f = FuncInfo(n, fr.module, None)
        env = dict(getattr(fr, 'closure', None) or {})
        env.update(fr.env)
        return Func(f, env)

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_ListComp(self, n, fr):
        r = self.comp(n, n.generators, n.elt, fr)
        if isinstance(r, list):
            return self.alloc(ListC([('v', x) for x in r]))
        if isinstance(r, Seq):
            return self.alloc(ListC([('s', r)]))
        return r

    e_SetComp = e_ListComp

    def e_GeneratorExp(self, n, fr):
        return self.e_ListComp(n, fr)

    def e_DictComp(self, n, fr):
        return self.gap("dict comprehension", n)

    def comp(self, n, gens, elt, fr):
        saved = dict(fr.env)
        try:
            return self.comp_rec(n, list(gens), elt, fr)
        finally:
            # comprehension variables are local
            for k in list(fr.env):
                if k not in saved:
                    del fr.env[k]
                else:
                    fr.env[k] = saved[k]

    def comp_rec(self, n, gens, elt, fr):
        if not gens:
            return [self.ev(elt, fr)]
        g = gens[0]
        itv = self.ev(g.iter, fr)
        it = self.to_items(itv)
        if it is None:
            ow = self.owners_of(itv)
            # still evaluate the element once for its effects
            self.assign(g.target, Unk('element', ow), fr)
            self.comp_rec(n, gens[1:], elt, fr)
            return self.gap("comprehension over unknown", n, ow)
        if it[0] == 'items':
            out = []
            for x in it[1]:
                self.assign(g.target, x, fr)
                keep = True
                for c in g.ifs:
                    t = self.ev_cond(c, fr).const()
                    if t is None:
                        return self.gap("conditional comprehension", n)
                    keep = keep and bool(t)
                if keep:
                    r = self.comp_rec(n, gens[1:], elt, fr)
                    if isinstance(r, list):
                        out.extend(r)
                    elif isinstance(r, Seq):
                        return self.gap("nested symbolic comprehension", n)
                    else:
                        return r
            return out
        seq = it[1]
        v = fresh_var(seq.n)
        self.assign(g.target, seq.item(atom(v)), fr)
        heap0 = dict(self.heap)
        sel = None
        if g.ifs:
            c = ONE
            for x in g.ifs:
                c = c * self.ev_cond(x, fr)
            if c.const() == 0:
                return []
            if c.const() is None:
                sel = Sel([seq.n], lambda idx, c=c: subst(c, {v: idx[0]}))
        try:
            r = self.comp_rec(n, gens[1:], elt, fr)
        except RaiseEvent:
            raise
        for loc, c in heap0.items():
            c1 = self.heap.get(loc)
            if c1 is not c and c.kind == 'arr' and c.view is None:
                self.heap[loc] = havoc_content(c, 'comprehension effect')
        if isinstance(r, list) and len(r) == 1:
            fz = self.freeze(r[0], self.heap)
            if sel is not None:
                def item(i):
                    inv = RANKINV.get((sel.key.key, i.key))
                    if inv is None:
                        return Unk('filtered element')
                    return fz(lambda e: subst(e, {v: inv[0]}))
                sq = Seq(sel.count(), item)
                sq.sel = sel
                return sq
            return Seq(seq.n, lambda i: fz(lambda e: subst(e, {v: i})))
        if isinstance(r, list) and len(r) > 1:
            k = len(r)
            fzs = [self.freeze(x, self.heap) for x in r]
            def item2(i):
                q, rem = int_div(i, E(k)), int_mod(i, E(k))
                return self.pick([fz(lambda e: subst(e, {v: q}))
                                  for fz in fzs], rem)
            return Seq(seq.n * k, item2)
        if isinstance(r, Seq):
            # rectangular nested comprehension
            if not e_depends(r.n, v) and not r.n.poisoned():
                inner_n = r.n
                def item(i):
                    q, rem = int_div(i, inner_n), int_mod(i, inner_n)
                    val = r.item(rem)
                    return self.freeze(val, self.heap)(
                        lambda e: subst(e, {v: q}))
                sq = Seq(seq.n * inner_n, item)
                return sq
        return self.gap("comprehension", n)


def is_generator(node):
    r = getattr(node, '_is_gen', None)
    if r is None:
        r = False
        todo = list(node.body) if isinstance(node.body, list) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            todo.extend(ast.iter_child_nodes(n))
        node._is_gen = r
    return r


class _ModInfo(object):
    """stand-in FuncInfo for evaluating class-level expressions"""

    def __init__(self, module):
        self.module = module
        self.cls = None
        self.qual = module.rel


def iv_(v):
    return atom(v)


def fresh_free(hi):
    return fresh_var(hi, 'c')


def trunc(e):
    return e if is_int(e) else mk_fn('trunc', [e])


def to_bool(e):
    from .expr import is01
    if all(len(t) == 1 and is01(t[0]) or t == () for t in e.terms) and \
            len(e.terms) <= 1:
        return e
    return e


def mkkey(v):
    if isinstance(v, Const):
        return ('c', v.v)
    if isinstance(v, Num) and v.e.const() is not None:
        return ('n', v.e.const())
    if isinstance(v, Tup):
        ks = [mkkey(x) for x in v.items]
        if None in ks:
            return None
        return ('t', tuple(ks))
    return None


def unkey(k):
    if k[0] == 'c':
        return Const(k[1])
    if k[0] == 'n':
        return Num(E(k[1]))
    return Tup([unkey(x) for x in k[1]])


def has_return(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Return):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
    return False


def havoc_content(c, why, old=None):
    if c.kind == 'arr':
        if c.view is not None:
            return c
        return ArrC(c.axes, lambda idx: unk(why), c.dtype, c.owners)
    if c.kind == 'list':
        ow = c.owners
        return ListC([('s', Seq(unk(why), lambda i: Unk(why, ow)))], ow)
    if c.kind == 'dict':
        return DictC({}, False)
    if c.kind == 'obj':
        d = ObjC(c.cls, c.attrs) if old is not None and old is not c else c
        for a, v in list(d.attrs.items()) if d is not c else ():
            if a not in old.attrs or old.attrs[a] != v:
                d.attrs[a] = Unk(why)
        return d
    return c


def split_linear(e, a):
    """e = coef*a + rest with a occurring only linearly at top level"""
    coef, rest = {}, {}
    for t, c in e.terms.items():
        k = t.count(a)
        if k == 0:
            rest[t] = c
        elif k == 1:
            tt = tuple(x for x in t if x != a)
            coef[tt] = coef.get(tt, 0) + c
        else:
            return None, None
    coef, rest = Expr(coef), Expr(rest)
    if a in rest.atoms() or a in coef.atoms():
        return None, None
    return coef, rest


def split_read(e, name, idx):
    e = unpivot(e, name, idx)
    target = None
    for a in e.atoms():
        if a[0] == 'read' and a[1] == name:
            if tuple(a[2]) != tuple(idx):
                return None, None
            target = a
    if target is None:
        return ZERO, e
    return split_linear(e, target)


def unpivot(e, name, idx):
    """reads of `name` whose index equals idx under an equality factor of
    their term are written with index idx"""
    out = {}
    for t, c in e.terms.items():
        nt = []
        for a in t:
            if a[0] == 'read' and a[1] == name and \
                    tuple(a[2]) != tuple(idx) and len(a[2]) == len(idx):
                ok = True
                for x, y in zip(a[2], idx):
                    d = x - y
                    if d.is_zero():
                        continue
                    if not any(b[0] == 'eq' and (b[1] == d or b[1] == -d)
                               for b in t):
                        ok = False
                        break
                if ok:
                    a = (a[0], a[1], tuple(idx)) + tuple(a[3:])
            nt.append(a)
        nt = tuple(nt)
        if nt == t:
            out[t] = out.get(t, 0) + c
        else:
            nt = tuple(sorted(nt, key=atom_key))
            out[nt] = out.get(nt, 0) + c
    return Expr({t: c for t, c in out.items() if c != 0})


def split_own(cell, name, g):
    """cell = coef*old[g] + rest, coef free of reads"""
    own = None
    for a in cell.atoms():
        if a[0] == 'read' and a[1] == name and tuple(a[2]) == tuple(g):
            own = a
    if own is None:
        return None, None
    coef, rest = {}, {}
    for t, c in cell.terms.items():
        if t.count(own) == 1 and all(x == own or x[0] in ('eq', 'ge')
                                     for x in t):
            tt = tuple(x for x in t if x != own)
            coef[tt] = coef.get(tt, 0) + c
        else:
            rest[t] = c
    return Expr(coef), Expr(rest)


def write_pins(cell, name, g, v):
    """equalities every cell written in iteration v satisfies, or None"""
    coef, rest = split_own(cell, name, g)
    if coef is None:
        return None
    eqs = None
    for t in list((ONE - coef).terms) + list(rest.terms):
        s = {a for a in t if a[0] == 'eq'}
        eqs = s if eqs is None else eqs & s
    return eqs or None


def unwritten(cell, name, g, v, arrs, closed):
    """split cell = coef*old[g] + rest where rest reads only cells no
    earlier iteration wrote: those still have their first value"""
    coef, rest = split_own(cell, name, g)
    if coef is None:
        return None, None
    mine = write_pins(cell, name, g, v) or set()
    if not pinned(rest, v):
        return None, None
    bad = []
    u = fresh_free(v[2])
    for nm, (c0, c1) in arrs.items():
        if not any(a[0] == 'read' and a[1] == nm for a in rest.atoms()):
            continue
        gi = [fresh_free(a.size) for a in c0.axes]
        gg = [atom(x) for x in gi]
        eqs = write_pins(subst(c1.fn(gg), closed), nm, gg, v)
        if eqs is None:
            return None, None

        def read(idx, gi=gi, eqs=eqs, c0=c0):
            m = dict(zip(gi, idx))
            m[v] = atom(u)
            for a in eqs:
                d = subst(a[1], m)
                c = d.const()
                if c is not None and c != 0:
                    return c0.fn(list(idx))
                for b in list(mine) + [None]:
                    for sg in (1, -1):
                        d2 = d - sg * b[1] if b is not None else d
                        k = d2.terms.get((u,))
                        if k and d2 * (1 / k) == atom(u) - atom(v):
                            return c0.fn(list(idx))
            bad.append(idx)
            return ZERO
        rest = subst(rest, ReadMap(nm, read))
    if bad:
        return None, None
    return coef, rest


def any_oldread(e, olds):
    names = {o for o in olds.values() if isinstance(o, str)}
    return any(a[0] == 'read' and a[1] in names for a in e.atoms())


def affine(v, n, coef, rest, init):
    """value after n steps of x -> coef(v) x + rest(v) from init"""
    u = fresh_var(E(n))
    sv = {v: atom(u)}
    return mk_fn('affine', [mk_key([u], subst(coef, sv)),
                            mk_key([u], subst(rest, sv)), E(init)])


def pinned(g, v):
    """all terms of g share an equality that determines v"""
    common = None
    for t in g.terms:
        eqs = {a for a in t if a[0] == 'eq' and
               abs(a[1].terms.get((v,), 0)) == 1}
        common = eqs if common is None else common & eqs
    return bool(common)


def subst_axis(a, s):
    segs = []
    for sg in a.segs:
        if sg and sg[0] == 'sel':
            sel = sg[1]
            segs.append(('sel', Sel([s(d) for d in sel.dims],
                                    lambda idx, sel=sel: subst_fn(
                                        sel.mask, idx, s))))
        else:
            segs.append(tuple(s(d) for d in sg))
    return Axis(segs, s(a.size))


def subst_fn(fn, idx, s):
    """apply substitution s to fn's body but not to the indices"""
    fr = [fresh_var(sym('BIG'), 'z') for _ in idx]
    # indices must keep their bounds: substitute directly when safe
    e = fn(list(idx))
    return s(e)


BUILTINS = set(dir(__import__('builtins')))
