"""C17: what the inference back-ends are asked and how they are decoded."""
from fractions import Fraction
import itertools
from .lw import *
from .rel import TRUST, eq_obl, eq_arr, num_of, definite_faults, cell
from .base import Broken, guarded, Shape, helper
from .margin import call_guard
from .qp import carr
from ..expr import compare, show, evaluate, Valuation
from ..vals import ListC

IM = 'pystruct.inference.inference_methods'
AD3 = ['unaries', 'edges', 'edge_weights', 'verbose', 'n_iterations', 'eta',
       'exact']
AD3C = ['unaries', 'edges', 'edge_weights', 'constraints', 'verbose',
        'n_iterations', 'eta', 'exact']


class IW(object):
    """one call of the dispatcher on a symbolic problem"""

    def __init__(self, P, typed=0, shared=False, status='integral', sizes=None,
                 edges=None):
        PARTS.clear()
        self.p = P
        self.typed = typed
        self.status = status
        self.calls = []
        self.f = P.func(IM, 'inference_dispatch')
        if self.f is None:
            raise Broken('inference_dispatch is gone')
        self.I = I = Interp(P, {}, self.hooks())
        I.unroll = 64
        if typed:
            self.Ss = [sym('S%d' % t, 2) for t in range(typed)]
            self.Ns = [sym('N%d' % t, 1) for t in range(typed)]
            self.Ms, us, ps, es = [], [], [], []
            for t in range(typed):
                us.append(I.input_arr('u%d' % t, [self.Ns[t], self.Ss[t]],
                                      owners='potentials'))
            for a in range(typed):
                for b in range(typed):
                    m = sym('M%d%d' % (a, b), 1)
                    self.Ms.append((m, self.Ss[a] * self.Ss[b]))
                    ps.append(I.input_arr('p%d%d' % (a, b), [
                        m, self.Ss[a], self.Ss[b]], owners='potentials'))
                    es.append(I.input_arr('e%d%d' % (a, b), [m, E(2)], lo=0,
                                          hi=sym('N0', 1), dtype='int',
                                          owners='edges'))
            self.u, self.pw, self.e = (mk_list(I, us), mk_list(I, ps),
                                       mk_list(I, es))
            self.ul, self.pl, self.el = us, ps, es
        else:
            n, S = sizes or (sym('N', 1), sym('S', 2))
            self.N, self.S = E(n), E(S)
            self.M = sym('M', 1) if edges is None else E(len(edges))
            self.u = I.input_arr('u', [self.N, self.S], owners='potentials')
            if shared:
                self.pw = I.input_arr('p', [self.S, self.S],
                                      owners='potentials')
            else:
                self.pw = I.input_arr('p', [self.M, self.S, self.S],
                                      owners='potentials')
            if edges is None:
                self.e = I.input_arr('e', [self.M, E(2)], lo=0, hi=self.N,
                                     dtype='int', owners='edges')
            else:
                self.e = concrete_edges(I, edges)
        self.shared = shared

    def pair(self, e, a, b):
        c = self.I.snap(self.pw)
        return c.fn([a, b]) if self.shared else c.fn([e, a, b])

    def una(self, i, s):
        return self.I.snap(self.u).fn([i, s])

    def score(self, y):
        """score of the labelling y (a function of the node)"""
        i = fresh_var(self.N)
        k = fresh_var(self.M)
        ed = self.I.snap(self.e)
        return sum_over([i], self.una(atom(i), y(atom(i)))) + sum_over(
            [k], self.pair(atom(k), y(ed.fn([atom(k), ZERO])),
                           y(ed.fn([atom(k), ONE]))))

    def run(self, method, **kw):
        I = self.I
        self.mark = len(I.events)
        return I.call_func(self.f, [self.u, self.pw, self.e, method], kw)

    def rec(self, name, I, args, kw, names):
        d = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names:
                raise RaiseEvent("TypeError: %s() got an unexpected keyword "
                                 "argument %r" % (name, k))
            d[k] = v
        snap = {}
        for k, v in d.items():
            if I.is_arr(v):
                snap[k] = I.snap(v)
            elif I.is_list(v) and k in ('unaries', 'edges', 'edge_weights'):
                it = I.to_items(v)
                snap[k] = [I.snap(x) if I.is_arr(x) else x for x in it[1]] \
                    if it and it[0] == 'items' else v
            else:
                snap[k] = v
        self.calls.append((name, snap))
        return d

    def hooks(self):
        h = {'ad3.general_graph': lambda I, a, k: self.ad3(
                'general_graph', I, a, k, AD3),
             'ad3.general_constrained_graph': lambda I, a, k: self.ad3(
                'general_constrained_graph', I, a, k, AD3C),
             'pyqpbo.alpha_expansion_general_graph': self.qpbo,
             'cvxopt.solvers.lp': self.lp,
             'cvxopt.matrix': self.matrix,
             'cvxopt.spmatrix': self.spmatrix,
             'cvxopt.spdiag': self.spdiag}
        self.ogm_hooks(h)
        return h

    def ad3(self, name, I, args, kw, names):
        self.rec(name, I, args, kw, names)
        if self.typed:
            um = mk_list(I, [I.input_arr('um%d' % t, [n, s]) for t, (n, s) in
                             enumerate(zip(self.Ns, self.Ss))])
            pm = mk_list(I, [I.input_arr('pm%d' % t, [m, s]) for t, (m, s) in
                             enumerate(self.Ms)])
        else:
            um = I.input_arr('um', [self.N, self.S])
            pm = I.input_arr('pm', [self.M, self.S * self.S])
        return Tup([um, pm, Num(atom(('fn', 'h:value', ())), 'float'),
                    Const(self.status)])

    def qpbo(self, I, args, kw):
        self.rec('qpbo', I, args, kw, ['edges', 'unaries', 'edge_weights',
                                       'n_iter', 'verbose', 'random_seed'])
        return I.input_arr('yq', [self.N], lo=0, hi=self.S, dtype='int')

    # -- cvxopt ---------------------------------------------------------------
    def matrix(self, I, args, kw):
        v = args[0]
        if I.is_list(v):
            return npmodel.call_ext(I, 'numpy.array', [v], {}, None)
        return v

    def sparse(self, I, cells, size):
        o = I.new_obj(None, {})
        I.set_attr(o, 'size', Tup([Num(E(size[0]), 'int'),
                                   Num(E(size[1]), 'int')]))
        self.mats = getattr(self, 'mats', {})
        self.mats[o.loc] = (cells, size)
        return o

    def spmatrix(self, I, args, kw):
        vals = [const_list(I, a) for a in args[:3]]
        if any(v is None for v in vals):
            raise Opaque('sparse matrix entries are not constants')
        cells = {}
        for v, i, j in zip(*vals):
            cells[(int(i), int(j))] = cells.get((int(i), int(j)), 0) + v
        size = const_list(I, args[3]) if len(args) > 3 else None
        if size is None:
            size = (max(int(i) for i in vals[1]) + 1,
                    max(int(j) for j in vals[2]) + 1) if vals[1] else (0, 0)
        return self.sparse(I, cells, tuple(int(s) for s in size))

    def spdiag(self, I, args, kw):
        d = const_list(I, args[0])
        if d is None:
            raise Opaque('diagonal is not constant')
        return self.sparse(I, {(k, k): v for k, v in enumerate(d)},
                           (len(d), len(d)))

    def lp(self, I, args, kw):
        self.rec('lp', I, args, kw, ['c', 'G', 'h', 'A', 'b', 'kktsolver',
                                     'solver', 'primalstart', 'dualstart',
                                     'options'])
        c = self.calls[-1][1]['c']
        n = c.axes[0].size
        x = I.input_arr('lpx', [n, ONE])
        return I.alloc(DictC({
            ('c', 'x'): x, ('c', 'status'): Const('optimal'),
            ('c', 'primal objective'): Num(atom(('fn', 'h:lpobj', ())),
                                           'float')}))

    # -- opengm ---------------------------------------------------------------
    OGM = {'bp': 'BeliefPropagation', 'dd': 'DualDecompositionSubgradient',
           'trws': 'TrwsExternal', 'trw': 'TreeReweightedBp',
           'gibbs': 'Gibbs', 'lf': 'LazyFlipper', 'icm': 'Icm',
           'dyn': 'DynamicProgramming', 'fm': 'AlphaExpansionFusion',
           'gc': 'GraphCut', 'loc': 'Loc', 'mqpbo': 'Mqpbo',
           'alphaexp': 'AlphaExpansion'}

    def ogm_hooks(self, h):
        def gm(I, args, kw):
            self.calls.append(('gm', dict(labels=I.snap(args[0]))))
            o = I.new_obj(None, {})

            def note(name):
                def f(I, a, k):
                    self.calls.append((name, dict(args=[
                        I.snap(x) if I.is_arr(x) else x for x in a])))
                    if name == 'addFunctions':
                        self.nf = getattr(self, 'nf', 0) + 1
                        return Num(E(1000 + self.nf), 'int')
                    if name == 'evaluate':
                        return Num(atom(('fn', 'h:gmvalue', ())), 'float')
                    return NONE
                return ModelFn(f, name)
            for k in ('reserveFactors', 'reserveFunctions', 'addFunctions',
                      'addFactors', 'evaluate'):
                I.set_attr(o, k, note(k))
            return o
        h['opengm.gm'] = gm

        def alg(cls):
            def make(I, args, kw):
                self.calls.append(('alg', dict(cls=cls)))
                o = I.new_obj(None, {})

                def infer(I, a, k):
                    self.calls.append(('infer', {}))
                    return NONE

                def start(I, a, k):
                    self.calls.append(('start', dict(args=a)))
                    return NONE

                def arg(I, a, k):
                    self.calls.append(('arg', {}))
                    return I.input_arr('yo', [self.N], lo=0, hi=self.S,
                                       dtype='int')
                I.set_attr(o, 'infer', ModelFn(infer, 'infer'))
                I.set_attr(o, 'setStartingPoint', ModelFn(start, 'start'))
                I.set_attr(o, 'arg', ModelFn(arg, 'arg'))
                return o
            return make
        for c in set(self.OGM.values()):
            h['opengm.inference.' + c] = alg(c)


def concrete_edges(I, edges):
    if not edges:
        return I.new_arr([Axis.of(0), Axis.of(2)], lambda ix: ZERO, 'int',
                         frozenset(['edges']))

    def fn(ix):
        a, b = ix[0].const(), ix[1].const()
        if a is not None and b is not None:
            return E(edges[int(a)][int(b)])
        r = ZERO
        for k, e in enumerate(edges):
            for j in (0, 1):
                r = r + ind_eq(ix[0], E(k)) * ind_eq(ix[1], E(j)) * e[j]
        return r
    return I.new_arr([Axis.of(len(edges)), Axis.of(2)], fn, 'int',
                     frozenset(['edges']))


def const_list(I, v):
    r = I.to_items(v)
    if r is None or r[0] != 'items':
        if I.is_arr(v):
            c = I.snap(v)
            if c.ndim == 1 and c.axes[0].size.const() is not None:
                out = [c.fn([E(k)]).const()
                       for k in range(int(c.axes[0].size.const()))]
                return None if None in out else out
        return None
    out = []
    for x in r[1]:
        k = num_of(I, x).const()
        if k is None:
            return None
        out.append(k)
    return out


# -- obligations ---------------------------------------------------------------
def attempt(rep, W, oid, run, expect=None):
    """run; returns (ok, value). expect: exception that has to be raised"""
    I = W.I
    try:
        r = run()
    except RaiseEvent as e:
        name = str(e.what).split(':')[0].split('(')[0].strip()
        if expect:
            if name.split('.')[-1] == expect:
                rep.proved(oid, 'raises %s' % expect)
            else:
                rep.violate(oid, W.f.qual, 'raises %s instead of %s' % (
                    e.what, expect))
            return False, None
        rep.violate(oid, W.f.qual, 'fails on valid input: %s (%s line %s)' % (
            e.what, e.func.qual if e.func else '?',
            getattr(e.node, 'lineno', '?')))
        return False, None
    rep.visited(I.visited)
    if expect:
        if I.gap_notes:
            raise Opaque('not fully analysed: %s' % I.gap_notes[:2])
        rep.violate(oid, W.f.qual, 'does not raise %s' % expect)
        return False, None
    fl = definite_faults(W, W.mark)
    if fl:
        rep.violate(oid, W.f.qual, 'fails on valid input: %s' % fl[0])
        return False, None
    return True, r


def arr_eq(rep, W, oid, got, dims, want, what):
    if isinstance(got, Ref):
        if not W.I.is_arr(got):
            raise Opaque('array expected: %r' % (got,))
        got = W.I.snap(got)
    if not isinstance(got, ArrC):
        raise Opaque('array expected: %r' % (got,))
    vs = [fresh_var(E(d)) for d in dims]
    idx = [atom(v) for v in vs]
    if got.ndim != len(dims):
        if what.startswith('pairwise marginals') and got.ndim == 2:
            raise Opaque('pairwise marginals in another layout')
    g = cell(got, [E(d) for d in dims], idx)
    eq_arr(rep, oid, W.f.qual, vs, g, want(*idx), what)


def scaled_eq(rep, W, oid, got, dims, want, what):
    """equality up to rounding to integers at some positive scale: the scale
    is read off the analysed expression"""
    vs = [fresh_var(E(d)) for d in dims]
    idx = [atom(v) for v in vs]
    g = cell(got, [E(d) for d in dims], idx)
    w = want(*idx)
    k = integer_scale(g)
    if k is None:
        eq_arr(rep, oid, W.f.qual, vs, g, w, what)
        return None
    eq_arr(rep, oid, W.f.qual, vs, g, mk_fn('trunc', [w * k]), what +
           ' (scaled by %s and truncated)' % k)
    return k


def integer_scale(e):
    if len(e.terms) != 1:
        return None
    (t, c), = e.terms.items()
    if len(t) == 1 and t[0][0] == 'fn' and t[0][1] in ('trunc', 'rint',
                                                       'floor'):
        a = t[0][2][0]
        ks = {abs(k) for k in a.terms.values()}
        if len(ks) == 1:
            return ks.pop()
    return None


def the_call(W, name):
    c = [d for n, d in W.calls if n == name]
    if not c:
        raise Opaque('the back-end %s was not called' % name)
    return c[-1]


def same_problem(rep, W, oid, d, sign=1, what=''):
    """potentials and edges handed to the solver are the given ones"""
    rep.rule('problem handed to the solver')
    if W.typed:
        for tag, got, want in (('unaries', d['unaries'], W.ul),
                               ('edges', d['edges'], W.el),
                               ('edge_weights', d['edge_weights'], W.pl)):
            if not isinstance(got, list):
                raise Opaque('list of arrays expected')
            if len(got) != len(want):
                rep.violate(oid + ':' + tag, W.f.qual, '%d %s handed on, %d '
                            'given' % (len(got), tag, len(want)))
                continue
            for k, (g, w) in enumerate(zip(got, want)):
                wc = W.I.snap(w)
                arr_eq(rep, W, '%s:%s%d' % (oid, tag, k), g,
                       [a.size for a in wc.axes], lambda *ix: wc.fn(list(ix)),
                       '%s %d handed to the solver' % (tag, k))
        return
    arr_eq(rep, W, oid + ':unaries', d['unaries'], [W.N, W.S],
           lambda i, s: sign * W.una(i, s), 'unary potentials')
    arr_eq(rep, W, oid + ':pairwise', d['edge_weights'], [W.M, W.S, W.S],
           lambda e, a, b: sign * W.pair(e, a, b), 'pairwise potentials')
    ed = W.I.snap(W.e)
    arr_eq(rep, W, oid + ':edges', d['edges'], [W.M, E(2)],
           lambda e, j: ed.fn([e, j]), 'edges')


def split(W, oid, r, energy):
    if not energy:
        return r, None
    if not isinstance(r, Tup) or len(r.items) != 2:
        raise Opaque('pair of labels and energy expected: %r' % (r,))
    return r.items


def tup_check(rep, W, oid, r, energy):
    """with return_energy a pair comes back"""
    if energy and not (isinstance(r, Tup) and len(r.items) == 2):
        if isinstance(r, Ref) and W.I.is_arr(r):
            rep.violate(oid, W.f.qual, 'return_energy is ignored: only the '
                        'labels are returned')
            return False
        raise Opaque('unexpected result %r' % (r,))
    if not energy and isinstance(r, Tup) and len(r.items) == 2 and \
            isinstance(r.items[1], Num):
        rep.violate(oid, W.f.qual, 'an energy is returned although it was '
                    'not asked for')
        return False
    return True


def labels_are(rep, W, oid, y, fn, what):
    rep.rule('decoding')
    if isinstance(y, Tup):
        rep.violate(oid, W.f.qual, 'marginals are returned where labels are '
                    'expected')
        return
    arr_eq(rep, W, oid, y, [W.N], fn, what)


def argmax_of(fn, S):
    """argmax over the last axis as the analyser writes it"""
    def at(*idx):
        s = fresh_var(S)
        return mk_fn('argmax', [mk_key([s], fn(*(list(idx) + [atom(s)])))])
    return at


def do_ad3(rep, P):
    for name, fn in (('ad3', 'general_graph'),
                     ('ad3+', 'general_constrained_graph')):
        for typed in (0, 1, 2, 3):
            for shared in ((False, True) if not typed and name == 'ad3'
                           else (False,)):
                for relaxed in (False, True):
                    for status in ('integral', 'fractional', 'unsolved'):
                        for energy in (False, True):
                            for opts in (0, 1):
                                oid = '%s:%s%s:%s%s%s%s' % (
                                    name, 'types%d' % typed if typed
                                    else 'graph', ':shared' if shared else '',
                                    status, ':relaxed' if relaxed else '',
                                    ':energy' if energy else '',
                                    ':options' if opts else '')
                                guarded(rep, oid, lambda: one_ad3(
                                    rep, P, oid, name, fn, typed, shared,
                                    relaxed, status, energy, opts), IM)


def one_ad3(rep, P, oid, name, fn, typed, shared, relaxed, status, energy,
            opts):
    W = IW(P, typed, shared, status)
    I = W.I
    kw = {}
    if relaxed:
        kw['relaxed'] = Const(True)
    if energy:
        kw['return_energy'] = Const(True)
    method = Const(name)
    cons = None
    od = None
    if opts:
        od = I.alloc(DictC({('c', 'branch_and_bound'): Const(True)}))
        method = Tup([Const(name), od])
        if name == 'ad3+':
            cons = mk_list(I, [Const('constraint')])
            kw['constraints'] = cons
    ok, r = attempt(rep, W, oid, lambda: W.run(method, **kw))
    if not ok:
        return
    d = the_call(W, fn)
    same_problem(rep, W, oid, d)
    ex = d.get('exact', Const(False))
    t = I.truth(ex) if not isinstance(ex, Unk) else None
    if t is not None and t.const() is not None:
        if (t.const() == 1) == bool(opts):
            rep.proved(oid + ':exact', 'branch_and_bound reaches the solver')
        else:
            rep.violate(oid + ':exact', W.f.qual, 'branch_and_bound=%s but '
                        'exact=%s is handed to the solver' % (
                            bool(opts), bool(t.const())))
    if name == 'ad3+':
        c = d.get('constraints')
        if cons is not None:
            if I.same(c, cons) if c is not None else False:
                rep.proved(oid + ':constraints', 'constraints passed on')
            elif c is None or npmodel.is_none(c):
                rep.violate(oid + ':constraints', W.f.qual,
                            'the constraints do not reach the solver')
            else:
                rep.undecided(oid + ':constraints', repr(c))
        elif c is not None and not npmodel.is_none(c):
            rep.undecided(oid + ':constraints', repr(c))
    if od is not None and len(I.c(od).items) != 1:
        rep.violate(oid + ':options', W.f.qual,
                    "the caller's option dictionary is changed")
    if not tup_check(rep, W, oid + ':energy', r, energy):
        return
    y, en = split(W, oid, r, energy)
    if energy:
        rep.rule('energy')
        eq_obl(rep, oid + ':energy', W.f.qual, num_of(I, en),
               -atom(('fn', 'h:value', ())), 'energy = -(value of the solver)')
    soft = relaxed and status != 'integral'
    if soft:
        if not (isinstance(y, Tup) and len(y.items) == 2):
            if I.is_arr(y):
                rep.violate(oid + ':decode', W.f.qual, 'labels are returned '
                            'where marginals were asked for')
                return
            raise Opaque('unexpected result %r' % (y,))
        if typed:
            for k, part in enumerate(('um', 'pm')):
                it = I.to_items(y.items[k])
                if it is None or it[0] != 'items':
                    raise Opaque('list expected')
                dims = list(zip(W.Ns, W.Ss)) if k == 0 else W.Ms
                for j, (g, dd) in enumerate(zip(it[1], dims)):
                    arr_eq(rep, W, '%s:%s%d' % (oid, part, j), g, list(dd),
                           lambda *ix: mk_read('%s%d' % (part, j), ix, None,
                                               None, False),
                           'marginals of the solver')
        else:
            arr_eq(rep, W, oid + ':um', y.items[0], [W.N, W.S],
                   lambda *ix: mk_read('um', ix, None, None, False),
                   'unary marginals of the solver')
            arr_eq(rep, W, oid + ':pm', y.items[1], [W.M, W.S * W.S],
                   lambda *ix: mk_read('pm', ix, None, None, False),
                   'pairwise marginals of the solver')
        return
    if typed:
        rep.rule('decoding')
        if isinstance(y, Tup):
            rep.violate(oid + ':decode', W.f.qual, 'marginals are returned '
                        'where labels are expected')
            return
        tot = ZERO
        for n in W.Ns:
            tot = tot + n
        c = I.snap(y)
        if c.ndim != 1 or size_differs(c.axes[0].size, tot):
            raise Shape('one label per node expected')
        off, st = ZERO, ZERO
        for t in range(typed):
            i = fresh_var(W.Ns[t])
            am = argmax_of(lambda a, b: mk_read('um%d' % t, (a, b), None, None,
                                                False), W.Ss[t])
            eq_arr(rep, '%s:decode%d' % (oid, t), W.f.qual, [i],
                   c.fn([off + atom(i)]), st + am(atom(i)),
                   'label = best marginal, offset by the states of the '
                   'earlier types')
            off, st = off + W.Ns[t], st + W.Ss[t]
    else:
        labels_are(rep, W, oid + ':decode', y, argmax_of(
            lambda a, b: mk_read('um', (a, b), None, None, False), W.S),
            'label = best marginal of the node')


def exceptions(rep, P):
    for name in ('ad3', 'ad3+'):
        for typed in (0, 2):
            for status in ('fractional', 'unsolved', 'integral'):
                for ask in (True, False):
                    for relaxed in (False, True):
                        oid = 'inference_exception:%s:%s:%s:%s%s' % (
                            name, typed, status, ask,
                            ':relaxed' if relaxed else '')
                        guarded(rep, oid, lambda: one_exc(
                            rep, P, oid, name, typed, status, ask, relaxed),
                            IM)


def one_exc(rep, P, oid, name, typed, status, ask, relaxed):
    W = IW(P, typed, False, status)
    rep.rule('inference exception')
    kw = {'inference_exception': Const(ask)}
    if relaxed:
        kw['relaxed'] = Const(True)
    must = ask and status != 'integral' and not relaxed
    ok, r = attempt(rep, W, oid, lambda: W.run(Const(name), **kw),
                    'InferenceException' if must else None)
    if ok:
        rep.proved(oid, 'no exception')


def setter(rep, P):
    """TypedCRF.setInferenceException reaches the solver"""
    from .models import TYPED
    for c in TYPED[1:2]:
        for meth in ('inference', 'loss_augmented_inference'):
            for on in (True, False):
                oid = 'setInferenceException:%s:%s' % (meth, on)

                def one():
                    W = World(P, c)
                    f = W.cls.find('setInferenceException')
                    if f is None:
                        raise Opaque('setInferenceException is gone')
                    W.call('setInferenceException', Const(on))
                    x, w = W.make_x(), W.make_w()
                    a = [x] + ([W.make_y()] if meth != 'inference' else [])
                    W.call(meth, *(a + [w]))
                    rep.visited(W.I.visited)
                    if not W.rec:
                        raise Opaque('no inference')
                    v = W.rec[-1].get('inference_exception')
                    t = W.I.truth(v).const() if v is not None and \
                        not isinstance(v, Unk) else (0 if v is None else None)
                    if t is None:
                        raise Opaque('flag not decided')
                    if bool(t) == on:
                        rep.proved(oid, 'flag reaches inference')
                    else:
                        rep.violate(oid, f.qual, 'inference runs with '
                                    'inference_exception=%s' % bool(t))
                guarded(rep, oid, one, IM)


def do_unary(rep, P):
    for shared in (False, True):
        for energy in (False, True):
            oid = 'unary%s%s' % (':shared' if shared else '',
                                 ':energy' if energy else '')

            def one():
                W = IW(P, 0, shared)
                kw = {'return_energy': Const(True)} if energy else {}
                ok, r = attempt(rep, W, oid, lambda: W.run(Const('unary'),
                                                           **kw))
                if not ok or not tup_check(rep, W, oid + ':energy', r,
                                           energy):
                    return
                y, en = split(W, oid, r, energy)
                best = argmax_of(W.una, W.S)
                labels_are(rep, W, oid + ':decode', y, best,
                           'label of highest unary potential')
                if energy:
                    eq_obl(rep, oid + ':energy', W.f.qual, num_of(W.I, en),
                           -W.score(best), 'energy = -score')
            guarded(rep, oid, one, IM)


def do_qpbo(rep, P):
    for shared in (False, True):
        for energy in (False, True):
            oid = 'qpbo%s%s' % (':shared' if shared else '',
                                ':energy' if energy else '')

            def one():
                W = IW(P, 0, shared)
                kw = {'return_energy': Const(True)} if energy else {}
                ok, r = attempt(rep, W, oid, lambda: W.run(Const('qpbo'),
                                                           **kw))
                if not ok:
                    return
                d = the_call(W, 'qpbo')
                rep.rule('problem handed to the solver')
                k1 = scaled_eq(rep, W, oid + ':unaries', d['unaries'],
                               [W.N, W.S], lambda i, s: -W.una(i, s),
                               'negated unary potentials')
                k2 = scaled_eq(rep, W, oid + ':pairwise', d['edge_weights'],
                               [W.M, W.S, W.S],
                               lambda e, a, b: -W.pair(e, a, b),
                               'negated pairwise potentials')
                if k1 is not None and k2 is not None:
                    if k1 == k2:
                        rep.proved(oid + ':scale', 'one common scale')
                    else:
                        rep.violate(oid + ':scale', W.f.qual, 'unary and '
                                    'pairwise potentials are scaled '
                                    'differently: %s, %s' % (k1, k2))
                ed = W.I.snap(W.e)
                arr_eq(rep, W, oid + ':edges', d['edges'], [W.M, E(2)],
                       lambda e, j: ed.fn([e, j]), 'edges')
                if not tup_check(rep, W, oid + ':energy', r, energy):
                    return
                y, en = split(W, oid, r, energy)

                def yq(i):
                    return mk_read('yq', (i,), ZERO, W.S, True)
                labels_are(rep, W, oid + ':decode', y, yq,
                           'labels of the solver')
                if energy:
                    eq_obl(rep, oid + ':energy', W.f.qual, num_of(W.I, en),
                           -W.score(yq), 'energy = -score')
            guarded(rep, oid, one, IM)


def do_ogm(rep, P):
    for alg in sorted(IW.OGM) + [None]:
        for energy in (False, True):
            for init in (False, True):
                oid = 'ogm:%s%s%s' % (alg or 'default',
                                      ':energy' if energy else '',
                                      ':init' if init else '')
                guarded(rep, oid, lambda: one_ogm(rep, P, oid, alg, energy,
                                                  init), IM)


def one_ogm(rep, P, oid, alg, energy, init):
    W = IW(P, 0, False)
    I = W.I
    kw = {'return_energy': Const(True)} if energy else {}
    if alg:
        kw['alg'] = Const(alg)
    if init:
        kw['init'] = I.input_arr('y0', [W.N], lo=0, hi=W.S, dtype='int')
    ok, r = attempt(rep, W, oid, lambda: W.run(Const('ogm'), **kw))
    if not ok:
        return
    rep.rule('problem handed to the solver')
    names = [n for n, _ in W.calls]
    arr_eq(rep, W, oid + ':labels', the_call(W, 'gm')['labels'], [W.N],
           lambda i: W.S, 'number of states of every node')
    fn = [d['args'] for n, d in W.calls if n == 'addFunctions']
    fa = [d['args'] for n, d in W.calls if n == 'addFactors']
    if len(fn) != 2 or len(fa) != 2:
        raise Opaque('another way to build the graphical model')
    arr_eq(rep, W, oid + ':unaries', fn[0][0], [W.N, W.S],
           lambda i, s: -W.una(i, s), 'negated unary potentials')
    arr_eq(rep, W, oid + ':pairwise', fn[1][0], [W.M, W.S, W.S],
           lambda e, a, b: -W.pair(e, a, b), 'negated pairwise potentials')
    arr_eq(rep, W, oid + ':nodes', fa[0][1], [W.N], lambda i: i,
           'unary factor i belongs to node i')
    ed = I.snap(W.e)
    arr_eq(rep, W, oid + ':edges', fa[1][1], [W.M, E(2)],
           lambda e, j: ed.fn([e, j]), 'edges')
    for k in (0, 1):
        eq_obl(rep, '%s:function%d' % (oid, k), W.f.qual,
               num_of(I, fa[k][0]), E(1001 + k), 'factors use their function')
    want = IW.OGM[alg or 'dd']
    got = the_call(W, 'alg')['cls']
    if got == want:
        rep.proved(oid + ':algorithm', got)
    else:
        rep.violate(oid + ':algorithm', W.f.qual, 'alg=%r runs %s' % (alg,
                                                                     got))
    if 'arg' not in names or 'infer' not in names or \
            names.index('infer') > names.index('arg'):
        rep.violate(oid + ':infer', W.f.qual,
                    'the result is read before inference ran')
    if init != ('start' in names):
        rep.violate(oid + ':init', W.f.qual, 'starting point %s' % (
            'ignored' if init else 'set although none was given'))
    elif init and names.index('start') > names.index('infer'):
        rep.violate(oid + ':init', W.f.qual,
                    'the starting point is set after inference ran')
    if not tup_check(rep, W, oid + ':energy', r, energy):
        return
    y, en = split(W, oid, r, energy)
    labels_are(rep, W, oid + ':decode', y, lambda i: mk_read(
        'yo', (i,), ZERO, W.S, True), 'labels of the solver')
    if energy:
        eq_obl(rep, oid + ':energy', W.f.qual, num_of(I, en),
               atom(('fn', 'h:gmvalue', ())), 'energy of the model')


# -- linear program --------------------------------------------------------------
LPS = [(1, 2, []), (2, 2, [(0, 1)]), (2, 3, [(1, 0)]),
       (3, 2, [(0, 1), (1, 2)]), (3, 2, [(0, 1), (2, 1), (2, 0)]),
       (3, 3, [(2, 0)]), (4, 2, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]),
       (2, 4, [(0, 1)]), (2, 1, [(0, 1)])]
BIG = [(4, 3, [(0, 1), (2, 1), (3, 2), (0, 3)]), (3, 4, [(0, 1), (1, 2)]),
       (5, 2, [(0, 1), (4, 1), (3, 2), (0, 3), (2, 4)]),
       (2, 2, [(0, 1), (1, 0), (0, 1)])]


def do_lp(rep, P, tier):
    for n, S, edges in LPS + (BIG if tier != 'quick' else []):
        for shared in (False, True):
            for relaxed in (False, True):
                for energy in (False, True):
                    oid = 'lp:n%d:S%d:%s%s%s%s' % (
                        n, S, ''.join('%d%d,' % e for e in edges) or 'none',
                        ':shared' if shared else '',
                        ':relaxed' if relaxed else '',
                        ':energy' if energy else '')
                    guarded(rep, oid, lambda: one_lp(
                        rep, P, oid, n, S, edges, shared, relaxed, energy),
                        IM)
    # larger graphs, one setting each
    import random
    rnd = random.Random(11)
    pool = [(p, q) for p in range(6) for q in range(6) if p != q]
    for k in range(14 if tier == 'quick' else 80):
        n = rnd.choice((4, 5, 6))
        S = rnd.choice((2, 2, 2, 3)) if n < 6 else 2
        ok = [e for e in pool if max(e) < n]
        edges = [rnd.choice(ok) for _ in range(rnd.choice((4, 5, 6, 7)))] \
            if S == 2 else [rnd.choice(ok) for _ in range(3)]
        if k % 2:       # closing on nodes of the first edge
            edges[-1] = (edges[0][1], next(
                j for j in range(n) if j != edges[0][1]))
        oid = 'lp:n%d:S%d:%s' % (n, S, ''.join('%d%d,' % e for e in edges))
        guarded(rep, oid, lambda: one_lp(rep, P, oid, n, S, edges, False,
                                         bool(k % 3), bool(k % 5)), IM)


def one_lp(rep, P, oid, n, S, edges, shared, relaxed, energy):
    W = IW(P, 0, shared, sizes=(n, S), edges=edges)
    I = W.I
    kw = {}
    if relaxed:
        kw['relaxed'] = Const(True)
    if energy:
        kw['return_energy'] = Const(True)
    ok, r = attempt(rep, W, oid, lambda: W.run(Const('lp'), **kw))
    if not ok:
        return
    d = the_call(W, 'lp')
    nu, nv = n * S, n * S + len(edges) * S * S
    rep.rule('linear program')
    c = d['c']
    if c.ndim == 2:
        c0 = c
        c = ArrC([c0.axes[0]], lambda ix: c0.fn([ix[0], ZERO]))
    if size_differs(c.axes[0].size, E(nv)):
        raise Shape('%s variables, expected %s' % (show(c.axes[0].size), nv))
    for i in range(n):
        for s in range(S):
            eq_obl(rep, '%s:cost:u%d,%d' % (oid, i, s), W.f.qual,
                   c.fn([E(i * S + s)]), -W.una(E(i), E(s)),
                   'cost of a node state')
    for e in range(len(edges)):
        for a in range(S):
            for b in range(S):
                eq_obl(rep, '%s:cost:p%d,%d,%d' % (oid, e, a, b), W.f.qual,
                       c.fn([E(nu + (e * S + a) * S + b)]),
                       -W.pair(E(e), E(a), E(b)), 'cost of an edge state')
    mats = getattr(W, 'mats', {})
    G, A = d.get('G'), d.get('A')
    h, b = d.get('h'), d.get('b')
    for m in (G, A):
        if not isinstance(m, Ref) or m.loc not in mats:
            raise Opaque('constraint matrices are built another way')
    hv, bv = const_list(I, unslot(W, h)), const_list(I, unslot(W, b))
    if hv is None or bv is None:
        raise Opaque('right-hand sides are not constant')
    gc, gs = mats[G.loc]
    if len(hv) != gs[0] or gs[1] > nv:
        raise Shape('inequality constraints of size %s with %d right-hand '
                    'sides' % (gs, len(hv)))
    # the inequalities are exactly x >= 0
    seen = set()
    bad = None
    for row in range(gs[0]):
        nz = {j: v for (i, j), v in gc.items() if i == row and v}
        if len(nz) == 1 and list(nz.values())[0] < 0 and hv[row] == 0:
            seen |= set(nz)
        elif nz or hv[row] < 0:
            bad = row
    if bad is not None or seen != set(range(nv)):
        rep.violate(oid + ':inequalities', W.f.qual, 'the inequalities are '
                    'not "every marginal is non-negative" (row %s, missing '
                    '%s)' % (bad, sorted(set(range(nv)) - seen)[:4]))
    else:
        rep.proved(oid + ':inequalities', 'G x <= h is x >= 0')
    ac, asz = mats[A.loc]
    if asz[0] != len(bv) or asz[1] != nv:
        rep.violate(oid + ':equalities', W.f.qual, 'equality constraints of '
                    'size %s with %d right-hand sides for %d variables' % (
                        asz, len(bv), nv))
        return
    rows = [[Fraction(0)] * nv for _ in range(asz[0])]
    for (i, j), v in ac.items():
        rows[i][j] = Fraction(v)
    for y in itertools.product(range(S), repeat=n):
        x = [0] * nv
        for i in range(n):
            x[i * S + y[i]] = 1
        for e, (a, q) in enumerate(edges):
            x[nu + (e * S + y[a]) * S + y[q]] = 1
        for k, row in enumerate(rows):
            if sum(u * v for u, v in zip(row, x)) != bv[k]:
                rep.violate(oid + ':equalities', W.f.qual, 'equality '
                            'constraint %d excludes the labelling %s' % (
                                k, list(y)))
                return
    want = nv - (n * (S - 1) + len(edges) * (S - 1) ** 2)
    got = rank(rows)
    if got != want:
        rep.violate(oid + ':equalities', W.f.qual, 'the equality constraints '
                    'have rank %d; marginals that sum to one and agree with '
                    'the edges need %d' % (got, want))
        return
    rep.proved(oid + ':equalities', 'the affine hull of all labellings')
    # decoding
    if not tup_check(rep, W, oid + ':energy', r, energy):
        return
    y, en = split(W, oid, r, energy)
    if energy:
        eq_obl(rep, oid + ':energy', W.f.qual, num_of(I, en),
               atom(('fn', 'h:lpobj', ())), 'energy of the linear program')

    def x(k):
        return mk_read('lpx', (E(k), ZERO), None, None, False)

    def um(i, s):
        return mk_read('lpx', (i * S + s, ZERO), None, None, False)
    if relaxed:
        if not (isinstance(y, Tup) and len(y.items) == 2):
            if I.is_arr(y):
                rep.violate(oid + ':decode', W.f.qual, 'labels are returned '
                            'where marginals were asked for')
                return
            raise Opaque('unexpected result')
        arr_eq(rep, W, oid + ':um', y.items[0], [W.N, W.S], um,
               'unary marginals')
        if edges:
            arr_eq(rep, W, oid + ':pm', y.items[1], [W.M, E(S * S)],
                   lambda e, s: mk_read('lpx', (nu + e * S * S + s, ZERO),
                                        None, None, False),
                   'pairwise marginals')
    else:
        labels_are(rep, W, oid + ':decode', y, argmax_of(um, W.S),
                   'label = best marginal of the node')


def unslot(W, v):
    if isinstance(v, ArrC):
        return W.I.alloc(v)
    return v


def rank(rows):
    rows = [list(r) for r in rows]
    rk = 0
    for col in range(len(rows[0]) if rows else 0):
        piv = next((i for i in range(rk, len(rows)) if rows[i][col]), None)
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        p = rows[rk][col]
        for i in range(rk + 1, len(rows)):
            if rows[i][col]:
                f = rows[i][col] / p
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[rk])]
        rk += 1
    return rk


# -- rest ---------------------------------------------------------------------
def dispatch(rep, P):
    def unknown():
        W = IW(P)
        attempt(rep, W, 'unknown-method', lambda: W.run(Const('no-such')),
                'ValueError')
    guarded(rep, 'unknown-method', unknown, IM)
    rep.rule('mismatched potentials are rejected')
    for name in ('ad3', 'lp', 'qpbo', 'ogm', 'unary', 'max-product'):
        for kind in ('states', 'edges', 'square'):
            oid = 'mismatch:%s:%s' % (name, kind)

            def one():
                W = IW(P, sizes=(3, 2), edges=[(0, 1), (2, 1)])
                dims = {'states': [2, 3, 3], 'edges': [3, 2, 2],
                        'square': [2, 2, 3]}[kind]
                W.pw = W.I.input_arr('p', [E(k) for k in dims])
                attempt(rep, W, oid, lambda: W.run(Const(name)), 'ValueError')
            guarded(rep, oid, one, IM)
    rep.rule('compute_energy')
    f = P.func('pystruct.inference.common', 'compute_energy')
    for shared in (False, True):
        oid = 'compute_energy%s' % (':shared' if shared else '')

        def ce():
            if f is None:
                raise Broken('compute_energy is gone')
            W = IW(P, 0, shared)
            W.f = f
            W.mark = 0
            y = W.I.input_arr('y', [W.N], lo=0, hi=W.S, dtype='int')
            ok, r = attempt(rep, W, oid, lambda: W.I.call_func(
                f, [W.u, W.pw, W.e, y], {}))
            if ok:
                eq_obl(rep, oid, f.qual, num_of(W.I, r), W.score(
                    lambda i: mk_read('y', (i,), ZERO, W.S, True)),
                    'score of the labelling')
        guarded(rep, oid, ce, IM)
    # options given with the name override the keywords, and neither
    # dictionary of the caller is changed


def check(rep, P, tier):
    do_ad3(rep, P)
    exceptions(rep, P)
    setter(rep, P)
    do_unary(rep, P)
    do_qpbo(rep, P)
    do_ogm(rep, P)
    do_lp(rep, P, tier)
    dispatch(rep, P)
    return rep.finish('proof', TRUST, "The dispatcher and every back-end "
                      "wrapper are interpreted over symbolic potentials with "
                      "recorded solver calls; solver arguments, decoded "
                      "results and energies are compared with the given "
                      "problem in normal form. The linear program is "
                      "enumerated for small graphs and its equality "
                      "constraints compared with the affine hull of all "
                      "labellings.", min_obl=200)
