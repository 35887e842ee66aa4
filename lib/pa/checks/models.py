"""Catalogue of model configurations: symbolic model objects, inputs and
labellings over which the model properties are decided.

Every size (nodes, edges, states, features, rows, columns, batch) is a symbol;
a configuration fixes only the finite switches of a constructor (directed or
not, neighbourhood, number of node types, ...)."""
from ..vals import *
from ..expr import *
from ..interp import Interp, RaiseEvent, Abort


def lift(v):
    if isinstance(v, bool):
        return Num(ONE if v else ZERO, 'bool')
    if isinstance(v, (int, float)):
        return Num(E(v), 'int' if isinstance(v, int) else 'float')
    return Const(v)


class Cfg(object):
    relaxed_ok = True
    loss_kind = 'dispatch'
    batch = True

    def __init__(self, name, cls, **kw):
        self.name = name
        self.clsname = cls
        self.opts = kw

    def opt(self, k, d=None):
        return self.opts.get(k, d)


class World(object):
    """one analysis run of a configuration"""

    def __init__(self, project, cfg, extra_hooks=None, simplex=False):
        self.p = project
        self.cfg = cfg
        self.simplex = simplex
        self.rec = []
        hooks = {'inference_dispatch': self._dispatch}
        hooks.update(extra_hooks or {})
        PARTS.clear()
        self.I = Interp(project, hooks)
        self.dispatch_result = None
        self.obj = None
        self.build()

    def _dispatch(self, I, info, args, kw):
        d = I.bind(info, args, kw)
        kwc = d.pop('kwargs', None)
        if kwc is not None and I.is_dict(kwc):
            for k, v in I.c(kwc).items.items():
                d[k[1]] = v
        d['#heap'] = I.heap
        self.rec.append(d)
        if self.dispatch_result is not None:
            return self.dispatch_result(I, d)
        return Unk('inference result')

    # -- sizes --------------------------------------------------------------
    def build(self):
        I, c = self.I, self.cfg
        self.S = sym('S', 2)
        if self.simplex:
            self.S = sym('S1', 1) + 1
            Axis([(sym('S1', 1),), (ONE,)])
        self.F = sym('F', 1)
        self.cls = self.p.cls(c.clsname)
        getattr(self, 'b_' + c.opt('family'))()

    def inst(self, **kw):
        args = {}
        for k, v in kw.items():
            args[k] = v
        for k, v in (self.cfg.opt('args') or {}).items():
            args[k] = lift(v)
        self.obj = self.I.instantiate(self.cls, [], args)
        s = self.I.get_attr_raw(self.obj, 'size_joint_feature')
        self.D = s.e if isinstance(s, Num) else None

    def class_weight(self, n):
        if not self.cfg.opt('cw'):
            return NONE
        return self.I.input_arr('cw', [n], lo=0, owners='class_weight')

    def b_graph(self):
        kw = dict(n_states=Num(self.S), n_features=Num(self.F),
                  class_weight=self.class_weight(self.S))
        self.inst(**kw)

    def b_edgefeat(self):
        self.G = sym('G', 1)
        self.inst(n_states=Num(self.S), n_features=Num(self.F),
                  n_edge_features=Num(self.G),
                  class_weight=self.class_weight(self.S))

    def b_grid(self):
        self.inst(n_states=Num(self.S), n_features=Num(self.F))

    def b_multilabel(self):
        self.L = sym('L', 2)
        if self.cfg.opt('edges'):
            self.M = sym('M', 1)
            ed = self.I.input_arr('ledges', [self.M, E(2)], lo=0,
                                  hi=self.L, dtype='int', owners='edges')
        else:
            self.M = ZERO
            ed = NONE
        self.S = E(2)
        self.inst(n_labels=Num(self.L), n_features=Num(self.F), edges=ed)

    def b_multiclass(self):
        self.inst(n_classes=Num(self.S), n_features=Num(self.F),
                  class_weight=self.class_weight(self.S))

    def b_binary(self):
        self.inst(n_features=Num(self.F))

    def b_latentgraph(self):
        spl = self.cfg.opt('spl')
        L = self.cfg.opt('L')
        if spl == 'list':
            self.per = [sym('K%d' % i, 1) for i in range(L)]
            v = self.I.alloc(ListC([('v', Num(k)) for k in self.per]))
        else:
            K = sym('K', 1)
            self.per = [K] * L
            v = Num(K)
        self.L = E(L)
        s = ZERO
        self.starts = []
        for k in self.per:
            self.starts.append(s)
            s = s + k
        self.S = s
        self.inst(n_labels=Num(E(L)), n_features=Num(self.F),
                  n_states_per_label=v)

    def b_latentnode(self):
        self.L = sym('L', 2)
        self.Hs = sym('H', 1)
        self.S = self.L + self.Hs
        Axis([(self.L,), (self.Hs,)])       # states: visible, then hidden
        kw = dict(n_labels=Num(self.L), n_hidden_states=Num(self.Hs),
                  n_features=Num(self.F),
                  class_weight=self.class_weight(self.L))
        if self.cfg.clsname == 'EdgeFeatureLatentNodeCRF':
            self.G = sym('G', 1)
            kw['n_edge_features'] = Num(self.G)
        self.inst(**kw)

    def b_typed(self):
        T = self.cfg.opt('T')
        self.T = T
        self.Ss = [sym('S%d' % t, 2) for t in range(T)]
        if self.simplex:
            self.Ss = []
            for t in range(T):
                s1 = sym('S1%d' % t, 1)
                self.Ss.append(s1 + 1)
                Axis([(s1,), (ONE,)])
        self.Fs = [sym('F%d' % t, 1) for t in range(T)]
        self.Gs = {}
        rows = []
        I = self.I
        zero = self.cfg.opt('zero_pairs', ())
        for a in range(T):
            row = []
            for b in range(T):
                k = (min(a, b), max(a, b))
                g = ZERO if k in zero else sym('G%d%d' % k, 1)
                self.Gs[(a, b)] = g
                row.append(('v', Num(g)))
            rows.append(('v', I.alloc(ListC(row))))
        cw = NONE
        if self.cfg.opt('cw'):
            cw = I.alloc(ListC([('v', I.input_arr('cw%d' % t, [self.Ss[t]], lo=0,
                                                  owners='class_weight'))
                                for t in range(T)]))
        self.starts = []
        s = ZERO
        for k in self.Ss:
            self.starts.append(s)
            s = s + k
        self.S = s
        self.inst(n_types=Num(E(T)),
                  l_n_states=I.alloc(ListC([('v', Num(x))
                                            for x in self.Ss])),
                  l_n_features=I.alloc(ListC([('v', Num(x))
                                              for x in self.Fs])),
                  a_n_edge_features=I.alloc(ListC(rows)),
                  l_class_weight=cw)

    # -- inputs ---------------------------------------------------------------
    def make_w(self):
        return self.I.input_arr('w', [self.D], owners='w')

    def make_x(self, tag='', owner='x', xdtype='float'):
        I, fam = self.I, self.cfg.opt('family')
        t = tag
        a = lambda n, d, **k: I.input_arr(n + t, d, owners=owner, **k)
        if self.cfg.opt('layout') == 'grid':
            self.R = sym('R' + t, 2)
            self.Co = sym('Co' + t, 2)
            self.N = self.R * self.Co
            return a('x', [self.R, self.Co, self.F])
        if self.cfg.opt('layout') == 'chain':
            self.N = sym('N' + t, 2)
            return a('x', [self.N, self.F])
        if fam in ('multilabel', 'multiclass', 'binary'):
            self.N = E(1)
            return a('x', [self.F])
        self.N = sym('N' + t, 1)
        if fam == 'typed':
            self.Ns = [sym('N%d%s' % (i, t), 1) for i in range(self.T)]
            nodes = [('v', a('x%d' % i, [self.Ns[i], self.Fs[i]]))
                     for i in range(self.T)]
            edges, ef = [], []
            self.Ms = {}
            for i in range(self.T):
                for j in range(self.T):
                    m = sym('M%d%d%s' % (i, j, t), 1)
                    if self.Gs[(i, j)] == ZERO:
                        m = ZERO
                    self.Ms[(i, j)] = m
                    nm = 'e%d%d%s' % (i, j, t)
                    his = [self.Ns[i], self.Ns[j]]
                    if m == ZERO:
                        edges.append(('v', NONE))
                        ef.append(('v', NONE))
                        continue
                    edges.append(('v', self.edge_arr(nm, m, his, owner)))
                    ef.append(('v', a('ef%d%d' % (i, j),
                                      [m, self.Gs[(i, j)]])))
            off = ZERO
            self.offs = []
            for n in self.Ns:
                self.offs.append(off)
                off = off + n
            self.N = off
            return Tup([I.alloc(ListC(nodes, frozenset([owner]))),
                        I.alloc(ListC(edges, frozenset([owner]))),
                        I.alloc(ListC(ef, frozenset([owner])))])
        self.M = sym('M' + t, 1)
        if fam == 'latentnode':
            self.V = sym('V' + t, 1)
            self.Hn = sym('Hn' + t, 1)
            self.N = self.V + self.Hn
            fs = self.N if (self.cfg.opt('args') or {}).get(
                'latent_node_features') else self.V
            items = [a('x', [fs, self.F]),
                     a('e', [self.M, E(2)], lo=0, hi=self.N,
                       dtype='int')]
            if self.cfg.clsname == 'EdgeFeatureLatentNodeCRF':
                items.append(a('ef', [self.M, self.G]))
            items.append(Num(self.Hn))
            return Tup(items)
        items = [a('x', [self.N, self.F]),
                 a('e', [self.M, E(2)], lo=0, hi=self.N, dtype='int')]
        if fam == 'edgefeat':
            items.append(a('ef', [self.M, self.G]))
        return Tup(items)

    def edge_arr(self, name, m, his, owner):
        def fn(idx):
            c = idx[1]
            p0 = atom(('read', name + 'a', (idx[0],), ZERO, his[0], True))
            p1 = atom(('read', name + 'b', (idx[0],), ZERO, his[1], True))
            if c.const() is not None:
                return p0 if c.const() == 0 else p1
            z = ind_eq(c, 0)
            return z * p0 + (ONE - z) * p1
        return self.I.new_arr([Axis.of(m), Axis.of(E(2))], fn, 'int',
                              frozenset([owner]))

    def seg_labels(self, name, parts, owner):
        """label array made of consecutive segments (count, lo, hi)"""
        segs = [(n,) for n, _, _ in parts]

        def fn(idx):
            i = idx[0]
            out = ZERO
            off = ZERO
            for k, (n, lo, hi) in enumerate(parts):
                g = ONE
                if k > 0:
                    g = g * ind_ge0(i - off)
                if k + 1 < len(parts):
                    g = g * ind_ge0(off + n - 1 - i)
                out = out + g * (lo + mk_read(
                    '%s_%d' % (name, k), (i - off,), ZERO, hi - lo, True))
                off = off + n
            return out
        return self.I.new_arr([Axis(segs)], fn, 'int', frozenset([owner]))

    def make_y(self, name='y', owner='y'):
        I, fam = self.I, self.cfg.opt('family')
        if self.cfg.opt('layout') == 'grid':
            return I.input_arr(name, [self.R, self.Co], lo=0, hi=self.S,
                               dtype='int', owners=owner)
        if fam == 'multilabel':
            return I.input_arr(name, [self.L], lo=0, hi=2, dtype='int',
                               owners=owner)
        if fam == 'multiclass':
            return Num(atom(('read', name, (), ZERO, self.S, True)))
        if fam == 'binary':
            b = atom(('read', name, (), ZERO, E(2), True))
            return Num(2 * b - 1)
        if fam == 'latentnode':
            return self.seg_labels(name, [(self.V, ZERO, self.L),
                                          (self.Hn, self.L, self.S)],
                                   owner)
        if fam == 'typed':
            return self.seg_labels(
                name, [(self.Ns[t], self.starts[t],
                        self.starts[t] + self.Ss[t])
                       for t in range(self.T)], owner)
        return I.input_arr(name, [self.N], lo=0, hi=self.S, dtype='int',
                           owners=owner)

    def call(self, name, *args, **kw):
        m = self.I.attr(self.obj, name)
        return self.I.call(m, list(args), kw)


GRAPHS = [
    Cfg('GraphCRF[directed]', 'GraphCRF', family='graph',
        args={'directed': True, 'inference_method': 'ad3'}, cw=True),
    Cfg('GraphCRF[undirected]', 'GraphCRF', family='graph',
        args={'directed': False, 'inference_method': 'ad3'}, cw=True),
    Cfg('ChainCRF[directed]', 'ChainCRF', family='graph', layout='chain',
        args={'directed': True, 'inference_method': 'ad3'}, cw=True),
    Cfg('ChainCRF[undirected]', 'ChainCRF', family='graph', layout='chain',
        args={'directed': False, 'inference_method': 'ad3'}),
    Cfg('EdgeFeatureGraphCRF', 'EdgeFeatureGraphCRF', family='edgefeat',
        args={'inference_method': 'ad3'}, cw=True),
    Cfg('GridCRF[4]', 'GridCRF', family='grid', layout='grid',
        args={'inference_method': 'ad3', 'neighborhood': 4}),
    Cfg('GridCRF[8]', 'GridCRF', family='grid', layout='grid',
        args={'inference_method': 'ad3', 'neighborhood': 8}),
    Cfg('DirectionalGridCRF[4]', 'DirectionalGridCRF', family='grid',
        layout='grid',
        args={'inference_method': 'ad3', 'neighborhood': 4}),
    Cfg('DirectionalGridCRF[8]', 'DirectionalGridCRF', family='grid',
        layout='grid',
        args={'inference_method': 'ad3', 'neighborhood': 8}),
]
FLAT = [
    Cfg('MultiLabelClf[edges]', 'MultiLabelClf', family='multilabel',
        edges=True, args={'inference_method': 'ad3'}),
    Cfg('MultiLabelClf[independent]', 'MultiLabelClf', family='multilabel',
        edges=False, args={'inference_method': 'ad3'}),
    Cfg('MultiClassClf[plain]', 'MultiClassClf', family='multiclass',
        args={'rescale_C': False}, cw=False),
    Cfg('MultiClassClf[class_weight]', 'MultiClassClf', family='multiclass',
        args={'rescale_C': False}, cw=True),
    Cfg('MultiClassClf[rescale_C]', 'MultiClassClf', family='multiclass',
        args={'rescale_C': True}, cw=True),
    Cfg('BinaryClf', 'BinaryClf', family='binary'),
]
LATENT = [
    Cfg('LatentGraphCRF[2 labels, list]', 'LatentGraphCRF',
        family='latentgraph', L=2, spl='list',
        args={'inference_method': 'ad3'}),
    Cfg('LatentGraphCRF[3 labels, list]', 'LatentGraphCRF',
        family='latentgraph', L=3, spl='list',
        args={'inference_method': 'ad3'}),
    Cfg('LatentGraphCRF[2 labels, int]', 'LatentGraphCRF',
        family='latentgraph', L=2, spl='int',
        args={'inference_method': 'ad3'}),
    Cfg('LatentGridCRF[2 labels, 4]', 'LatentGridCRF', layout='grid',
        family='latentgraph', L=2, spl='list',
        args={'inference_method': 'ad3', 'neighborhood': 4}),
    Cfg('LatentGridCRF[2 labels, 8]', 'LatentGridCRF', layout='grid',
        family='latentgraph', L=2, spl='list',
        args={'inference_method': 'ad3', 'neighborhood': 8}),
    Cfg('LatentDirectionalGridCRF[2 labels, 4]', 'LatentDirectionalGridCRF',
        layout='grid', family='latentgraph', L=2, spl='list',
        args={'inference_method': 'ad3', 'neighborhood': 4}),
    Cfg('LatentNodeCRF', 'LatentNodeCRF', family='latentnode', cw=True,
        args={'inference_method': 'ad3'}),
    Cfg('LatentNodeCRF[latent features]', 'LatentNodeCRF',
        family='latentnode',
        args={'inference_method': 'ad3', 'latent_node_features': True}),
    Cfg('EdgeFeatureLatentNodeCRF', 'EdgeFeatureLatentNodeCRF',
        family='latentnode', cw=True, args={'inference_method': 'ad3'}),
    Cfg('EdgeFeatureLatentNodeCRF[latent features]',
        'EdgeFeatureLatentNodeCRF', family='latentnode',
        args={'inference_method': 'ad3', 'latent_node_features': True}),
]
TYPED = [
    Cfg('NodeTypeEdgeFeatureGraphCRF[1 type]',
        'NodeTypeEdgeFeatureGraphCRF', family='typed', T=1,
        args={'inference_method': 'ad3+'}, cw=True),
    Cfg('NodeTypeEdgeFeatureGraphCRF[2 types]',
        'NodeTypeEdgeFeatureGraphCRF', family='typed', T=2,
        args={'inference_method': 'ad3+'}, cw=True),
    Cfg('NodeTypeEdgeFeatureGraphCRF[2 types, no 0-0 edges]',
        'NodeTypeEdgeFeatureGraphCRF', family='typed', T=2,
        zero_pairs=((0, 0),), args={'inference_method': 'ad3+'}),
    Cfg('NodeTypeEdgeFeatureGraphCRF[3 types]',
        'NodeTypeEdgeFeatureGraphCRF', family='typed', T=3,
        args={'inference_method': 'ad3+'}),
]
ALL = GRAPHS + FLAT + LATENT + TYPED
