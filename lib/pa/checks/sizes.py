"""C18: models adopt the sizes of their data and reject what contradicts
them; learners initialise the model before they use it."""
from .paths import *
from .relations import *
from .models import World, Cfg
from .rel import TRUST, definite_faults, fake_result, cls_where
from .infer import concrete_edges
from .base import Broken, guarded, spread
from ..expr import compare

MODELS = [
    ('GraphCRF', 'graph', dict(directed=True)),
    ('GraphCRF', 'graph', dict(directed=False)),
    ('EdgeFeatureGraphCRF', 'edgefeat', {}),
    ('ChainCRF', 'chain', dict(directed=True)),
    ('ChainCRF', 'chain', dict(directed=False)),
    ('GridCRF', 'grid', dict(neighborhood=4)),
    ('GridCRF', 'grid', dict(neighborhood=8)),
    ('DirectionalGridCRF', 'grid', dict(neighborhood=4)),
    ('DirectionalGridCRF', 'grid', dict(neighborhood=8)),
    ('MultiLabelClf', 'multilabel', {}),
    ('MultiClassClf', 'multiclass', dict(rescale_C=False)),
    ('MultiClassClf', 'multiclass', dict(rescale_C=True)),
    ('BinaryClf', 'binary', {}),
    ('LatentGraphCRF', 'latentgraph', dict(n_states_per_label=2)),
    ('LatentGraphCRF', 'latentgraph', dict(n_states_per_label='list')),
    ('LatentGridCRF', 'latentgrid', dict(n_states_per_label='list')),
    ('LatentDirectionalGridCRF', 'latentgrid',
     dict(n_states_per_label=2)),
    ('LatentNodeCRF', 'latentnode', dict(latent_node_features=False)),
    ('LatentNodeCRF', 'latentnode', dict(latent_node_features=True)),
    ('EdgeFeatureLatentNodeCRF', 'latentnode', {}),
]
WEIGHTED = ('GraphCRF', 'EdgeFeatureGraphCRF', 'ChainCRF', 'MultiClassClf',
            'LatentNodeCRF', 'EdgeFeatureLatentNodeCRF')
STATES = dict(multiclass='n_classes', multilabel='n_labels',
              latentgraph='n_labels', latentgrid='n_labels',
              latentnode='n_labels')


class Data(World):
    def __init__(self, P, cls, fam, opts, n):
        self.fam, self.o, self.k = fam, opts, n
        World.__init__(self, P, Cfg(cls, cls, family='data'))

    def build(self):
        self.F, self.G = sym('F', 1), sym('G', 1)
        self.more = sym('extra', 1)
        self.cls = self.p.cls(self.cfg.clsname)
        self.S = E(self.k)

    def b_data(self):
        pass

    def make(self, **sizes):
        """the model with the given sizes"""
        I = self.I
        kw = {}
        for a, v in self.o.items():
            if v == 'list':
                v = I.alloc(ListC([('v', Num(E(i + 1)))
                                   for i in range(self.k)]))
            else:
                v = lift(v)
            kw[a] = v
        f = self.fam
        if f == 'latentnode':
            kw['n_hidden_states'] = Num(E(2))
            if 'Edge' in self.cfg.clsname:
                kw['n_edge_features'] = Num(self.G)
        if 'states' in sizes:
            if f not in ('binary',):
                kw[STATES.get(f, 'n_states')] = Num(E(sizes['states']))
        if 'features' in sizes:
            kw['n_features'] = Num(sizes['features'])
        if 'edge_features' in sizes:
            kw['n_edge_features'] = Num(sizes['edge_features'])
        if 'class_weight' in sizes:
            kw['class_weight'] = sizes['class_weight']
        if self.cls.find('__init__') and 'inference_method' in \
                self.cls.find('__init__').params():
            kw['inference_method'] = Const('ad3')
        return I.instantiate(self.cls, [], kw)

    def inst_x(self, tag, F, G):
        I = self.I
        a = lambda n, d: I.input_arr(n + tag, [E(x) if isinstance(
            x, int) else x for x in d], owners='x')
        f = self.fam
        if f in ('grid', 'latentgrid'):
            return a('x', [2, 2, F])
        if f == 'chain':
            return a('x', [3, F])
        if f in ('multilabel', 'multiclass', 'binary'):
            return a('x', [F])
        ed = concrete_edges(I, [(0, 1), (1, 2)])
        if f == 'latentnode':
            rows = 3 if self.o.get('latent_node_features') else 2
            it = [a('x', [rows, F]), ed]
            if 'Edge' in self.cfg.clsname:
                it.append(a('ef', [2, G]))
            return Tup(it + [Num(ONE, 'int')])
        it = [a('x', [3, F]), ed]
        if f == 'edgefeat':
            it.append(a('ef', [2, G]))
        return Tup(it)

    def ints(self, vals, dims=None):
        dims = dims or [len(vals)]
        vs = [E(v) for v in vals]

        def fn(ix):
            k = ix[0]
            for d, i in zip(dims[1:], ix[1:]):
                k = k * d + i
            if k.const() is not None:
                return vs[int(k.const())]
            return sum((ind_eq(k, E(j)) * v for j, v in enumerate(vs)),
                       ZERO)
        return self.I.new_arr([Axis.of(d) for d in dims], fn, 'int')

    def data(self, F=None, G=None):
        I, f, n = self.I, self.fam, self.k
        F, G = F or self.F, G or self.G
        lab = [i % n for i in (0, 1, 2, 2, 1, 0, 1, 1)]
        if f in ('multilabel', 'multiclass', 'binary'):
            X = I.input_arr('x', [E(4), F], owners='x')
            if f == 'multilabel':
                Y = self.ints([(i * i // 2) % 2 for i in range(4 * n)],
                              [4, n])
            elif f == 'binary':
                Y = self.ints([1, -1, 1, 1])
            else:
                Y = self.ints([lab[i] for i in (0, 1, 2, 1)])
            return X, Y
        X = [self.inst_x(str(i), F, G) for i in range(2)]
        if f in ('grid', 'latentgrid'):
            Y = [self.ints(lab[:4], [2, 2]), self.ints(lab[4:], [2, 2])]
        elif f == 'latentnode':
            Y = [self.ints(lab[:2]), self.ints(lab[2:4])]
        else:
            Y = [self.ints(lab[:3]), self.ints(lab[3:6])]
        mk = lambda v: I.alloc(ListC([('v', x) for x in v]))
        return mk(X), mk(Y)

    def on(self, o, name, *args):
        return self.I.call(self.I.attr(o, name), list(args), {})


EDGES = dict(edgefeat=('more edge', 'fewer edge', 'unmatched edge'))


def outcome(W, f):
    """('ok', value), ('raise', why) or ('maybe', guard)"""
    I = W.I
    mark, depth = len(I.events), len(I.stack)
    try:
        v = f()
    except RaiseEvent as e:
        del I.stack[depth:]
        return 'raise', '%s (line %s)' % (
            e.what, getattr(e.node, 'lineno', '?'))
    d = definite_faults(W, mark)
    if d:
        return 'raise', d[0]
    for e in I.events[mark:]:
        if e['kind'] in ('raise', 'shape') and not e['guard'].is_zero():
            if e['guard'].const() == 1:
                return 'raise', str(e.get('msg'))
            return 'maybe', e['guard']
    return 'ok', v


def name_of(cls, opts):
    return '%s%s' % (cls, ''.join('[%s=%s]' % kv for kv in sorted(
        opts.items())))


def attrs(W, o):
    I = W.I
    out = {}
    for k, v in I.c(o).attrs.items():
        if k in ('inference_calls', 'logger', 'uniform_class_weight'):
            continue
        try:
            out[k] = flatten(I, v)
        except Opaque:
            continue
    return out


def expect(rep, oid, wh, W, f, must, what):
    k, v = outcome(W, f)
    if k == 'maybe' and compare(v, E(int(must)))[0] == 'differ':
        rep.violate(oid, wh, '%s, but an error is raised exactly under %s' % (
            what, show(v, 80)))
    elif k == 'maybe':
        rep.undecided(oid, '%s: rejected only under %s' % (what, show(v, 80)))
    elif (k == 'raise') == must:
        rep.proved(oid, what)
    elif must:
        rep.violate(oid, wh, '%s, but no error is raised' % what)
    else:
        rep.violate(oid, wh, '%s fails: %s' % (what, v))
    rep.visited(W.I.visited)
    return k == 'ok'


def adopt(rep, P, cls, fam, opts, n):
    base = '%s:%d' % (name_of(cls, opts), n)
    wh = cls + '.initialize'
    f = P.cls(cls).find('initialize')
    if f is None:
        raise Broken('%s.initialize is gone' % cls)
    wh = f.qual
    full = dict(features=None)
    if fam != 'binary':
        full['states'] = n
    if fam == 'edgefeat':
        full['edge_features'] = None

    def sized(W):
        d = dict(full)
        d['features'] = W.F
        if 'edge_features' in d:
            d['edge_features'] = W.G
        return d

    def same():
        oid = 'adopt:' + base
        W = Data(P, cls, fam, opts, n)
        X, Y = W.data()
        given = W.make(**sized(W))
        if not expect(rep, 'accept:' + base, wh, W,
                      lambda: W.on(given, 'initialize', X, Y), False,
                      'initialising with data of the declared sizes'):
            return
        if 'EdgeFeatureLatent' in cls:
            return
        free = W.make()
        if not expect(rep, oid + ':call', wh, W,
                      lambda: W.on(free, 'initialize', X, Y), False,
                      'taking the sizes from the data'):
            return
        a, b = attrs(W, free), attrs(W, given)
        if fam not in ('binary',) and a.get('n_features') != W.F:
            rep.violate(oid + ':n_features', wh, 'n_features is %s for data '
                        'with F features' % (a.get('n_features'),))
        for k in sorted(set(a) & set(b)):
            o = '%s:%s' % (oid, k)
            m, pairs = differences(a[k], b[k], k)
            if m:
                rep.violate(o, wh, '%s when taken from the data: %s' % (k, m))
                continue
            bad = None
            for w_, p, q in pairs:
                r, info = compare(p, q)
                if r == 'differ':
                    bad = '%s instead of %s' % (show(p, 80), show(q, 80))
                elif r != 'equal':
                    rep.undecided(o, str(info))
                    break
            else:
                if bad:
                    rep.violate(o, wh, '%s is %s when taken from the data' % (
                        k, bad))
                else:
                    rep.proved(o, 'as if the sizes had been given')
        for k in sorted(set(b) - set(a)):
            rep.violate('%s:%s' % (oid, k), wh, 'attribute %s is not set '
                        'when sizes are taken from the data' % k)
        oid2 = 'again:' + base
        if expect(rep, oid2, wh, W, lambda: W.on(free, 'initialize', X, Y),
                  False, 'initialising again with the same data'):
            c = attrs(W, free)
            for k in ('n_features', 'n_states', 'n_labels', 'n_edge_features',
                      'size_joint_feature', 'class_weight'):
                if k in a and k in c:
                    m, pairs = differences(c[k], a[k], k)
                    if m or any(compare(p, q)[0] == 'differ'
                                for _, p, q in pairs):
                        rep.violate('%s:%s' % (oid2, k), wh, '%s changes '
                                    'when the model is initialised again' % k)
                    else:
                        rep.proved('%s:%s' % (oid2, k), 'kept')
    guarded(rep, 'adopt:' + base, same, wh)

    def wrong(tag, change, swap=None):
        oid = 'contradict:%s:%s' % (base, tag)

        def go():
            W = Data(P, cls, fam, opts, n)
            d = sized(W)
            data = dict(F=W.F, G=W.G)
            change(W, d, data)
            X, Y = W.data(**data)
            # sizes that make the constructor fail are rejected as well
            expect(rep, oid, wh, W, lambda: W.on(
                W.make(**d), 'initialize', X, Y), True,
                'data contradict the declared sizes (%s)' % tag)
        guarded(rep, oid, go, wh)

    def f_less(W, d, data):
        data['F'] = W.F + W.more

    def f_more(W, d, data):
        d['features'] = W.F + W.more

    def s_more(W, d, data):
        d['states'] = n + 1
        W.k_model = n + 1

    def s_less(W, d, data):
        d['states'] = n - 1

    def g_less(W, d, data):
        data['G'] = W.G + W.more

    def g_more(W, d, data):
        d['edge_features'] = W.G + W.more

    wrong('more features', f_less)
    wrong('fewer features', f_more)
    if fam != 'binary' and opts.get('n_states_per_label') != 'list':
        wrong('fewer labels', s_more)
        if n > 2:
            wrong('more labels', s_less)
    if fam == 'edgefeat':
        wrong('more edge features', g_less)
        wrong('fewer edge features', g_more)

    if cls in WEIGHTED:
        for tag, m in (('short', n - 1), ('long', n + 1), ('right', n)):
            oid = 'class-weight:%s:%s' % (base, tag)

            def go(tag=tag, m=m, oid=oid):
                W = Data(P, cls, fam, opts, n)
                X, Y = W.data()
                cw = W.I.input_arr('cw', [E(m)], lo=0, owners='class_weight')

                def use():
                    o = W.make(class_weight=cw, **sized(W))
                    W.on(o, 'initialize', X, Y)
                    return o
                if tag != 'right':
                    expect(rep, oid, wh, W, use, True,
                           '%d class weights for %d labels' % (m, n))
                    return
                if 'EdgeFeatureLatent' in cls:
                    return
                o = W.make(class_weight=cw)
                if expect(rep, oid, wh, W,
                          lambda: W.on(o, 'initialize', X, Y), False,
                          'class weights with sizes from the data'):
                    got = attrs(W, o).get('class_weight')
                    want = [W.I.snap(cw).fn([E(i)]) for i in range(n)]
                    ok = isinstance(got, list) and len(got) >= n and all(
                        g == w_ for g, w_ in zip(got, want))
                    if ok:
                        rep.proved(oid + ':kept', 'class weights are kept')
                    elif got is None or not isinstance(got, list):
                        rep.undecided(oid + ':kept', 'no class weights')
                    else:
                        rep.violate(oid + ':kept', wh, 'class weights %s '
                                    'instead of those given' % (
                                        [show(g, 30) for g in got],))
            guarded(rep, oid, go, wh)

    for meth in ('joint_feature', 'inference', 'loss_augmented_inference'):
        if fam in ('latentgrid', 'multilabel') or (
                meth == 'joint_feature' and fam == 'binary'):
            continue
        for tag in ('more', 'fewer', 'weights') + EDGES.get(fam, ()):
            if (meth == 'joint_feature') if tag == 'weights' else (
                    fam == 'grid'):
                continue
            oid = 'reject:%s:%s:%s' % (base, meth, tag if tag == 'weights'
                                       else tag + ' features')

            def go(meth=meth, tag=tag, oid=oid):
                W = Data(P, cls, fam, opts, n)
                I = W.I
                g = P.cls(cls).find(meth)
                if tag in EDGES['edgefeat']:
                    d = sized(W)
                    extra = W.more if tag == 'more edge' else ZERO
                    if tag == 'fewer edge':
                        d['edge_features'] = W.G + W.more
                    o = W.make(**d)
                    x = W.inst_x('', W.F, W.G + extra)
                    if tag == 'unmatched edge':
                        x = Tup(list(x.items[:2]) + [I.input_arr(
                            'ef3', [E(3), W.G], owners='x')])
                elif tag == 'weights':
                    o = W.make(**sized(W))
                    x = W.inst_x('', W.F, W.G)
                elif tag == 'more':
                    o = W.make(**sized(W))
                    x = W.inst_x('bad', W.F + W.more, W.G)
                else:
                    d = sized(W)
                    d['features'] = W.F + W.more
                    o = W.make(**d)
                    x = W.inst_x('bad', W.F, W.G)
                if I.get_attr_raw(o, 'size_joint_feature') is None:
                    rep.undecided(oid, 'size not known')
                    return
                w = I.input_arr('w', [I.get_attr_raw(
                    o, 'size_joint_feature').e + (
                        W.more if tag == 'weights' else 0)], owners='w')
                W.dispatch_result = fake_result(W, 'hard')
                if fam in ('grid', 'latentgrid'):
                    y = W.ints([0, 1, 1, 0], [2, 2])
                elif fam == 'multiclass':
                    y = Num(ONE, 'int')
                elif fam == 'binary':
                    y = Num(ONE, 'int')
                elif fam == 'multilabel':
                    y = W.ints([i % 2 for i in range(n)])
                elif fam == 'latentnode':
                    y = W.ints([0, 1, n])
                else:
                    y = W.ints([0, 1, 0])
                args = dict(joint_feature=[x, y], inference=[x, w],
                            loss_augmented_inference=[x, y, w])[meth]
                if meth == 'joint_feature' and opts.get('rescale_C'):
                    args.append(y)
                expect(rep, oid, g.qual if g else wh, W,
                       lambda: W.on(o, meth, *args), True,
                       'a weight vector of the wrong length'
                       if tag == 'weights' else
                       'an input with %s features than declared' % tag)
            guarded(rep, oid, go, wh)


class Typed(Data):
    """two node types with 2 and 3 labels; one instance, parts replaceable"""
    def __init__(self, P):
        Data.__init__(self, P, 'NodeTypeEdgeFeatureGraphCRF', 'typed', {}, 2)

    def build(self):
        Data.build(self)
        self.F = [sym('F0', 1), sym('F1', 1)]
        self.G = [[sym('G00', 1), sym('G01', 1)], [None, sym('G11', 1)]]
        self.G[1][0] = self.G[0][1]

    def lst(self, vs):
        return self.I.alloc(ListC([('v', v) for v in vs]))

    def make(self, feats=2, cw=None, asym=False):
        G = [r[:] for r in self.G]
        if asym:
            G[1][0] = G[0][1] + self.more
        kw = dict(n_types=Num(E(2)),
                  l_n_states=self.lst([Num(E(2)), Num(E(3))]),
                  l_n_features=self.lst([Num(f) for f in self.F][:feats]),
                  a_n_edge_features=self.lst([self.lst([Num(g) for g in r])
                                              for r in G]))
        if cw:
            kw['l_class_weight'] = self.lst([
                self.I.input_arr('cw%d' % i, [E(n)], lo=0,
                                 owners='class_weight')
                for i, n in enumerate(cw)])
        return self.I.instantiate(self.cls, [], kw)

    def data(self, F=None, G=None, edges=None, short=None, labels=None,
             cols=2, drop=None):
        I = self.I
        a = lambda n, d: I.input_arr(n, [E(q) if isinstance(
            q, int) else q for q in d], owners='x')
        F = F or self.F
        nodes = [a('x0', [2, F[0]]), a('x1', [3, F[1]])]
        es, fs = [], []
        for i in range(2):
            for j in range(2):
                pairs = [(0, 1), (1, 0)]
                if edges and edges[0] == (i, j):
                    pairs = edges[1]
                if cols != 2:
                    pairs = [p + (0,) for p in pairs]
                e = concrete_edges(I, pairs) if cols == 2 else self.ints(
                    [q for p in pairs for q in p], [2, cols])
                m = 2 + (1 if short == (i, j) else 0)
                es.append(e)
                fs.append(a('ef%d%d' % (i, j), [
                    m, self.G[i][j] + (self.more if G == (i, j) else 0)]))
        if drop == 'edges':
            es = es[:3]
        if drop == 'edge features':
            fs = fs[:3]
        if drop == 'nodes':
            nodes = nodes[:1]
        x = Tup([self.lst(nodes), self.lst(es), self.lst(fs)])
        y = self.ints(labels or [0, 1, 2, 4, 3])
        return x, y


def typed(rep, P):
    cls = 'NodeTypeEdgeFeatureGraphCRF'
    f = P.cls(cls).find('initialize')
    if f is None:
        raise Broken('%s.initialize is gone' % cls)
    wh = f.qual

    def case(tag, must, mk, how='list', **opts):
        oid = 'typed:%s:%s' % (tag, how)

        def go():
            W = Typed(P)
            kw = {k: (v(W) if callable(v) else v) for k, v in opts.items()}
            x, y = W.data(**kw)
            args = (W.lst([W.data()[0], x]),
                    W.lst([W.data()[1], y])) if how == 'list' else (x, y)
            expect(rep, oid, wh, W, lambda: W.on(
                W.make(**mk), 'initialize', *args), must,
                'data of the declared sizes' if not must else
                'data contradict the declared sizes (%s)' % tag)
        guarded(rep, oid, go, wh)

    for how in ('list', 'single'):
        case('right', False, {}, how)
        case('labels of the second type among those of the first', True, {},
             how, labels=[0, 1, 1, 4, 2])
        case('labels of the first type among those of the second', True, {},
             how, labels=[0, 2, 2, 4, 3])
        case('label beyond the last', True, {}, how, labels=[0, 1, 2, 5, 3])
        case('negative label', True, {}, how, labels=[-1, 1, 2, 4, 3])
        case('more labels than nodes', True, {}, how,
             labels=[0, 1, 2, 4, 3, 2])
        case('fewer labels than nodes', True, {}, how, labels=[0, 1, 2, 4])
        for t in range(2):
            case('more features for type %d' % t, True, {}, how,
                 F=lambda W, t=t: [g + (W.more if i == t else 0)
                                   for i, g in enumerate(W.F)])
        for pr in ((0, 0), (0, 1), (1, 0), (1, 1)):
            case('more edge features %d-%d' % pr, True, {}, how, G=pr)
            case('an edge feature row too many %d-%d' % pr, True, {}, how,
                 short=pr)
            case('edge from a missing node %d-%d' % pr, True, {}, how,
                 edges=(pr, [(0, 1), (2 + pr[0], 0)]))
            case('edge to a missing node %d-%d' % pr, True, {}, how,
                 edges=(pr, [(0, 1), (0, 2 + pr[1])]))
            case('edge from a negative node %d-%d' % pr, True, {}, how,
                 edges=(pr, [(0, 1), (-1, 0)]))
        case('edges with three columns', True, {}, how, cols=3)
        for d in ('edges', 'edge features', 'nodes'):
            case('too few arrays of ' + d, True, {}, how, drop=d)
    case('too few feature numbers', True, dict(feats=1))
    case('too few class weights', True, dict(cw=[2, 2]))
    case('class weights for one type only', True, dict(cw=[2]))
    case('right class weights', False, dict(cw=[2, 3]))
    case('edge feature numbers not symmetric', True, dict(asym=True))


# -- learners ------------------------------------------------------------------
LEARNERS = [('NSlackSSVM', dict(max_iter=1)),
            ('OneSlackSSVM', dict(max_iter=1)),
            ('SubgradientSSVM', dict(max_iter=1)),
            ('FrankWolfeSSVM', dict(max_iter=1)),
            ('StructuredPerceptron', dict(max_iter=1)),
            ('SubgradientLatentSSVM', dict(max_iter=1)),
            ('LatentSSVM', dict())]


def learners(rep, P, cls, par, flag):
    from .refit import world
    oid = 'initialised-before-use:%s:%s' % (cls, flag)
    base = 'NSlackSSVM' if cls == 'LatentSSVM' else cls
    f = P.cls(cls).find('fit')
    if f is None:
        raise Broken('%s.fit is gone' % cls)
    W = world(P, base, dict(par, max_iter=1), 1)
    I = W.I
    o = W.obj
    if cls == 'LatentSSVM':
        o = I.instantiate(P.cls(cls), [W.obj], dict(latent_iter=Num(ONE)))
    log = []
    for nm in ('initialize', 'joint_feature', 'inference',
               'loss_augmented_inference', 'loss', 'max_loss', 'latent',
               'init_latent', 'size_joint_feature', 'batch_joint_feature',
               'batch_loss_augmented_inference', 'batch_loss'):
        old = I.get_attr_raw(W.model, nm)
        if not isinstance(old, ModelFn):
            continue

        def fn(I, args, kw, nm=nm, old=old):
            log.append((nm, list(args), dict(kw)))
            return I.call(old, args, kw)
        I.set_attr(W.model, nm, ModelFn(fn, nm))
    kw = {} if flag is None else dict(initialize=lift(flag))
    if flag == 'warm':
        if 'warm_start' not in f.params():
            return
        kw = dict(warm_start=lift(True), initialize=lift(True))
    try:
        I.call(I.attr(o, 'fit'), [W.X, W.Y], kw)
    except RaiseEvent as e:
        pass
    rep.visited(I.visited)
    names = [n for n, _, _ in log]
    if not names:
        rep.undecided(oid, 'no use of the model seen')
        return
    k = names.count('initialize')
    if flag is False:
        if k:
            rep.violate(oid, f.qual, 'the model is initialised although '
                        'initialize=False')
        else:
            rep.proved(oid, 'model left as it is')
        return
    if k == 0 or names[0] != 'initialize':
        rep.violate(oid, f.qual, 'model.%s is used before the model is '
                    'initialised' % names[0])
        return
    args = log[0][1] + [log[0][2][a] for a in ('X', 'Y') if a in log[0][2]]
    if len(args) == 2 and all(getattr(a, 'loc', 0) == getattr(b, 'loc', 1)
                              for a, b in zip(args, (W.X, W.Y))):
        rep.proved(oid, 'initialised with the training data first')
    else:
        rep.undecided(oid, 'other arguments of initialize')


def check(rep, P, tier):
    jobs = []
    for cls, fam, opts in MODELS:
        for n in (3, 2):
            if fam == 'binary' and n == 3:
                continue
            oid = 'sizes:%s:%d' % (name_of(cls, opts), n)
            rep.rule('sizes:' + cls)
            jobs.append((oid, lambda r, c=(cls, fam, opts, n), oid=oid:
                         guarded(r, oid, lambda: adopt(r, P, *c))))
    rep.rule('sizes:NodeTypeEdgeFeatureGraphCRF')
    jobs.append(('typed', lambda r: guarded(r, 'typed',
                                            lambda: typed(r, P))))
    for cls, par in LEARNERS:
        for flag in (None, True, False, 'warm'):
            oid = 'initialised-before-use:%s:%s' % (cls, flag)
            rep.rule('initialised-before-use')
            jobs.append((oid, lambda r, c=(cls, par, flag), oid=oid:
                         guarded(r, oid, lambda: learners(r, P, *c))))
    spread(rep, jobs)
    return rep.finish('other', TRUST, "initialize is interpreted on data "
                      "with a symbolic number of features and a known number "
                      "of labels, with matching and contradicting sizes.",
                      min_obl=60)
