"""C10: no path reads a local that is not assigned, a name or attribute that
nothing defines, or calls a function of the package with arguments it does
not take."""
import ast
import builtins

from .base import Broken
from .rel import TRUST

DATA = ('!', True)    # the path depends on what arrays contain
CAP = 400            # states per program point before facts are dropped
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


# -- scopes --------------------------------------------------------------------
def targets(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in targets(e)]
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return []


def own(node):
    """nodes of a function body, without those of nested scopes"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(
        node, ast.Lambda) else [node.body]
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def bound(node):
    """local names of a function"""
    a = node.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for v in (a.vararg, a.kwarg):
        if v is not None:
            out.add(v.arg)
    glob = set()
    for n in own(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out - glob, glob


def comp_names(node):
    out = set()
    for g in node.generators:
        out |= set(targets(g.target))
    return out


def free(node, skip=frozenset()):
    """(name, node) for every name loaded in an expression or statement,
    outside nested functions and apart from comprehension variables"""
    if isinstance(node, ast.Name):
        if isinstance(node.ctx, ast.Load) and node.id not in skip:
            yield node.id, node
        return
    if isinstance(node, ast.Lambda):
        for d in node.args.defaults + [x for x in node.args.kw_defaults
                                       if x is not None]:
            for r in free(d, skip):
                yield r
        return
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        for d in node.decorator_list + (
                node.args.defaults if isinstance(node, ast.FunctionDef)
                else node.bases):
            for r in free(d, skip):
                yield r
        return
    if isinstance(node, COMPS):
        for r in free(node.generators[0].iter, skip):
            yield r
        sk = skip | comp_names(node)
        for i, g in enumerate(node.generators):
            if i:
                for r in free(g.iter, sk):
                    yield r
            for c in g.ifs:
                for r in free(c, sk):
                    yield r
        for e in ([node.key, node.value] if isinstance(node, ast.DictComp)
                  else [node.elt]):
            for r in free(e, sk):
                yield r
        return
    for c in ast.iter_child_nodes(node):
        for r in free(c, skip):
            yield r


# -- definite assignment -------------------------------------------------------
class Unassigned(object):
    """paths on which one local is still unassigned: sets of known conditions"""

    def __init__(self, name, node):
        self.v, self.node = name, node
        self.hits = {}
        self.loops = []

    def run(self):
        self.block(self.node.body, {frozenset()})
        return self.hits

    def reads(self, n, states, skip=()):
        if not states or n is None:
            return
        for name, at in free(n):
            if name == self.v and all(at is not s for s in skip):
                if isinstance(n, ast.BoolOp) or self.conditional(n, at):
                    continue
                self.hit(at.lineno, states)

    def hit(self, line, states):
        sure = [s for s in states if DATA not in s]
        best = min(sure or states, key=lambda s: (len(s), sorted(s)))
        if line not in self.hits or (DATA in self.hits[line]
                                     and DATA not in best):
            self.hits[line] = best

    def conditional(self, n, at):
        """may the read be skipped when n is evaluated?"""
        for m in ast.walk(n):
            if isinstance(m, ast.BoolOp):
                inner = m.values[1:]
            elif isinstance(m, ast.IfExp):
                inner = [m.body, m.orelse]
            elif isinstance(m, COMPS):
                inner = [x for x in ast.iter_child_nodes(m)
                         if x is not m.generators[0]]
            elif isinstance(m, ast.Lambda):
                inner = [m.body]
            else:
                continue
            if any(x is at for e in inner for x in ast.walk(e)):
                return True
        return False

    @staticmethod
    def lit(t, truth):
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, truth = t.operand, not truth
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.GtE: ast.Lt,
                    ast.Gt: ast.LtE, ast.NotIn: ast.In}
            o = t.ops[0]
            if type(o) in flip:
                t = ast.Compare(t.left, [flip[type(o)]()], t.comparators)
                truth = not truth
        if isinstance(t, ast.Constant):
            return bool(t.value) == truth
        return ast.unparse(t), truth

    def assume(self, t, truth, states):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not truth, states)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == truth:
                for x in t.values:
                    states = self.assume(x, truth, states)
                return states
            out = set()
            cur = states
            for x in t.values:
                out |= self.assume(x, truth, cur)
                cur = self.assume(x, not truth, cur)
            return self.cap(out)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], (ast.In, ast.NotIn)) and isinstance(
                t.comparators[0], (ast.Tuple, ast.List)):
            one = [ast.Compare(t.left, [
                ast.Is() if isinstance(e, ast.Constant) and (
                    e.value is None or isinstance(e.value, bool))
                else ast.Eq()], [e]) for e in t.comparators[0].elts]
            if one:
                any_ = one[0] if len(one) == 1 else ast.BoolOp(ast.Or(), one)
                return self.assume(any_, isinstance(
                    t.ops[0], ast.In) == truth, states)
        l = self.lit(t, truth)
        if l is True:
            return set(states)
        if l is False:
            return set()
        return self.add(l, states, any(isinstance(
            n, ast.Subscript) for n in ast.walk(t)))

    def add(self, l, states, data=False):
        new = {l} | ({DATA} if data else set())
        return {s | new for s in states if not any(
            self.clash(l, q) or self.clash(q, l) for q in s)}

    _atoms = {}

    def atom(self, text):
        """(expression, operator or None for its truth, constant)"""
        if text not in self._atoms:
            r = (text, None, None)
            if not text.startswith(('?', '!')):
                t = ast.parse(text, mode='eval').body
                if isinstance(t, ast.Compare) and len(t.ops) == 1:
                    try:
                        r = (ast.unparse(t.left), type(t.ops[0]).__name__,
                             ast.literal_eval(t.comparators[0]))
                    except (ValueError, SyntaxError, TypeError):
                        pass
            self._atoms[text] = r
        return self._atoms[text]

    def clash(self, p, q):
        """p fixes the value of an expression for which q does not hold"""
        if p[0] == q[0]:
            return p[1] != q[1]
        a, b = self.atom(p[0]), self.atom(q[0])
        if not p[1] or a[1] not in ('Eq', 'Is') or a[0] != b[0]:
            return False
        c, d = a[2], b[2]
        try:
            r = {None: lambda: bool(c), 'Eq': lambda: c == d,
                 'Is': lambda: type(c) is type(d) and c == d,
                 'Lt': lambda: c < d, 'LtE': lambda: c <= d,
                 'In': lambda: c in d}[b[1]]()
        except (TypeError, KeyError):
            return False
        return r != q[1]

    def cap(self, s):
        return s if len(s) <= CAP else {frozenset()} if s else s

    def kill(self, names, states):
        """conditions that mention a changed name are forgotten"""
        if not states:
            return states
        names = set(names)
        out = set()
        for s in states:
            out.add(frozenset(l for l in s if not names & set(
                self.words(l[0]))))
        return out

    _words = {}

    def words(self, text):
        if text not in self._words:
            body = text.split(':', 1)[1] if text.startswith('?') else \
                '0' if text == '!' else text
            self._words[text] = {n.id for n in ast.walk(ast.parse(body))
                                 if isinstance(n, ast.Name)}
        return self._words[text]

    def block(self, body, states):
        for s in body:
            if not states:
                return states
            states = self.cap(self.stmt(s, states))
        return states

    def store(self, names, states):
        if self.v in names:
            return set()
        return self.kill(names, states)

    def stmt(self, s, st):
        k = getattr(self, 's_' + type(s).__name__, None)
        if k:
            return k(s, st)
        self.reads(s, st)
        names = [n.id for n in ast.walk(s) if isinstance(n, ast.Name)
                 and isinstance(n.ctx, ast.Store)]
        return self.store(names, st) if names else st

    def s_Assign(self, s, st):
        self.reads(s.value, st)
        names = []
        for t in s.targets:
            names += targets(t)
            if not targets(t):
                self.reads(t, st)
        v = s.value
        if isinstance(v, ast.IfExp) and len(names) == 1:
            one = lambda e, b: self.s_Assign(ast.Assign(s.targets, e),
                                             self.assume(v.test, b, st))
            return self.cap(one(v.body, True) | one(v.orelse, False))
        out = self.store(names, st)
        if len(names) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                c = ast.literal_eval(s.value)
            except (ValueError, SyntaxError, TypeError):
                return out
            if c is None or isinstance(c, (bool, int, float, str)):
                one = c is None or isinstance(c, bool)
                out = self.add(('%s %s %r' % (
                    names[0], 'is' if one else '==', c), True), out)
        return out

    def s_AugAssign(self, s, st):
        self.reads(s.value, st)
        if isinstance(s.target, ast.Name):
            if s.target.id == self.v and st:
                self.hit(s.lineno, st)
            return self.store([s.target.id], st)
        self.reads(s.target, st)
        return st

    def s_FunctionDef(self, s, st):
        self.reads(s, st)
        return self.store([s.name], st)

    def s_ClassDef(self, s, st):
        return self.store([s.name], st)

    def s_Import(self, s, st):
        return self.store([(a.asname or a.name).split('.')[0]
                           for a in s.names], st)

    s_ImportFrom = s_Import

    def s_Delete(self, s, st):
        return st

    def s_Return(self, s, st):
        self.reads(s.value, st)
        return set()

    def s_Raise(self, s, st):
        self.reads(s.exc, st)
        return set()

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1][0] |= st
        return set()

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1][1] |= st
        return set()

    def s_If(self, s, st):
        self.reads(s.test, st)
        a = self.block(s.body, self.assume(s.test, True, st))
        b = self.block(s.orelse, self.assume(s.test, False, st))
        # what both branches reach does not depend on the test
        lits = {self.lit(t, True)[0] for t in [s.test] if not isinstance(
            self.lit(t, True), bool)}
        def strip(x):
            return frozenset(l for l in x if l != DATA and l[0] not in lits)
        both = {strip(x) for x in a} & {strip(x) for x in b}
        return self.cap({strip(x) if strip(x) in both and not any(
            DATA in q for q in st) else x for x in a | b})

    def loop(self, s, enter, bind):
        """states after the body has run any number of times (at least once)"""
        self.loops.append([set(), set()])
        cur, done = set(enter), set()
        for k in range(4):
            new = cur - done
            if not new:
                break
            done |= new
            out = self.block(s.body, bind(new, k == 0)) | self.loops[-1][1]
            self.loops[-1][1] = set()
            cur = out
        brk, _ = self.loops.pop()
        return cur, brk

    def s_While(self, s, st):
        self.reads(s.test, st)
        out, brk = self.loop(s, st,
                             lambda x, k: self.assume(s.test, True, x))
        end = self.assume(s.test, False, st | out)
        return self.cap(self.block(s.orelse, end) | brk)

    def s_For(self, s, st):
        self.reads(s.iter, st)
        text = self.nonempty(s.iter)
        never = self.sure(s.iter)
        some = self.add((text, True), st)
        none = set() if never else self.add(
            (text, False), st, text.startswith('?') or 'len(' in text)
        i = self.counter(s)

        def bind(x, first):
            x = self.store(targets(s.target), x)
            if i is None:
                return x
            x = self.add((i + ' == 0', first), x)
            return x if first else self.add((i, True), x)
        out, brk = self.loop(s, some, bind)
        return self.cap(self.block(s.orelse, out | none) | brk)

    @staticmethod
    def counter(s):
        """variable that counts the rounds from 0"""
        c, t = s.iter, s.target
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name)
                and len(c.args) == 1 and not c.keywords):
            return None
        if c.func.id == 'enumerate' and isinstance(t, ast.Tuple):
            t = t.elts[0]
        elif c.func.id != 'range':
            return None
        if not isinstance(t, ast.Name) or any(
                isinstance(n, ast.Name) and n.id == t.id and isinstance(
                    n.ctx, ast.Store) for b in s.body for n in ast.walk(b)):
            return None
        return t.id

    @staticmethod
    def nonempty(it):
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) \
                and it.func.id in ('enumerate', 'reversed', 'sorted',
                                   'list') and it.args:
            it = it.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id == 'range' and len(it.args) in (1, 2):
            a, b = ([ast.Constant(0)] + it.args)[-2:]
            return ast.unparse(ast.Compare(a, [ast.Lt()], [b]))
        return '?nonempty:' + ast.unparse(it)

    @staticmethod
    def sure(it):
        """certainly not empty"""
        if isinstance(it, (ast.List, ast.Tuple)):
            return bool(it.elts)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == 'range' and all(isinstance(
                    a, ast.Constant) for a in it.args):
                try:
                    return len(range(*[a.value for a in it.args])) > 0
                except TypeError:
                    return False
            if it.func.id in ('enumerate', 'reversed', 'sorted', 'list') \
                    and it.args:
                return Unassigned.sure(it.args[0])
        return False

    def s_With(self, s, st):
        for i in s.items:
            self.reads(i.context_expr, st)
            if i.optional_vars is not None:
                st = self.store(targets(i.optional_vars), st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        # the body may stop after any statement
        mid, cur = set(st), st
        for b in s.body:
            if not cur:
                break
            cur = self.cap(self.stmt(b, cur))
            mid |= cur
        out = self.block(s.orelse, cur)
        for h in s.handlers:
            x = set(mid)
            if h.name:
                x = self.store([h.name], x)
            out |= self.block(h.body, self.cap(x))
        if s.finalbody:
            out = self.block(s.finalbody, out)
        return self.cap(out)


# -- the rules -----------------------------------------------------------------
def unassigned(rep, f):
    loc, _ = bound(f.node)
    a = f.node.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    params |= {v.arg for v in (a.vararg, a.kwarg) if v is not None}
    for v in sorted(loc - params):
        oid = 'assigned:%s:%s' % (f.qual, v)
        hits = Unassigned(v, f.node).run()
        if not hits:
            rep.proved(oid, 'assigned on every path to a read')
            continue
        sure = [k for k in hits if DATA not in hits[k]]
        if not sure:
            rep.undecided(oid, 'depends on the contents of arrays')
            continue
        ln = min(sure)
        path = ', '.join('%s%s' % ('' if t else 'not ', w.replace(
            '?nonempty:', 'some ')) for w, t in sorted(hits[ln]))
        rep.violate(oid, f.qual, 'line %d reads %s, which is not assigned '
                    'when %s' % (ln, v, path or 'the function gets there'),
                    detail=dict(line=ln))


def known(P, m, name):
    return name in m.names or hasattr(builtins, name) or \
        P.lookup(m, name) is not None or name in (
            '__file__', '__name__', '__doc__', '__class__')


def module_names(m):
    """names bound anywhere at module level"""
    out = set()
    for n in own_module(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    return out


def own_module(tree):
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUNCS + (ast.ClassDef,)):
            todo.extend(ast.iter_child_nodes(n))


def defined(rep, P, m, f):
    """every name is a local, of an enclosing function, global or built in"""
    if any(s not in P.modules for s in m.stars):
        return
    top = module_names(m)

    def visit(node, env):
        loc, glob = bound(node)
        env = env | loc
        body = [node.body] if isinstance(node, ast.Lambda) else node.body
        for b in body:
            for name, at in free(b):
                oid = 'defined:%s:%s' % (f.qual, name)
                if name in env or name in top or known(P, m, name):
                    rep.proved(oid, 'bound')
                else:
                    rep.violate(oid, f.qual, 'line %d reads %s, which '
                                'nothing defines' % (at.lineno, name))
        for n in own(node):
            if isinstance(n, FUNCS):
                extra = set()
                visit(n, env | extra | {x for q in own(node) if isinstance(
                    q, COMPS) for x in comp_names(q)})
    visit(f.node, frozenset())


EXT = {'get_params', 'set_params', 'score', 'fit_predict', 'fit_transform'}


def attributes(rep, P):
    """attributes of self that some class of the family defines"""
    for c in P.classes():
        if c.module.pyx:
            continue
        fam = set(c.mro())
        for d in P.subclasses(c):
            fam |= set(d.mro())
        if any(hasattr(builtins, b) and b != 'object' for k in fam
               for b in k.ext_bases):
            # an exception or container class: attributes of the built-in
            base = {a for k in fam for b in k.ext_bases
                    if hasattr(builtins, b)
                    for a in dir(getattr(builtins, b))}
        else:
            base = set()
        have = set(base) | set(dir(object)) | {'__dict__'}
        if any(b != 'object' for k in fam for b in k.ext_bases):
            have |= EXT
        anything = False
        for k in fam:
            have |= set(k.attrs) | {n.split('@')[0] for n in k.methods}
            have |= {n.name for n in k.node.body if hasattr(n, 'name')}
            for n in k.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(
                        n.target, ast.Name):
                    have.add(n.target.id)
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    have.add(n.attr)
                if isinstance(n, ast.Name) and n.id in ('setattr', 'vars'):
                    anything = True
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    anything = True
            if '__getattr__' in k.methods or '__getattribute__' in k.methods:
                anything = True
        # attributes that the package stores on any object
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and not (isinstance(
                            n.value, ast.Name) and n.value.id == 'self'):
                    have.add(n.attr)
        for nm, f in c.methods.items():
            if 'staticmethod' in f.decorators() or not f.params():
                continue
            me = f.params()[0]
            tested = {n.args[1].value for n in ast.walk(f.node)
                      if isinstance(n, ast.Call) and isinstance(
                          n.func, ast.Name) and n.func.id in (
                          'hasattr', 'getattr') and len(n.args) > 1
                      and isinstance(n.args[1], ast.Constant)}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    oid = 'attribute:%s:%s' % (f.qual, n.attr)
                    if n.attr in have:
                        rep.proved(oid, 'defined by the class family')
                    elif anything or n.attr in tested:
                        rep.undecided(oid, 'attributes set dynamically')
                    else:
                        rep.violate(oid, f.qual, 'line %d reads self.%s, '
                                    'which no class defines' % (
                                        n.lineno, n.attr))


def fits(f, call, drop):
    """None if the call binds to the signature, a complaint otherwise, or
    False when it cannot be told"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][drop:]
    only = [x.arg for x in a.posonlyargs][drop:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(
            k.arg is None for k in call.keywords):
        return False
    n = len(call.args)
    if n > len(pos) and a.vararg is None:
        return 'takes %d arguments, %d given' % (len(pos), n)
    given = set(pos[:n])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return 'gets %s twice' % k.arg
        if k.arg in only or k.arg not in pos + kwonly:
            if a.kwarg is None:
                return 'has no parameter %s' % k.arg
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(
        pos) else []
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
             if d is None]
    miss = [p for p in need if p not in given]
    if miss:
        return 'gets no %s' % ', '.join(miss)
    return None


def callee(P, m, f, call, local):
    """[(function, leading parameters already bound)] the call may reach"""
    fn = call.func
    if isinstance(fn, ast.Name):
        if fn.id in local:
            return []
        r = P.lookup(m, fn.id)
    elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
        b = fn.value.id
        if f is not None and f.cls is not None and f.params() and \
                b == f.params()[0] and 'staticmethod' not in f.decorators():
            out = []
            for d in P.subclasses(f.cls):
                if d.find(f.name) is not f:
                    continue
                g = d.find(fn.attr)
                if g is None or any('property' in x or 'setter' in x
                                    for x in g.decorators()):
                    continue
                out.append((g, 0 if 'staticmethod' in g.decorators()
                            else 1))
            return out
        if b in local:
            return []
        r = P.lookup(m, b)
        if r and r[0] == 'class':
            g = r[1].find(fn.attr)
            if g is None:
                return []
            return [(g, 1 if 'classmethod' in g.decorators() else 0)]
        if r and r[0] == 'mod':
            r = P.mod_attr(r[1], fn.attr)
        else:
            return []
    else:
        return []
    if r and r[0] == 'func':
        return [(r[1], 0)] if not r[1].decorators() else []
    if r and r[0] == 'class':
        g = r[1].find('__init__')
        return [(g, 1)] if g is not None else []
    return []


def on_model(P, m, f, call):
    """methods of every model that a call on a model may reach"""
    fn = call.func
    if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and \
            fn.func.id == 'delayed' and len(fn.args) == 1 and isinstance(
                fn.args[0], ast.Name):
        r = P.lookup(m, fn.args[0].id)
        return [(r[1], 0)] if r and r[0] == 'func' else []
    if not isinstance(fn, ast.Attribute):
        return []
    v = fn.value
    if not (isinstance(v, ast.Attribute) and v.attr == 'model' or
            isinstance(v, ast.Name) and v.id == 'model'):
        return []
    base = P.cls('StructuredModel')
    if base is None:
        return []
    out = []
    for c in P.subclasses(base):
        g = c.find(fn.attr)
        if g is not None and c is not base and not c.name.startswith('_'):
            out.append((g, 1))
    return out


def calls(rep, P, m, f):
    local = set()
    n = f.node
    for q in ast.walk(n):
        if isinstance(q, FUNCS):
            local |= bound(q)[0]
        if isinstance(q, COMPS):
            local |= comp_names(q)
    depends = set()
    for t in ast.walk(n):
        if isinstance(t, (ast.If, ast.IfExp)):
            depends |= {id(a) for a in ast.walk(t)}
    for c in ast.walk(n):
        if not isinstance(c, ast.Call):
            continue
        seen = set()
        cs = callee(P, m, f, c, local) or on_model(P, m, f, c)
        for g, drop in cs:
            if id(g) in seen or g.module.pyx:
                continue
            seen.add(id(g))
            oid = 'call:%s:%s' % (f.qual, g.qual)
            r = fits(g, c, drop)
            if r and id(c) in depends and len({id(h) for h, _ in cs}) > 1:
                rep.undecided(oid, 'only for models that ask for it')
                continue
            if r is None:
                rep.proved(oid, 'binds')
            elif r:
                rep.violate(oid, f.qual, 'line %d: the call of %s does not '
                            'bind: %s %s' % (c.lineno, g.qual, g.name, r))


def raises(rep, P, m, f):
    for n in own(f.node):
        if not isinstance(n, ast.Raise) or n.exc is None:
            continue
        e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        oid = 'raise:%s:%s' % (f.qual, ast.unparse(e))
        if not isinstance(e, ast.Name) or e.id in bound(f.node)[0]:
            continue
        if P.lookup(m, e.id) is None and hasattr(builtins, e.id):
            b = getattr(builtins, e.id)
            if isinstance(b, type) and issubclass(b, BaseException):
                rep.proved(oid, 'an exception')
            else:
                rep.violate(oid, f.qual, 'line %d raises %s, which is not '
                            'an exception' % (n.lineno, e.id))


def model_attributes(rep, P, m, f, have):
    for n in [x for b in f.node.body for x in ast.walk(b)]:
        if not isinstance(n, ast.Attribute) or not isinstance(
                n.ctx, ast.Load):
            continue
        v = n.value
        if isinstance(v, ast.Attribute) and v.attr == 'model' or \
                isinstance(v, ast.Name) and v.id == 'model':
            tested = any(isinstance(c, ast.Constant) and c.value == n.attr
                         for c in ast.walk(m.tree))
            oid = 'model-attribute:%s:%s' % (f.qual, n.attr)
            if n.attr in have:
                rep.proved(oid, 'models have it')
            elif tested:
                rep.undecided(oid, 'tested for')
            else:
                rep.violate(oid, f.qual, 'line %d reads %s of the model, '
                            'which no model has' % (n.lineno, n.attr))


def check(rep, P, tier):
    base = P.cls('StructuredModel')
    have = set(dir(object))
    for c in P.subclasses(base) if base else []:
        have |= set(c.attrs) | set(c.methods)
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                have.add(n.attr)
    fs = [f for f in P.functions() if not f.module.pyx
          and f.module.name.split('.')[0] == P.package]
    if not fs:
        raise Broken('no functions found')
    for f in fs:
        m = f.module
        rep.rule('functions')
        rep.visited([f.qual])
        for g in [f.node] + [n for n in ast.walk(f.node) if n is not f.node
                             and isinstance(n, ast.FunctionDef)]:
            k = f if g is f.node else Inner(f, g)
            unassigned(rep, k)
            raises(rep, P, m, k)
        defined(rep, P, m, f)
        calls(rep, P, m, f)
        if base and '.learners' in m.name:
            model_attributes(rep, P, m, f, have)
    attributes(rep, P)
    return rep.finish('other', TRUST, "every Python function of the package: "
                      "paths to reads of locals, resolution of names, "
                      "attributes of self, binding of calls, raised objects.",
                      min_obl=500)


class Inner(object):
    def __init__(self, f, node):
        self.node, self.name = node, node.name
        self.qual = '%s.%s' % (f.qual, node.name)
