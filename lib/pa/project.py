"""Source loader: modules, classes (with C3 linearisation), functions and
import resolution for the package under analysis."""
import ast
import os
import re


class FuncInfo(object):
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.parent = parent

    @property
    def qual(self):
        q = self.name
        if self.cls is not None:
            q = "%s.%s" % (self.cls.name, q)
        return "%s:%s" % (self.module.rel, q)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def decorators(self):
        out = []
        for d in self.node.decorator_list:
            out.append(ast.unparse(d))
        return out

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.bases = []
        self.ext_bases = []
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise ValueError("inconsistent MRO %s" % self.name)
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        del s[0]
            self._mro = out
        return self._mro

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return "<C %s>" % self.name

    @property
    def qual(self):
        return "%s:%s" % (self.module.rel, self.name)


class Module(object):
    def __init__(self, name, path, rel, tree, pyx=False):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.pyx = pyx
        self.is_pkg = path.endswith('__init__.py')
        self.names = {}     # name -> ('func',F)|('class',C)|('mod',dotted)|
        #                      ('from',dotted,attr)|('assign',expr)
        self.functions = []
        self.classes = []
        self.stars = []


def detype(src):
    """turn the Cython subset used here into plain Python source, keeping
    line numbers."""
    out = []
    skip_indent = None
    joined = []
    pend, depth = None, 0
    for line in src.split('\n'):
        if pend is None and re.match(r'\s*(def|cdef|cpdef)\b', line) and \
                line.count('(') > line.count(')'):
            pend, extra = line, 0
            continue
        if pend is not None:
            pend += ' ' + line.strip()
            extra += 1
            if pend.count('(') <= pend.count(')'):
                joined.append(pend)
                joined.extend([''] * extra)
                pend = None
            continue
        joined.append(line)
    for line in joined:
        ind = len(line) - len(line.lstrip())
        s = line.strip()
        if skip_indent is not None:
            if s == '' or ind > skip_indent:
                out.append('')
                continue
            skip_indent = None
        if s.startswith('cimport') or re.match(r'from\s+\S+\s+cimport', s):
            out.append('')
            continue
        if s.startswith('ctypedef') or s.startswith('cdef extern'):
            if s.endswith(':'):
                skip_indent = ind
            out.append('')
            continue
        m = re.match(r'(cdef|cpdef)\s+(?:inline\s+)?(?:[\w.\[\]:, ]+?\s+)?'
                     r'(\w+)\s*\((.*)$', s)
        if m and s.rstrip().endswith(':') and '=' not in s.split('(')[0]:
            s = 'def %s(%s' % (m.group(2), m.group(3))
            line = ' ' * ind + s
        if s.startswith('def '):
            line = ' ' * ind + strip_arg_types(s)
            out.append(line)
            continue
        if s.startswith('cdef '):
            body = s[5:]
            # declarations: "T a, b"  or  "T a = expr"
            m = re.match(r'(?:[\w.]+(?:\[[^\]]*\])?\s*(?:\*+)?\s+)+?'
                         r'(\w+)\s*=\s*(.+)$', body)
            if m:
                line = ' ' * ind + '%s = %s' % (m.group(1), m.group(2))
            else:
                line = ' ' * ind + 'pass'
            out.append(line)
            continue
        line = re.sub(r'<\s*[\w.]+\s*\*?>', '', line)
        out.append(line)
    return '\n'.join(out)


def strip_arg_types(s):
    i = s.index('(')
    j = s.rindex(')')
    args = s[i + 1:j]
    parts, depth, cur = [], 0, ''
    for ch in args:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        parts.append(cur)
    res = []
    for p in parts:
        p = p.strip()
        default = ''
        p = re.sub(r'\[[^\[\]]*\]', '', p).strip()
        if '=' in p:
            p, d = p.split('=', 1)
            default = '=' + d.strip()
            p = p.strip()
        m = re.search(r'(\*{0,2}\w+)(\s+not\s+None)?$', p)
        res.append(m.group(1) + default)
    return s[:i + 1] + ', '.join(res) + '):'


class Project(object):
    def __init__(self, root='/repo', package='pystruct'):
        self.root = root
        self.package = package
        self.modules = {}
        self.errors = []
        self._load()
        self._resolve_bases()

    # -- loading ----------------------------------------------------------
    def _load(self):
        base = os.path.join(self.root, self.package)
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in dn if d not in ('tests', '__pycache__')]
            for f in sorted(fn):
                if f.endswith('.py') and f != 'setup.py':
                    self._add(os.path.join(dp, f))
        for dotted, path in self._extensions().items():
            if os.path.exists(path):
                self._add(path, dotted, pyx=True)

    def _extensions(self):
        """compiled modules named in setup.py"""
        out = {}
        p = os.path.join(self.root, 'setup.py')
        try:
            t = ast.parse(open(p).read())
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and \
                        ast.unparse(n.func).endswith('Extension'):
                    a = [x for x in n.args]
                    name = ast.literal_eval(a[0])
                    srcs = ast.literal_eval(a[1])
                    s = srcs[0]
                    if not s.endswith('.pyx'):
                        s = os.path.splitext(s)[0] + '.pyx'
                    out[name] = os.path.join(self.root, s)
        except Exception:
            pass
        out.setdefault('pystruct.models.utils',
                       os.path.join(self.root, 'src/utils.pyx'))
        out.setdefault('pystruct.inference._viterbi',
                       os.path.join(self.root,
                                    'pystruct/inference/_viterbi.pyx'))
        return out

    def _add(self, path, dotted=None, pyx=False):
        rel = os.path.relpath(path, self.root)
        if dotted is None:
            dotted = rel[:-3].replace(os.sep, '.')
            if dotted.endswith('.__init__'):
                dotted = dotted[:-9]
        src = open(path).read()
        if pyx:
            src = detype(src)
        tree = ast.parse(src, filename=path)
        m = Module(dotted, path, rel, tree, pyx)
        self.modules[dotted] = m
        self._scan(m, tree.body)

    def reference(self, name, src):
        """functions of a reference algorithm, written in Python"""
        m = Module(name, name + '.py', name, ast.parse(src))
        self.modules[name] = m
        self._scan(m, m.tree.body)
        return m

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(st, m)
                m.names[st.name] = ('func', f)
                m.functions.append(f)
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(st, m)
                m.names[st.name] = ('class', c)
                m.classes.append(c)
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        f = FuncInfo(s, m, c)
                        # property setters share a name: keep both
                        if s.name in c.methods and any(
                                d.endswith('.setter') for d in f.decorators()):
                            c.methods[s.name + '@setter'] = f
                        else:
                            c.methods[s.name] = f
                        m.functions.append(f)
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ('mod', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = \
                            ('mod', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(m, st)
                for a in st.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('assign', st.value)
            elif isinstance(st, (ast.Try, ast.If)):
                for b in (st.body, getattr(st, 'orelse', []),
                          getattr(st, 'finalbody', [])):
                    self._scan(m, b)
                for h in getattr(st, 'handlers', []):
                    self._scan(m, h.body)

    def _abs(self, m, st):
        if not st.level:
            return st.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:-(st.level - 1)]
        if st.module:
            parts = parts + st.module.split('.')
        return '.'.join(parts)

    # -- resolution -------------------------------------------------------
    def lookup(self, module, name, seen=None):
        """-> ('func',F)|('class',C)|('mod',dotted)|('ext',dotted)|
        ('assign',module,expr)|None"""
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        e = module.names.get(name)
        if e is None:
            for s in module.stars:
                if s in self.modules:
                    r = self.lookup(self.modules[s], name, seen)
                    if r:
                        return r
            return None
        if e[0] in ('func', 'class'):
            return e
        if e[0] == 'mod':
            return e
        if e[0] == 'assign':
            return ('assign', module, e[1])
        if e[0] == 'from':
            base, attr = e[1], e[2]
            sub = base + '.' + attr
            if base in self.modules:
                r = self.lookup(self.modules[base], attr, seen)
                if r is not None:
                    return r
                if sub in self.modules:
                    return ('mod', sub)
                return ('ext', sub)
            if sub in self.modules:
                return ('mod', sub)
            return ('ext', sub)

    def mod_attr(self, dotted, attr):
        if dotted in self.modules:
            r = self.lookup(self.modules[dotted], attr)
            if r is not None:
                return r
            if dotted + '.' + attr in self.modules:
                return ('mod', dotted + '.' + attr)
            return None
        return ('ext', dotted + '.' + attr)

    def _resolve_bases(self):
        for m in self.modules.values():
            for c in m.classes:
                for b in c.node.bases:
                    r = None
                    if isinstance(b, ast.Name):
                        r = self.lookup(m, b.id)
                    elif isinstance(b, ast.Attribute) and \
                            isinstance(b.value, ast.Name):
                        r0 = self.lookup(m, b.value.id)
                        if r0 and r0[0] == 'mod':
                            r = self.mod_attr(r0[1], b.attr)
                    if r and r[0] == 'class':
                        c.bases.append(r[1])
                    else:
                        c.ext_bases.append(ast.unparse(b))

    def classes(self):
        return [c for m in self.modules.values() for c in m.classes]

    def cls(self, name):
        for c in self.classes():
            if c.name == name:
                return c
        return None

    def functions(self):
        return [f for m in self.modules.values() for f in m.functions]

    def func(self, module, name):
        m = self.modules.get(module)
        if m is None:
            return None
        e = self.lookup(m, name)
        if e and e[0] == 'func':
            return e[1]
        return None

    def subclasses(self, base):
        return [c for c in self.classes() if base in c.mro()]
