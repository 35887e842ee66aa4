"""Value algebra of the abstract domain.

An ``Expr`` is a polynomial (rational coefficients) over *atoms*.  Atoms are
self-describing tuples:

  ('sym', name, lo)              size symbol, an integer >= lo
  ('var', name, hi)              index variable, integer, 0 <= v < hi
  ('read', array, idx, lo, hi, isint)  element of an unknown input array,
                                 lo <= value < hi for integer arrays
  ('eq', d)                      1 if d == 0 else 0
  ('ge', d)                      1 if d >= 0 else 0   (d integer valued)
  ('gt', d)                      1 if d > 0 else 0    (d real valued)
  ('sum', binders, factors)      sum over index variables of a product
  ('fn', name, args)             uninterpreted function (args: Expr | Key | str)
  ('div', a, b) ('mod', a, b) ('inv', a)
  ('unk', n, why)                analysis gave up here (poison)

Two expressions are equal when their normal forms are identical: sums are
distributed, index deltas eliminated, bound names canonicalised.  ``evaluate``
gives the value of an expression for one valuation of its input symbols; it is
only used to *separate* two normal forms (to tell a real difference from an
incompleteness of the normaliser).
"""
from fractions import Fraction
from math import isqrt
from functools import lru_cache
import hashlib
import math
import itertools
import random
import time

_fresh = itertools.count()


class OutOfTime(Exception):
    pass


_limit = [None, None, 0]       # end of this obligation, of the run, counter


def set_budget(seconds, total=None):
    now = time.time()
    if total is not None:
        _limit[1] = now + total
    _limit[0] = now + seconds
    if _limit[1] is not None and _limit[1] < _limit[0]:
        _limit[0] = _limit[1]


def tick(n=1):
    _limit[2] += n
    if _limit[2] >= 200:
        _limit[2] = 0
        if _limit[0] is not None and time.time() > _limit[0]:
            raise OutOfTime('analysis budget used up')


def short(k):
    """identity of a long key"""
    if len(k) < 700:
        return k
    return "#%s" % hashlib.blake2b(k.encode(), digest_size=18).hexdigest()


class Expr(object):
    __slots__ = ("terms", "_key", "_hash", "_atoms")

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._hash = None
        self._atoms = None

    # -- identity ---------------------------------------------------------
    @property
    def key(self):
        if self._key is None:
            parts = []
            for t in sorted(self.terms, key=term_key):
                parts.append("%s*%s" % (self.terms[t], term_key(t)))
            self._key = short(" + ".join(parts)) if parts else "0"
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Expr) and (self is o or self.key == o.key)

    def __repr__(self):
        return show(self)

    # -- queries ----------------------------------------------------------
    def const(self):
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def is_zero(self):
        return not self.terms

    def atoms(self):
        """all atoms at any depth"""
        if self._atoms is None:
            out = set()
            for t in self.terms:
                for a in t:
                    out |= atom_atoms(a)
            self._atoms = frozenset(out)
        return self._atoms

    def poisoned(self):
        return [a for a in self.atoms() if is_unk(a)]

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        o = E(o)
        if len(o.terms) > len(self.terms):
            a, b = o, self
        else:
            a, b = self, o
        d = dict(a.terms)
        for t, c in b.terms.items():
            n = d.get(t, 0) + c
            if n:
                d[t] = n
            else:
                d.pop(t, None)
        return Expr(d)

    __radd__ = __add__

    def __neg__(self):
        return Expr({t: -c for t, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-E(o))

    def __rsub__(self, o):
        return E(o) - self

    def __mul__(self, o):
        o = E(o)
        c = o.const()
        if c is not None:
            if c == 0:
                return ZERO
            if c == 1:
                return self
            return Expr({t: k * c for t, k in self.terms.items()})
        c = self.const()
        if c is not None:
            return o * self
        acc = ZERO
        plain = {}
        tick(len(self.terms))
        for t1, c1 in self.terms.items():
            for t2, c2 in o.terms.items():
                r = mul_terms(t1, t2)
                if isinstance(r, tuple):
                    n = plain.get(r, 0) + c1 * c2
                    if n:
                        plain[r] = n
                    else:
                        plain.pop(r, None)
                else:
                    acc = acc + r * (c1 * c2)
        return acc + Expr(plain)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        return div_real(self, E(o))


def E(v):
    if isinstance(v, Expr):
        return v
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, (int, Fraction)):
        return Expr({(): Fraction(v)}) if v else ZERO
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return atom(('fn', 'const:%r' % v, ()))
        return Expr({(): Fraction(repr(v))}) if v else ZERO
    raise TypeError(v)


ZERO = Expr({})
ONE = Expr({(): Fraction(1)})


def atom(a):
    return Expr({(a,): Fraction(1)})


def sym(name, lo=2):
    return atom(('sym', name, lo))


def fresh_var(hi, hint='i'):
    return ('var', '%s%d' % (hint, next(_fresh)), E(hi))


def is_unk(a):
    return a[0] == 'unk' or a[0] == 'read' and a[1].startswith('undef:')


def unk(why):
    return atom(('unk', next(_fresh), why))


@lru_cache(maxsize=None)
def atom_key(a):
    tag = a[0]
    if tag == 'sym':
        return a[1]
    if tag == 'var':
        return "%s<%s>" % (a[1], a[2].key)
    if tag == 'read':
        return "%s[%s]" % (a[1], ",".join(i.key for i in a[2]))
    if tag in ('eq', 'ge', 'gt', 'inv'):
        return "%s{%s}" % (tag, a[1].key)
    if tag == 'sum':
        return "S<%s>{%s}" % (",".join("%s<%s" % (b[1], b[2].key)
                                       for b in a[1]),
                              ".".join(atom_key(f) for f in a[2]))
    if tag == 'fn':
        return "%s(%s)" % (a[1], ";".join(arg_key(x) for x in a[2]))
    if tag in ('div', 'mod'):
        return "%s(%s,%s)" % (tag, a[1].key, a[2].key)
    if tag == 'unk':
        return "?%d" % a[1]
    raise ValueError(a)


def arg_key(x):
    if isinstance(x, Expr):
        return x.key
    if isinstance(x, Key):
        return x.key
    return str(x)


class Key(object):
    """canonical identity of a whole array: binders (axes) and element."""
    __slots__ = ("binders", "elem", "key", "_h")

    def __init__(self, binders, elem):
        self.binders = binders
        self.elem = elem
        self.key = "arr<%s>{%s}" % (
            ",".join("%s<%s" % (b[1], b[2].key) for b in binders), elem.key)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Key) and self.key == o.key


@lru_cache(maxsize=None)
def atom_atoms(a):
    out = {a}
    for e in sub_exprs(a):
        out |= e.atoms()
    if a[0] == 'sum':
        for f in a[2]:
            out |= atom_atoms(f)
    return frozenset(out)


def sub_exprs(a):
    tag = a[0]
    if tag == 'read':
        return list(a[2])
    if tag == 'var':
        return [a[2]]
    if tag in ('eq', 'ge', 'gt', 'inv'):
        return [a[1]]
    if tag in ('div', 'mod'):
        return [a[1], a[2]]
    if tag == 'fn':
        r = []
        for x in a[2]:
            if isinstance(x, Expr):
                r.append(x)
            elif isinstance(x, Key):
                r.append(x.elem)
                r.extend(b[2] for b in x.binders)
        return r
    if tag == 'sum':
        return [b[2] for b in a[1]]
    return []


def term_key(t):
    return ".".join(atom_key(a) for a in t)


def free_vars(e):
    """index variables of an expression that no sum or family binds"""
    out = set()
    for t in e.terms:
        for a in t:
            out |= atom_free(a)
    return out


@lru_cache(maxsize=200000)
def atom_free(a):
    tag = a[0]
    if tag == 'var':
        return frozenset([a]) | free_vars(a[2])
    out = set()
    if tag == 'sum':
        for f in a[2]:
            out |= atom_free(f)
        out -= set(a[1])
        for b in a[1]:
            out |= free_vars(b[2]) - set(a[1])
        return frozenset(out)
    if tag == 'fn':
        for x in a[2]:
            if isinstance(x, Expr):
                out |= free_vars(x)
            elif isinstance(x, Key):
                out |= free_vars(x.elem) - set(x.binders)
                for b in x.binders:
                    out |= free_vars(b[2]) - set(x.binders)
        return frozenset(out)
    for x in sub_exprs(a):
        out |= free_vars(x)
    return frozenset(out)


def depends(a, v):
    return v in atom_atoms(a)


def e_depends(e, v):
    return v in e.atoms()


INDICATORS = ('eq', 'ge', 'gt')
_mul_cache = {}


def mul_terms(t1, t2):
    """product of two terms: a term tuple, or an Expr when rewriting."""
    if not t1:
        return t2
    if not t2:
        return t1
    k = (t1, t2)
    r = _mul_cache.get(k)
    if r is None:
        r = _mul_terms(t1, t2)
        if len(_mul_cache) < 400000:
            _mul_cache[k] = r
    return r


def _mul_terms(t1, t2):
    out = list(t1)
    for a in t2:
        if a[0] in INDICATORS and a in out:
            continue
        out.append(a)
    return norm_term(out)


def norm_term(factors):
    """normalise a list of factors into a term tuple, or an Expr."""
    # inverse cancellation
    invs = [f for f in factors if f[0] == 'inv']
    for f in invs:
        e = f[1]
        if len(e.terms) == 1:
            (t, c), = e.terms.items()
            if len(t) == 1 and t[0] in factors:
                rest = list(factors)
                rest.remove(f)
                rest.remove(t[0])
                r = norm_term(rest)
                r = r if isinstance(r, Expr) else Expr({r: Fraction(1)})
                return r * (Fraction(1) / c)
    # equality substitution: [a == e] * f(a)  ->  [a == e] * f(e)
    eqs = [f for f in factors if f[0] == 'eq']
    for q in eqs:
        piv = eq_pivot(q)
        if piv is None:
            continue
        a, sol = piv
        hit = [f for f in factors if f != q and depends(f, a)]
        if hit:
            res = Expr({(q,): Fraction(1)})
            for f in factors:
                if f == q:
                    continue
                if f in hit:
                    res = res * subst_atom(f, {a: sol})
                else:
                    res = res * Expr({(f,): Fraction(1)})
            return res
    return tuple(sorted(factors, key=atom_key))


@lru_cache(maxsize=None)
def eq_pivot(q):
    """for eq{d}: the greatest atom occurring linearly with coefficient +-1
    and nowhere else in d, with its solution."""
    d = q[1]
    best = None
    for t, c in d.terms.items():
        if len(t) == 1 and abs(c) == 1 and t[0][0] in ('read', 'var', 'fn'):
            a = t[0]
            others = d - Expr({t: c})
            if a in others.atoms():
                continue
            # do not pivot an atom that other atoms of d mention inside
            k = (a[0] == 'var', atom_key(a))
            if best is None or k > best[0]:
                best = (k, a, others * (Fraction(-1) / c))
    if best is None:
        return None
    return best[1], best[2]


# ---------------------------------------------------------------------------
# indicators
def is_int(e):
    for t, c in e.terms.items():
        if c.denominator != 1:
            return _int_poly(e)
        for a in t:
            if not atom_int(a):
                return False
    return True


@lru_cache(maxsize=None)
def _int_poly_key(key, e):
    ats = sorted({a for t in e.terms for a in t}, key=atom_key)
    if any(not atom_int(a) for a in ats):
        return False
    if len(ats) > 5:
        return False
    pts = range(0, 4)
    for vals in itertools.product(pts, repeat=len(ats)):
        m = dict(zip(ats, vals))
        s = Fraction(0)
        for t, c in e.terms.items():
            p = c
            for a in t:
                p *= m[a]
            s += p
        if s.denominator != 1:
            return False
    return True


def _int_poly(e):
    return _int_poly_key(e.key, e)


@lru_cache(maxsize=None)
def atom_int(a):
    tag = a[0]
    if tag in ('sym', 'var', 'eq', 'ge', 'gt', 'div', 'mod'):
        return True
    if tag == 'read':
        return a[5]
    if tag == 'sum':
        return all(atom_int(f) for f in a[2])
    if tag == 'fn':
        return a[1] in INT_FNS or a[1].startswith('cond:') or \
            a[1].startswith('int:')
    return False


INT_FNS = {'trunc', 'rint', 'anyhit', 'argmax', 'argmin', 'floor', 'ceil', 'rank', 'count', 'round'}


def lead_negative(d):
    t = min(d.terms, key=lambda t: (t == (), term_key(t)))
    return d.terms[t] < 0


def case_atoms(*es):
    """0/1 valued atoms that select between cases of an expression"""
    out = set()
    for e in es:
        for t in e.terms:
            for a in t:
                if a[0] in INDICATORS or \
                        (a[0] == 'fn' and a[1].startswith('cond:')):
                    out.add(a)
    return sorted(out, key=atom_key)


def restrict(e, a, val):
    """e with the 0/1 atom a (as a factor) fixed"""
    out = ZERO
    for t, c in e.terms.items():
        if a in t:
            if val:
                out = out + Expr({tuple(x for x in t if x != a): c})
        else:
            out = out + Expr({t: c})
    return out


def by_cases(es, f):
    """f(*es) by case distinction over the selecting atoms of es"""
    ca = case_atoms(*es)
    if not ca or len(ca) > 4:
        return None
    a = ca[0]
    on = [restrict(e, a, 1) for e in es]
    off = [restrict(e, a, 0) for e in es]
    return atom(a) * f(*on) + (ONE - atom(a)) * f(*off)


def mk_read(name, idx, lo, hi, isint):
    idx = tuple(idx)
    r = by_cases(idx, lambda *i: mk_read(name, i, lo, hi, isint))
    if r is not None:
        return r
    return atom(('read', name, idx, lo, hi, isint))


def ind_eq(a, b):
    d = E(a) - E(b)
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if len(d.terms) > 1:
        r = by_cases([d], lambda x: ind_eq(x, ZERO))
        if r is not None:
            return r
    if lead_negative(d):
        d = -d
    if is_int(d):
        if prove_nonneg(d - 1) or prove_nonneg(-d - 1):
            return ZERO
        # 0/1 valued simplifications: [b == 0], [b == 1]
        s = _bool_eq(d)
        if s is not None:
            return s
        s = _radix_eq(d)
        if s is not None:
            return s
    return atom(('eq', d))


def _radix_eq(d):
    """q*A + B == 0 with |B| < q  ->  [A == 0][B == 0]"""
    if len(d.terms) < 2 or len(d.terms) > 12:
        return None
    cands = []
    for t in d.terms:
        q = tuple(x for x in t if x[0] == 'sym')
        if q and q not in cands and len(q) < len(t):
            cands.append(q)
    for q in sorted(cands, key=lambda q: (-len(q), term_key(q))):
        A, B = {}, {}
        for t, c in d.terms.items():
            tt = list(t)
            ok = c.denominator == 1
            for x in q:
                if x in tt:
                    tt.remove(x)
                else:
                    ok = False
                    break
            if ok:
                A[tuple(tt)] = c
            else:
                B[t] = c
        if not A or not B:
            continue
        qe, B = Expr({q: Fraction(1)}), Expr(B)
        if B.const() is not None:
            continue
        if prove_nonneg(qe - 1 - B) and prove_nonneg(qe - 1 + B):
            return ind_eq(Expr(A), ZERO) * ind_eq(B, ZERO)
    return None


def _bool_eq(d):
    """d = b + k with b a 0/1 expression (single indicator atom)"""
    k = d.terms.get((), Fraction(0))
    rest = {t: c for t, c in d.terms.items() if t}
    if len(rest) == 1:
        (t, c), = rest.items()
        if len(t) == 1 and is01(t[0]):
            # c*b + k == 0
            v = -k / c
            if v == 0:
                return ONE - atom(t[0])
            if v == 1:
                return atom(t[0])
            return ZERO
    return None


def is01(a):
    if a[0] in INDICATORS:
        return True
    if a[0] == 'fn' and (a[1].startswith('cond:') or a[1] == 'anyhit'):
        return True
    if a[0] == 'read' and a[5] and a[3] is not None and a[4] is not None:
        return a[3].const() == 0 and a[4].const() == 2
    return False


def ind_ge0(d):
    d = E(d)
    c = d.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    if is_int(d):
        if prove_nonneg(d):
            return ONE
        if prove_nonneg(-d - 1):
            return ZERO
        if len(d.terms) > 1:
            r = by_cases([d], ind_ge0)
            if r is not None:
                return r
        r = _ge_div(d)
        if r is not None:
            return r
        # orientation: of d and -d-1 exactly one has a constant >= 0
        s = _b_ge(d)
        if s is not None:
            return s
        k = d.terms.get((), Fraction(0))
        if k < 0 and -k - 1 >= 0:
            return ONE - atom(('ge', -d - 1))
        return atom(('ge', d))
    # real valued
    return ONE - ind_gt0(-d)


def _ge_div(d):
    """x div q + k >= 0  <=>  x + k*q >= 0   (q > 0)"""
    for t, c in d.terms.items():
        if len(t) != 1 or t[0][0] != 'div' or abs(c) != 1:
            continue
        a = t[0]
        k = d - Expr({t: c})
        if a in k.atoms() or not prove_nonneg(a[2] - 1) or not is_int(k):
            continue
        if c == 1:
            return ind_ge0(a[1] + k * a[2])
        return ind_ge0((k + 1) * a[2] - 1 - a[1])
    return None


def _b_ge(d):
    k = d.terms.get((), Fraction(0))
    rest = {t: c for t, c in d.terms.items() if t}
    if len(rest) == 1:
        (t, c), = rest.items()
        if len(t) == 1 and is01(t[0]):
            z, o = k >= 0, c + k >= 0
            return ind_mix(z, o, atom(t[0]))
    return None


def ind_mix(z, o, b):
    if z and o:
        return ONE
    if z:
        return ONE - b
    if o:
        return b
    return ZERO


INF_TERM = (('fn', 'const:inf', ()),)


def ind_gt0(d):
    d = E(d)
    c = d.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    if is_int(d):
        return ind_ge0(d - 1)
    # named positive parameters decide the sign
    if all(t and all(pos_atom(a) for a in t) for t in d.terms):
        if all(c > 0 for c in d.terms.values()):
            return ONE
        if all(c < 0 for c in d.terms.values()):
            return ZERO
    # every other number is finite
    inf = d.terms.get(INF_TERM)
    if inf is not None:
        return ONE if inf > 0 else ZERO
    # scale by positive constants so that d and 2d agree
    lead = max(abs(c) for c in d.terms.values())
    d = d * (1 / lead)
    return atom(('gt', d))


def pos_atom(a):
    return a[0] == 'read' and a[1].startswith('par_')


def mix(c, a, b):
    """a where the indicator c holds, else b; a choice of the larger or
    smaller of two real numbers is recognised"""
    if a == b:
        return a
    neg = False
    t = c
    if len(t.terms) == 2 and t.terms.get(()) == 1:
        t, neg = ONE - c, True
    if len(t.terms) == 1:
        (k, co), = t.terms.items()
        if co == 1 and len(k) == 1 and k[0][0] in ('gt', 'ge') and \
                not is_int(k[0][1]):
            d = k[0][1]
            x, y = (b, a) if neg else (a, b)
            e = x - y
            if len(e.terms) == len(d.terms):
                lead = max(abs(q) for q in e.terms.values())
                dl = max(abs(q) for q in d.terms.values())
                e = e * (dl / lead)
                if e == d:
                    return mk_fn('max2', [x, y])
                if e == -d:
                    return mk_fn('min2', [x, y])
    return c * a + (ONE - c) * b


def ind_not(c):
    return ONE - c


# ---------------------------------------------------------------------------
# bounds
@lru_cache(maxsize=None)
def bounds(a):
    """(lo, hi) inclusive Exprs, or None"""
    tag = a[0]
    if tag == 'sym':
        return (E(a[2]), None)
    if tag == 'var':
        return (ZERO, a[2] - 1)
    if tag in INDICATORS:
        return (ZERO, ONE)
    if tag == 'read':
        lo = a[3]
        hi = a[4] - 1 if (a[4] is not None and a[5]) else a[4]
        if lo is None and hi is None:
            return None
        return (lo, hi)
    if tag == 'sum':
        ok = True
        hi = ONE
        for b in a[1]:
            hi = hi * b[2]
        for f in a[2]:
            bb = bounds(f)
            if bb is None or bb[0] is None or not prove_nonneg(bb[0]):
                ok = False
            if bb is None or bb[1] is None or bb[1].const() is None:
                hi = None
            elif hi is not None:
                hi = hi * bb[1]
        if ok:
            return (ZERO, hi)
        return None
    if tag == 'mod':
        return (ZERO, a[2] - 1)
    if tag == 'div':
        return (ZERO if prove_nonneg(a[1]) else None, None)
    if tag == 'fn':
        if a[1].startswith('cond:') or a[1] == 'anyhit':
            return (ZERO, ONE)
        if a[1] in ('argmax', 'argmin') and isinstance(a[2][0], Key) and \
                len(a[2][0].binders) == 1:
            return (ZERO, a[2][0].binders[0][2] - 1)
        if a[1].startswith('bnd:') and isinstance(a[2][-1], Expr):
            return (ZERO, a[2][-1] - 1)
        if a[1] in ('abs', 'exp', 'sqrt') or a[1].startswith('h:nn:'):
            return (ZERO, None)
        if a[1] == 'max2':
            lo = [x.const() for x in a[2] if x.const() is not None]
            return (E(lo[0]), None) if lo else None
        if a[1] == 'min2':
            hi = [x.const() for x in a[2] if x.const() is not None]
            return (None, E(hi[0])) if hi else None
    return None


_pn_cache = {}


def prove_nonneg(p, depth=0):
    c = p.const()
    if c is not None:
        return c >= 0
    if depth > 12:
        return False
    k = p.key
    if k in _pn_cache:
        return _pn_cache[k]
    _pn_cache[k] = False
    r = _prove(p, depth)
    _pn_cache[k] = r
    return r


def _coeffs(p, a):
    """p as polynomial in atom a: {deg: Expr}"""
    out = {}
    for t, c in p.terms.items():
        n = t.count(a)
        rest = tuple(x for x in t if x != a)
        out.setdefault(n, {})
        out[n][rest] = out[n].get(rest, 0) + c
    return {n: Expr({t: c for t, c in d.items() if c}) for n, d in out.items()}


def _prove(p, depth):
    tops = {a for t in p.terms for a in t}
    if any(is_unk(a) for a in tops):
        return False
    nonsym = [a for a in tops if a[0] != 'sym']
    # eliminate innermost bounded atoms first
    for a in sorted(nonsym, key=lambda a: (a[0] != 'read', atom_key(a))):
        b = bounds(a)
        if b is None:
            continue
        cs = _coeffs(p, a)
        # only exact at the polynomial level if a not nested in other atoms
        hi_sign = [prove_nonneg(c, depth + 1) for n, c in cs.items() if n]
        if all(hi_sign) and b[0] is not None and prove_nonneg(b[0], depth + 1):
            q = ZERO
            for n, c in cs.items():
                q = q + c * b[0] ** n
            if prove_nonneg(q, depth + 1):
                return True
        if list(cs) and max(cs) == 1 and all(hi_sign) and b[0] is not None:
            q = cs.get(0, ZERO) + cs[1] * b[0]
            if prove_nonneg(q, depth + 1):
                return True
        if b[1] is not None:
            lo_sign = [prove_nonneg(-c, depth + 1)
                       for n, c in cs.items() if n]
            if all(lo_sign) and (max(cs) == 1 or (
                    b[0] is not None and prove_nonneg(b[0], depth + 1))):
                q = ZERO
                for n, c in cs.items():
                    q = q + c * b[1] ** n
                if prove_nonneg(q, depth + 1):
                    return True
    if not nonsym:
        q = p
        for a in sorted(tops, key=atom_key):
            cs = _coeffs(q, a)
            base = atom(a) + a[2]
            q = ZERO
            for n, c in cs.items():
                q = q + c * base ** n
        return all(c >= 0 for c in q.terms.values())
    return False


def prove_pos(p):
    return prove_nonneg(p - 1) if is_int(p) else False


# ---------------------------------------------------------------------------
# division
def exact_div(p, q):
    """p / q if exact as polynomials, else None"""
    c = q.const()
    if c is not None:
        return p * (Fraction(1) / c) if c else None
    if p.is_zero():
        return ZERO
    rem = p
    out = ZERO
    qa = sorted({a for t in q.terms for a in t}, key=atom_key)

    def order(t):
        return (tuple(t.count(a) for a in qa), len(t), term_key(t))
    qt = max(q.terms, key=order)
    qc = q.terms[qt]
    for _ in range(200):
        if rem.is_zero():
            return out
        rt = max(rem.terms, key=order)
        t = list(rt)
        for a in qt:
            if a in t:
                t.remove(a)
            else:
                return None
        m = Expr({tuple(sorted(t, key=atom_key)): rem.terms[rt] / qc})
        out = out + m
        rem = rem - m * q
    return None


def div_real(p, q):
    r = exact_div(p, q)
    if r is not None:
        return r
    if len(q.terms) == 1:
        (t, c), = q.terms.items()
        r = p * (Fraction(1) / c)
        for a in t:
            r = r * atom(('inv', atom(a)))
        return r
    return p * atom(('inv', q))


def split_by(p, q):
    """p = q*a + b with b in [0, q) provable; (a, b) or None"""
    c = q.const()
    if c == 1:
        return p, ZERO
    # greedy: terms divisible by the leading monomial of q
    a = ZERO
    b = p
    qa = {x for t in q.terms for x in t}
    if c is not None:
        hi = Expr({t: k for t, k in p.terms.items()
                   if (k / c).denominator == 1 and t})
        cand = [(hi * (Fraction(1) / c), p - hi)]
        cc = p.terms.get((), Fraction(0))
        m = cc // c
        cand = [(x + m, y - m * c) for x, y in cand] + cand + [(ZERO, p)]
    else:
        # polynomial division by q treating coefficients freely
        cand = [(ZERO, p)]
        lead = max(len(t) for t in q.terms)
        for qt in sorted((t for t in q.terms if len(t) == lead),
                         key=term_key, reverse=True)[:3]:
            qc = q.terms[qt]
            rem, out = p, ZERO
            for _ in range(50):
                pick = None
                for t in sorted(rem.terms, key=lambda t: (
                        not any(x[0] != 'sym' for x in t), term_key(t))):
                    tt = list(t)
                    ok = True
                    for x in qt:
                        if x in tt:
                            tt.remove(x)
                        else:
                            ok = False
                            break
                    if ok:
                        pick = (t, tt)
                        break
                if pick is None:
                    break
                m = Expr({tuple(sorted(pick[1], key=atom_key)):
                          rem.terms[pick[0]] / qc})
                out = out + m
                rem = rem - m * q
                cand.append((out, rem))
        cand = cand[1:] + cand[:1]
    for x, y in cand:
        if is_int(x) and prove_nonneg(y) and prove_nonneg(q - 1 - y):
            return x, y
    return None


def int_div(p, q):
    c, k = p.const(), q.const()
    if c is not None and k:
        return E(c // k)
    r = exact_div(p, q)
    if r is not None and is_int(r):
        return r
    s = split_by(p, q)
    if s is not None:
        return s[0]
    r = by_cases([p], lambda x: int_div(x, q))
    if r is not None:
        return r
    return atom(('div', p, q))


def int_mod(p, q):
    c, k = p.const(), q.const()
    if c is not None and k:
        return E(c % k)
    s = split_by(p, q)
    if s is not None:
        return s[1]
    r = exact_div(p, q)
    if r is not None and is_int(r):
        return ZERO
    r = by_cases([p], lambda x: int_mod(x, q))
    if r is not None:
        return r
    return atom(('mod', p, q))


# ---------------------------------------------------------------------------
# substitution
class ReadMap(object):
    """substitution of every read of one array by a function of its index"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __contains__(self, a):
        return a[0] == 'read' and a[1] == self.name

    def __getitem__(self, a):
        return self.fn([subst(i, self) for i in a[2]])


def touches(m, atoms):
    if isinstance(m, ReadMap):
        return any(a in m for a in atoms)
    return any(a in atoms for a in m)


def subst(e, m):
    if not m:
        return e
    if not touches(m, e.atoms()):
        return e
    out = ZERO
    for t, c in e.terms.items():
        r = E(c)
        for a in t:
            r = r * subst_atom(a, m)
        out = out + r
    return out


def subst_atom(a, m):
    if a in m:
        return m[a]
    if not touches(m, atom_atoms(a)):
        return atom(a)
    tag = a[0]
    if tag == 'read':
        return mk_read(a[1], [subst(i, m) for i in a[2]], *a[3:])
    if tag == 'eq':
        return ind_eq(subst(a[1], m), ZERO)
    if tag == 'ge':
        return ind_ge0(subst(a[1], m))
    if tag == 'gt':
        return ind_gt0(subst(a[1], m))
    if tag == 'inv':
        return div_real(ONE, subst(a[1], m))
    if tag == 'div':
        return int_div(subst(a[1], m), subst(a[2], m))
    if tag == 'mod':
        return int_mod(subst(a[1], m), subst(a[2], m))
    if tag == 'var':
        return atom(('var', a[1], subst(a[2], m)))
    if tag == 'fn':
        return mk_fn(a[1], [subst(x, m) if isinstance(x, Expr)
                            else (subst_key(x, m) if isinstance(x, Key)
                                  else x) for x in a[2]])
    if tag == 'sum':
        # capture-free: binders are fresh
        binders, body = open_sum(a)
        e = subst(body, m)
        new = []
        for b in binders:
            nb = ('var', b[1], subst(b[2], m))
            if nb != b:
                e = subst(e, {b: atom(nb)})
            new.append(nb)
        return sum_over(new, e)
    return atom(a)



def open_sum(a):
    """fresh binders and body (an Expr) of a sum atom"""
    m = {}
    bs = []
    for b in a[1]:
        nb = fresh_var(subst(b[2], m))
        m[b] = atom(nb)
        bs.append(nb)
    e = ONE
    for f in a[2]:
        e = e * subst_atom(f, m)
    return bs, e


def subst_key(k, m):
    elem, bs = k.elem, []
    m2 = {}
    for b in k.binders:
        nb = fresh_var(subst(b[2], m))
        m2[b] = atom(nb)
        bs.append(nb)
    elem = subst(subst(elem, m2), m)
    return mk_key(bs, elem)


@lru_cache(maxsize=None)
def beta(name):
    return int(name[1:].split('_')[0]) if name.startswith('β') else None


def level(atoms):
    """highest level of the binders inside; a name free in here is not
    reused"""
    n = -1
    used = set()
    for a in atoms:
        t = a[0]
        if t == 'var':
            k = beta(a[1])
            if k is not None:
                used.add(k)
        elif t == 'sum':
            for x in a[1]:
                k = beta(x[1])
                if k is not None and k > n:
                    n = k
        elif t == 'fn':
            for x in a[2]:
                if isinstance(x, Key):
                    for y in x.binders:
                        k = beta(y[1])
                        if k is not None and k > n:
                            n = k
    while n + 1 in used:
        n += 1
    return n


def mk_key(binders, elem):
    ats = set(elem.atoms())
    for b in binders:
        ats |= b[2].atoms()
    lv = level(ats) + 1
    m = {b: atom(('var', 'β%d_%d' % (lv, i), b[2]))
         for i, b in enumerate(binders)}
    new = tuple(('var', 'β%d_%d' % (lv, i), b[2])
                for i, b in enumerate(binders))
    return Key(new, subst(elem, m))


# Large closed arguments of uninterpreted functions can be named: the name
# stands for its definition (same name iff same normal form), evaluation
# looks the definition up.
LETS = {}       # name -> definition
LET_NAMES = {}  # definition -> name
NAMING = []     # non-empty: naming is on


def cells(k):
    """a canonical array cell by cell along its small constant axes"""
    small = [b for b in k.binders if b[2].const() is not None]
    n = 1
    for b in small:
        n *= int(b[2].const())
    if n > 64:
        small = [b for b in small if b[2].const() == 1]
    rest = [b for b in k.binders if b not in small]
    out = [tuple(int(b[2].const()) if b in small else '*'
                 for b in k.binders)]
    for t in itertools.product(*[range(int(b[2].const())) for b in small]):
        m = {b: E(i) for b, i in zip(small, t)}
        e = subst(k.elem, m)
        if rest:
            nb, q = [], dict()
            for b in rest:
                y = fresh_var(subst(b[2], m))
                q[b] = atom(y)
                nb.append(y)
            e = mk_key(nb, subst(e, q))
        out.append(e)
    return tuple(out)


def single_atom(e):
    if len(e.terms) != 1:
        return None
    (t, c), = e.terms.items()
    return t[0] if c == 1 and len(t) == 1 else None


def operands(x, name):
    a = single_atom(x)
    if a is not None and a[:2] == ('fn', name):
        return operands(a[2][0], name) + operands(a[2][1], name)
    return [x]


def named(x):
    if not isinstance(x, Key):
        return x
    r = NAMED.get(x)
    if r is None:
        r = NAMED[x] = named_(x)
    return r


NAMED = {}


def named_(x):
    if x.elem.poisoned() or atom_free(('fn', '', (x,))):
        return x
    return let(cells(x))


def let(d):
    if d not in LET_NAMES:
        n = 'L%d' % len(LETS)
        LETS[n] = d
        LET_NAMES[d] = n
    return LET_NAMES[d]


def name_args(args):
    args = tuple(named(x) for x in args)
    last = len(args)
    while last and isinstance(args[last - 1], Expr):
        last -= 1
    head = args[:last]
    if len(head) > 1 and not any(isinstance(x, Key) and (
            x.elem.poisoned() or atom_free(('fn', '', (x,)))) for x in head) \
            and not any(isinstance(x, Expr) and (x.poisoned() or free_vars(x))
                        for x in head):
        return (let(('args',) + head),) + args[last:]
    return args


def mk_fn(name, args):
    args = tuple(args)
    if NAMING and name.startswith(('h:', 'int:h:')):
        args = name_args(args)
    if name == 'sqrt' and isinstance(args[0], Expr):
        r = poly_sqrt(args[0])
        if r is not None:
            return r
    if name in ('max2', 'min2'):
        ops = []
        for x in args:
            for y in operands(x, name):
                if y not in ops:
                    ops.append(y)
        sg = 1 if name == 'max2' else -1
        for x in list(ops):
            if any(y is not x and prove_nonneg(sg * (y - x)) for y in ops):
                ops.remove(x)
        ops.sort(key=lambda x: x.key)
        r = ops[-1]
        for x in reversed(ops[:-1]):
            r = atom(('fn', name, (x, r)))
        return r
    if name == 'abs' and isinstance(args[0], Expr):
        if prove_nonneg(args[0]):
            return args[0]
        if prove_nonneg(-args[0]):
            return -args[0]
        if lead_negative(args[0]):
            args = (-args[0],)
    if name == 'trunc' and isinstance(args[0], Expr):
        if is_int(args[0]):
            return args[0]
        if args[0].const() is None and lead_negative(args[0]):
            return -atom(('fn', 'trunc', (-args[0],)))
    if name == 'anyhit' and args[0].const() is not None:
        return ONE if args[0].const() else ZERO
    if name in ('floor', 'ceil', 'rint') and isinstance(args[0], Expr) and \
            is_int(args[0]):
        return args[0]
    if name in ('floor', 'ceil', 'trunc', 'sign') and \
            isinstance(args[0], Expr) and args[0].const() is not None:
        import math
        c = args[0].const()
        return E(math.floor(c) if name == 'floor' else math.ceil(c)
                 if name == 'ceil' else int(c) if name == 'trunc' else
                 (c > 0) - (c < 0))
    if name in ('argmax', 'argmin', 'max', 'min') and \
            isinstance(args[0], Key):
        k = args[0]
        if not k.binders:
            return k.elem if name in ('max', 'min') else ZERO
        # terms that are the same for every cell do not affect the choice
        free, dep = {}, {}
        for t, c in k.elem.terms.items():
            ats = term_atoms(t)
            d = dep if any(b in ats for b in k.binders) or any(
                is_unk(a) for a in ats) else free
            d[t] = c
        if free:
            if not dep:
                return k.elem if name in ('max', 'min') else ZERO
            nb, m = [], {}
            for x in k.binders:
                y = fresh_var(subst(x[2], m))
                m[x] = atom(y)
                nb.append(y)
            args = (mk_key(nb, subst(Expr(dep), m)),) + args[1:]
            r = mk_fn(name, args)
            return r + Expr(free) if name in ('max', 'min') else r
        if name in ('max', 'min'):
            r = extreme(k, name)
            if r is not None:
                return r
            if NAMING and all(b[2].const() is not None for b in k.binders):
                c = cells(k)
                if len(c) <= 17 and '*' not in c[0]:
                    r = c[1]
                    for x in c[2:]:
                        r = mk_fn(name + '2', [r, x])
                    return r
    return atom(('fn', name, args))


def term_atoms(t):
    out = set()
    for a in t:
        out.add(a)
        out |= atom_atoms(a)
    return out


def extreme(k, name):
    """maximum/minimum of a few cells that are ordered provably"""
    n = 1
    for b in k.binders:
        if b[2].const() is None:
            return None
        n *= int(b[2].const())
    if not 0 < n <= 128:
        return None
    best = None
    for t in itertools.product(*[range(int(b[2].const()))
                                 for b in k.binders]):
        e = subst(k.elem, {b: E(i) for b, i in zip(k.binders, t)})
        if n > 8 and e.const() is None:
            return None
        if best is None:
            best = e
            continue
        d = e - best if name == 'max' else best - e
        if prove_nonneg(d):
            best = e
        elif not prove_nonneg(-d):
            return None
    return best


def poly_sqrt(p):
    """square root of a perfect-square polynomial with positive value"""
    if p.const() is not None:
        c = p.const()
        if c < 0:
            return None
        r = Fraction(isqrt(c.numerator), isqrt(c.denominator))
        return E(r) if r * r == c else None
    ats = sorted({a for t in p.terms for a in t}, key=atom_key)
    # try (sum c_i a_i + c0)^2
    root = {}
    for a in ats:
        c = p.terms.get((a, a))
        if c is None:
            return None
        n, d = c.numerator, c.denominator
        rn, rd = int(round(n ** .5)), int(round(d ** .5))
        if rn * rn != n or rd * rd != d:
            return None
        root[(a,)] = Fraction(rn, rd)
    c = p.terms.get((), Fraction(0))
    rn, rd = int(round(c.numerator ** .5)), int(round(c.denominator ** .5))
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    for s in (1, -1):
        d = dict(root)
        if rn:
            d[()] = s * Fraction(rn, rd)
        r = Expr(d)
        if r * r == p and prove_nonneg(r):
            return r
    return None


# ---------------------------------------------------------------------------
# sums
def solve_eq(d, bset):
    """eliminate one binder of bset by d == 0.  (binder, solution, residual
    condition) or None.  Mixed-radix equations  v + q*A == T  (0 <= v < q) are
    split into  v == T mod q  and  A == T div q."""
    simple = None
    for v in bset:
        k = d.terms.get((v,))
        if k is None or abs(k) != 1:
            continue
        others = d - Expr({(v,): k})
        if v in others.atoms():
            continue
        sol = others * (Fraction(-1) / k)
        bt = {t: c for t, c in sol.terms.items()
              if any(depends(x, b) for x in t for b in bset)}
        if bt and len(v[2].terms) > 1 and \
                not any(b in v[2].atoms() for b in bset):
            A = exact_div(-Expr(bt), v[2])
            if A is not None and is_int(A):
                T = Expr({t: c for t, c in sol.terms.items()
                          if t not in bt})
                return v, int_mod(T, v[2]), ind_eq(A, int_div(T, v[2]))
        for q in radix_candidates(sol, bset):
            qe = Expr({q: Fraction(1)})
            if not prove_nonneg(qe - v[2]):
                continue
            A, T = {}, {}
            for t, c in sol.terms.items():
                tt = list(t)
                ok = c.denominator == 1
                for x in q:
                    if x in tt:
                        tt.remove(x)
                    else:
                        ok = False
                        break
                if ok and any(x in bset for x in tt):
                    A[tuple(tt)] = -c
                else:
                    T[t] = c
            A, T = Expr(A), Expr(T)
            if any(x == v for t in A.terms for x in t):
                continue
            # v = T - q*A
            w = int_mod(T, qe)
            res = ind_eq(A, int_div(T, qe))
            if v[2] != qe:
                res = res * ind_ge0(v[2] - 1 - w)
            return v, w, res
        if simple is None:
            simple = (v, sol, ind_ge0(sol) * ind_ge0(v[2] - 1 - sol))
    return simple


def radix_candidates(sol, bset):
    out = []
    for t in sorted(sol.terms, key=term_key):
        q = tuple(x for x in t if x not in bset)
        if q and len(q) < len(t) and q not in out and \
                all(x[0] == 'sym' for x in q):
            out.append(q)
    return out


# known partitions of an index range [0, n): n -> pieces, each a tuple of
# dimensions (row-major).  Sums over [0, n) are split along the finest one.
PARTS = {}


def register_parts(size, segs):
    if size.const() is not None:
        return
    segs = [tuple(d for d in x if d != ONE) or (ONE,) for x in segs
            if not any(d == ZERO for d in x)]
    if len(segs) < 2 and (not segs or len(segs[0]) < 2):
        return
    rich = sum(10 + len(x) for x in segs)
    old = PARTS.get(size.key)
    if old is None or old[0] < rich:
        PARTS[size.key] = (rich, [tuple(x) for x in segs])


def sum_over(binders, e):
    out = ZERO
    for t, c in e.terms.items():
        out = out + sum_term(list(binders), list(t)) * c
    return out


def sum_term(binders, factors):
    # merge dependent nested sums
    bset = list(binders)
    if not bset:
        r = norm_term(factors)
        return r if isinstance(r, Expr) else Expr({r: Fraction(1)})
    changed = True
    while changed:
        changed = False
        for f in factors:
            if f[0] == 'sum' and any(depends(f, b) for b in bset):
                factors.remove(f)
                nb, body = open_sum(f)
                bset.extend(nb)
                if len(body.terms) == 1 and \
                        list(body.terms.values())[0] == 1:
                    factors.extend(next(iter(body.terms)))
                    changed = True
                    break
                for g in factors:
                    body = body * atom(g)
                return sum_over(bset, body)
    # delta elimination
    for f in factors:
        if f[0] != 'eq':
            continue
        r = solve_eq(f[1], bset)
        if r is None:
            continue
        v, sol, res = r
        if any(v in b[2].atoms() for b in bset if b != v):
            continue
        m = {v: sol}
        for g in factors:
            if g is f:
                continue
            res = res * subst_atom(g, m)
        rest = [b for b in bset if b != v]
        return sum_over(rest, res)
    # trivial binders of size 1
    for v in bset:
        if v[2].const() == 1:
            res = ONE
            for g in factors:
                res = res * subst_atom(g, {v: ZERO})
            return sum_over([b for b in bset if b != v], res)
        if v[2].const() == 0:
            return ZERO
        # small constant ranges are expanded
        if v[2].const() is not None and v[2].const() <= 8:
            acc = ZERO
            for k in range(int(v[2].const())):
                res = ONE
                for g in factors:
                    res = res * subst_atom(g, {v: E(k)})
                acc = acc + res
            return sum_over([b for b in bset if b != v], acc)
    for v in bset:
        part = PARTS.get(v[2].key) if PARTS else None
        if part is None or any(v in b[2].atoms() for b in bset):
            continue
        rest = [b for b in bset if b != v]
        out, off = ZERO, ZERO
        for seg in part[1]:
            nb = [fresh_var(d) for d in seg]
            k, n = ZERO, ONE
            for b in nb:
                k = k * b[2] + atom(b)
                n = n * b[2]
            res = ONE
            for g in factors:
                res = res * subst_atom(g, {v: off + k})
            out = out + sum_over(rest + nb, res)
            off = off + n
        return out
    # independent factors and connected components
    indep = [f for f in factors if not any(depends(f, b) for b in bset)]
    dep = [f for f in factors if f not in indep]
    comps = []
    for b in bset:
        comps.append(({b}, []))
    # connect via factors and bounds
    def find(b):
        for i, (bs, _) in enumerate(comps):
            if b in bs:
                return i
    for b in bset:
        for b2 in bset:
            if b2 != b and b2 in b[2].atoms():
                i, j = find(b), find(b2)
                if i != j:
                    comps[i] = (comps[i][0] | comps[j][0], [])
                    del comps[j]
    for f in dep:
        ids = sorted({find(b) for b in bset if depends(f, b)})
        base = ids[0]
        for j in reversed(ids[1:]):
            comps[base] = (comps[base][0] | comps[j][0],
                           comps[base][1] + comps[j][1])
            del comps[j]
        comps[base][1].append(f)
    r = norm_term(indep) if indep else ()
    out = r if isinstance(r, Expr) else Expr({r: Fraction(1)})
    for bs, fs in comps:
        r = closed_sum(bs, fs)
        if r is not None:
            out = out * r
        elif not fs:
            for b in bs:
                out = out * b[2]
        else:
            out = out * canon_sum([b for b in bset if b in bs], fs)
    return out


def closed_sum(bs, fs):
    """closed forms: counting sums over one index variable"""
    if len(bs) == 2 and len(fs) == 1 and fs[0][0] == 'ge':
        # sum_{a,b}[..] : sum one variable out first
        for v in sorted(bs, key=lambda b: b[1]):
            o = [b for b in bs if b != v]
            r = closed_sum({v}, fs)
            if r is not None:
                return sum_over(o, r)
        return None
    if len(bs) != 1:
        return None
    v, = bs
    hi = v[2]
    if fs and all(f == v for f in fs):
        n = len(fs)
        if n == 1:
            return hi * (hi - 1) * Fraction(1, 2)
        if n == 2:
            return hi * (hi - 1) * (hi * 2 - 1) * Fraction(1, 6)
        return None
    if len(fs) == 1 and fs[0][0] == 'ge':
        d = fs[0][1]
        k = d.terms.get((v,))
        if k is None or abs(k) != 1:
            return None
        rest = d - Expr({(v,): k})
        if v in rest.atoms() or not is_int(rest):
            return None
        if k == -1:
            # v <= rest : count = rest + 1 when 0 <= rest+1 <= hi
            n = rest + 1
        else:
            # v >= -rest : count = hi + rest
            n = hi + rest
        if prove_nonneg(n) and prove_nonneg(hi - n):
            return n
    return None


def f_atoms(d):
    return d.atoms()


_split_depth = [0]


def canon_sum(bs, fs):
    """canonical sum: binder order chosen by the non-indicator factors first,
    indicators re-normalised afterwards (which may split the sum)"""
    ats = set()
    for f in fs:
        ats |= atom_atoms(f)
    for b in bs:
        ats |= b[2].atoms()
    ats -= set(bs)
    lv = level(ats) + 1
    best = None
    perms = itertools.permutations(bs) if len(bs) <= 5 else [tuple(bs)]
    body = [f for f in fs if f[0] not in INDICATORS]
    inds = [f for f in fs if f[0] in INDICATORS]
    dep = any(b2 in b[2].atoms() for b in bs for b2 in bs)
    want = sorted(b[2].key for b in bs)
    for perm in perms:
        if len(bs) > 1 and not dep and [b[2].key for b in perm] != want:
            continue
        m = {}
        nb = []
        for i, b in enumerate(perm):
            hi = subst(b[2], m)
            v = ('var', 'β%d_%d' % (lv, i), hi)
            m[b] = atom(v)
            nb.append(v)
        e1 = ONE
        for f in body:
            e1 = e1 * subst_atom(f, m)
        e2 = ONE
        for f in inds:
            e2 = e2 * subst_atom(f, m)
        k = (e1.key, e2.key)
        if best is None or k < best[0]:
            best = (k, nb, e1, e2)
    _, nb, e1, e2 = best
    nb = tuple(nb)
    if not inds or len(e2.terms) == 1 or _split_depth[0] > 2:
        e = e1 * e2
        if len(e.terms) == 1:
            (t, c), = e.terms.items()
            return Expr({(('sum', nb, t),): c})
        out = ZERO
        for t, c in e.terms.items():
            out = out + Expr({(('sum', nb, t),): c})
        return out
    # the indicator part changed shape: sum the pieces separately
    fresh = {}
    fb = []
    for b in nb:
        f = fresh_var(subst(b[2], fresh))
        fresh[b] = atom(f)
        fb.append(f)
    _split_depth[0] += 1
    try:
        return sum_over(fb, subst(e1, fresh) * subst(e2, fresh))
    finally:
        _split_depth[0] -= 1


def mk_sum(var, e):
    return sum_over([var], e)


# ---------------------------------------------------------------------------
# evaluation (separation of normal forms)
class Undefined(Exception):
    pass


class Valuation(object):
    grid = None      # real inputs take only these values (forces ties)

    def __init__(self, seed, sizes=None):
        self.rnd = random.Random(seed)
        self.seed = seed
        self.sizes = sizes or {}
        self.syms = {}
        self.mem = {}
        self.memo = {}
        self.vars = {}
        self.salt = {}         # values drawn again
        self.touched = None    # set: record the values drawn

    def draw(self, key):
        if self.touched is not None:
            self.touched[key] = None
        n = self.salt.get(key)
        return random.Random("%s|%s" % (self.seed, key) if not n else
                             "%s|%s|%s" % (self.seed, key, n))

    def h(self, key):
        if key not in self.mem:
            self.mem[key] = random.Random("%s|%s" % (self.seed, key))
        return self.mem[key]


def not_selector(a):
    return not (a[0] in INDICATORS or
                (a[0] == 'fn' and a[1].startswith('cond:')))


def evaluate(e, v):
    if len(e.terms) > 1 and not v.vars:
        r = v.memo.get(e)
        if r is None:
            r = v.memo[e] = _evaluate(e, v)
        return r
    return _evaluate(e, v)


def _evaluate(e, v):
    tick()
    tot = Fraction(0)
    for t, c in e.terms.items():
        p = c
        for a in sorted(t, key=not_selector):
            p = p * eval_atom(a, v)
            if p == 0:
                break
        tot += p
    return tot


def eval_atom(a, v):
    tag = a[0]
    if tag == 'sym':
        if a[1] not in v.syms:
            r = random.Random("%s|sym|%s" % (v.seed, a[1]))
            v.syms[a[1]] = a[2] + r.randrange(0, 3)
        return v.syms[a[1]]
    if tag == 'var':
        if a[1] not in v.vars:
            raise Undefined("free var %s" % a[1])
        return v.vars[a[1]]
    if tag == 'read':
        if is_unk(a):
            raise Undefined('uninitialised memory')
        idx = tuple(evaluate(i, v) for i in a[2])
        lo = evaluate(a[3], v) if a[3] is not None else None
        hi = evaluate(a[4], v) if a[4] is not None else None
        r = v.draw("%s|%s" % (a[1], idx))
        if a[5]:
            lo = int(lo) if lo is not None else -3
            hi = int(hi) if hi is not None else lo + 7
            if hi <= lo:
                raise Undefined("empty range")
            return r.randrange(lo, hi)
        if v.grid is not None:
            val = Fraction(r.choice(v.grid))
        else:
            val = Fraction(r.randrange(-9, 10), r.choice((1, 2, 3)))
        if lo is not None and lo >= 0:
            val = abs(val) + Fraction(1, 7)
        return val
    if tag == 'eq':
        return 1 if evaluate(a[1], v) == 0 else 0
    if tag == 'ge':
        return 1 if evaluate(a[1], v) >= 0 else 0
    if tag == 'gt':
        return 1 if evaluate(a[1], v) > 0 else 0
    if tag == 'inv':
        d = evaluate(a[1], v)
        if d == 0:
            raise Undefined("division by zero")
        return 1 / Fraction(d)
    if tag in ('div', 'mod'):
        x, y = evaluate(a[1], v), evaluate(a[2], v)
        if y == 0:
            raise Undefined("division by zero")
        return x // y if tag == 'div' else x % y
    if tag == 'sum':
        if v.vars and atom_free(a):
            return eval_binders(list(a[1]), lambda: eval_prod(a[2], v), v)
        r = v.memo.get(a)
        if r is None:
            r = v.memo[a] = eval_binders(list(a[1]),
                                         lambda: eval_prod(a[2], v), v)
        return r
    if tag == 'fn':
        if v.vars and atom_free(a):
            return eval_fn(a, v)
        r = v.memo.get(a)
        if r is None:
            r = v.memo[a] = eval_fn(a, v)
        return r
    if tag == 'unk':
        raise Undefined(a[2])
    raise ValueError(a)


def eval_prod(fs, v):
    p = Fraction(1)
    for f in sorted(fs, key=not_selector):
        p = p * eval_atom(f, v)
        if p == 0:
            return p
    return p


def eval_binders(bs, f, v):
    if not bs:
        return f()
    b = bs[0]
    n = evaluate(b[2], v)
    if n > 64:
        raise Undefined("too large")
    tot = Fraction(0)
    save = v.vars.get(b[1])
    for i in range(int(n)):
        v.vars[b[1]] = i
        tot += eval_binders(bs[1:], f, v)
    if save is None:
        v.vars.pop(b[1], None)
    else:
        v.vars[b[1]] = save
    return tot


def eval_key(k, v):
    out = []

    def rec(bs):
        if not bs:
            out.append(evaluate(k.elem, v))
            return
        b = bs[0]
        n = evaluate(b[2], v)
        if n > 64:
            raise Undefined("too large")
        save = v.vars.get(b[1])
        for i in range(int(n)):
            v.vars[b[1]] = i
            rec(bs[1:])
        if save is None:
            v.vars.pop(b[1], None)
        else:
            v.vars[b[1]] = save
    rec(list(k.binders))
    return tuple(out)


def eval_let(n, v):
    if n not in v.memo:
        v.memo[n] = random.Random("%s|let|%r" % (v.seed, [
            evaluate(x, v) if isinstance(x, Expr) else
            eval_key(x, v) if isinstance(x, Key) else
            eval_let(x, v) if x in LETS else x
            for x in LETS[n]])).randrange(1 << 60)
    return v.memo[n]


def eval_fn(a, v):
    args = []
    for x in a[2]:
        if isinstance(x, Expr):
            args.append(evaluate(x, v))
        elif isinstance(x, Key):
            args.append(eval_key(x, v))
        elif x in LETS:
            args.append(eval_let(x, v))
        else:
            args.append(x)
    n = a[1]
    if n == 'max' and args[0]:
        return max(args[0])
    if n == 'min' and args[0]:
        return min(args[0])
    if n == 'argmax' and args[0]:
        return args[0].index(max(args[0]))
    if n == 'argmin' and args[0]:
        return args[0].index(min(args[0]))
    if n == 'max2':
        return max(args)
    if n == 'min2':
        return min(args)
    if n == 'abs':
        return abs(args[0])
    if n == 'sign':
        return (args[0] > 0) - (args[0] < 0)
    if n == 'trunc':
        return Fraction(int(args[0]))
    if n == 'floor':
        return Fraction(args[0].__floor__())
    if n == 'ceil':
        return Fraction(args[0].__ceil__())
    if n == 'rank':
        return args[0]
    if n == 'anyhit':
        return 1 if args[0] else 0
    if n in ('cond:any', 'cond:all') and isinstance(a[2][0], Key):
        return 1 if (any if n == 'cond:any' else all)(
            x != 0 for x in args[0]) else 0
    if n == 'affine':
        x = args[2]
        for c, r in zip(args[0], args[1]):
            x = c * x + r
        return x
    if n in ('bnd:within', 'bnd:rank') and isinstance(a[2][0], Key):
        bs = a[2][0].binders
        sizes = [int(evaluate(b[2], v)) for b in bs]
        idx = [int(x) for x in args[1:1 + len(bs)]]
        if any(not 0 <= x < n_ for x, n_ in zip(idx, sizes)):
            raise Undefined("index outside the mask")
        flat = 0
        for x, n_ in zip(idx, sizes):
            flat = flat * n_ + x
        start = 0 if n == 'bnd:rank' else flat - idx[-1]
        return sum(1 for m in args[0][start:flat] if m)
    if n == 'unique' and isinstance(a[2][0], Key):
        u = sorted(set(args[0]))
        if not 0 <= args[1] < len(u):
            raise Undefined("index outside the distinct values")
        return u[int(args[1])]
    if n == 'bnd:nunique' and isinstance(a[2][0], Key):
        return len(set(args[0]))
    if n == 'sorted':
        if len(args) != 2 or not isinstance(a[2][0], Key):
            raise Undefined("sorted")
        return sorted(args[0])[int(args[1])]
    if n in ('sqrt', 'pow', 'div0'):
        return arith(n, args)
    r = v.draw("fn|%s|%s" % (n, args))
    if n.startswith('cond:'):
        return r.randrange(0, 2)
    if n.startswith('bnd:') and isinstance(a[2][-1], Expr):
        hi = int(args[-1])
        if hi <= 0:
            raise Undefined("empty")
        return r.randrange(0, hi)
    if n.startswith('int:'):
        return r.randrange(-3, 6)
    if v.grid is not None:
        x = Fraction(r.choice(v.grid))
        return max(x, Fraction(0)) if n.startswith('h:nn:') else x
    if n.startswith('h:nn:'):
        return Fraction(max(0, r.randrange(-12, 51)), r.choice((1, 2, 3)))
    return Fraction(r.randrange(-50, 51), r.choice((1, 2, 3)))


def arith(n, args):
    """exact value of a root or power, where there is one"""
    x = Fraction(args[0])
    if n == 'pow':
        p = Fraction(args[1])
        if p.denominator == 1 and abs(p) <= 16 and (x or p >= 0):
            return x ** int(p)
        if p != Fraction(1, 2):
            raise Undefined("power")
    elif n == 'div0':
        raise Undefined("division")
    if x >= 0:
        r = Fraction(math.isqrt(x.numerator), math.isqrt(x.denominator))
        if r * r == x:
            return r
    raise Undefined("irrational")


def renorm(e):
    """rebuild every sum (partitions may have become known since)"""
    memo = {}

    def ex(e):
        out = ZERO
        for t, c in e.terms.items():
            r = E(c)
            for a in t:
                r = r * at(a)
            out = out + r
        return out

    def at(a):
        if a in memo:
            return memo[a]
        if a[0] == 'sum':
            bs, body = open_sum(a)
            r = sum_over(bs, ex(body))
        else:
            r = atom(a)
        memo[a] = r
        return r
    return ex(e)


EXACT_FNS = {'max', 'min', 'argmax', 'argmin', 'max2', 'min2', 'abs', 'sign',
             'trunc', 'floor', 'ceil', 'anyhit', 'bnd:within', 'bnd:rank', 'affine',
             'cond:any', 'cond:all'}


def opaque_fns(e):
    """function atoms the analysis knows nothing about; two different ones may
    denote the same value"""
    return {atom_key(a) for a in e.atoms() if a[0] == 'fn' and
            a[1] not in EXACT_FNS and not a[1].startswith(('h:', 'const:'))}


def compare(a, b, tries=24):
    """'equal' (proved), 'differ' (separated; with valuation), 'unknown'."""
    if a == b:
        return 'equal', None
    a, b = renorm(a), renorm(b)
    if a == b:
        return 'equal', None
    if a.poisoned() or b.poisoned():
        return 'unknown', [p[2] for p in a.poisoned() + b.poisoned()]
    if opaque_fns(a) != opaque_fns(b):
        return 'unknown', ['opaque: %s' % ', '.join(sorted(
            k[:80] for k in opaque_fns(a) ^ opaque_fns(b))[:4])]
    ok = 0
    for s in range(tries):
        v = Valuation(s)
        try:
            x, y = evaluate(a, v), evaluate(b, v)
        except Undefined:
            continue
        except RecursionError:
            continue
        if x != y:
            return 'differ', dict(seed=s, sizes=dict(v.syms),
                                  left=str(x), right=str(y))
        ok += 1
    if ok < 4:
        return 'unknown', ['not evaluable']
    return 'same', ok


# ---------------------------------------------------------------------------
def show(e, limit=600):
    if not e.terms:
        return "0"
    parts = []
    for t in sorted(e.terms, key=term_key):
        c = e.terms[t]
        s = "·".join(show_atom(a) for a in t)
        if not t:
            parts.append(str(c))
        elif c == 1:
            parts.append(s)
        elif c == -1:
            parts.append("-" + s)
        else:
            parts.append("%s·%s" % (c, s))
    r = " + ".join(parts).replace("+ -", "- ")
    return r if len(r) < limit else r[:limit] + "…"


def show_atom(a):
    tag = a[0]
    if tag in ('sym', 'var'):
        return a[1]
    if tag == 'read':
        return "%s[%s]" % (a[1], ",".join(show(i, 120) for i in a[2]))
    if tag == 'eq':
        return "[%s=0]" % show(a[1], 160)
    if tag == 'ge':
        return "[%s≥0]" % show(a[1], 160)
    if tag == 'gt':
        return "[%s>0]" % show(a[1], 160)
    if tag == 'inv':
        return "1/(%s)" % show(a[1], 160)
    if tag in ('div', 'mod'):
        return "%s(%s,%s)" % (tag, show(a[1], 100), show(a[2], 100))
    if tag == 'sum':
        return "Σ_{%s}(%s)" % (",".join("%s<%s" % (b[1], show(b[2], 60))
                                        for b in a[1]),
                               "·".join(show_atom(f) for f in a[2]))
    if tag == 'fn':
        return "%s(%s)" % (a[1], ", ".join(
            show(x, 160) if isinstance(x, Expr) else
            ("{%s}" % show(x.elem, 160) if isinstance(x, Key) else str(x))
            for x in a[2]))
    if tag == 'unk':
        return "⊤(%s)" % a[2]
    return str(a)
