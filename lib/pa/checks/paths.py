"""Path-wise comparison of a method with a reference algorithm.

Both are interpreted over the same symbolic data.  Conditions that the
normal form does not settle are settled one way and then the other, the same
way in both (conditions are identified by their normal form), so every path
through the method is compared with the path the reference takes under the
same decisions.  A condition only the reference looks at is settled both
ways.  States that differ are reported only with an assignment of the inputs
under which every decision holds and the states differ."""
import random
import time
from .lw import *
from .rel import num_of
from .base import guarded
from .maxprod import GRIDS
from ..expr import Valuation, evaluate, Undefined, show, free_vars, NAMING, \
    opaque_fns


class Oracle(object):
    def __init__(self, forced=(), known=None, rnd=None, val=None):
        self.rnd = rnd
        self.val = val      # input that settles the conditions, if any
        self.forced = list(forced)
        self.dec = dict(known or {})
        self.order = []

    def __call__(self, c, node=None):
        if c.poisoned():
            raise Opaque('condition not analysed: %s (line %s)' % (
                c.poisoned()[0], getattr(node, 'lineno', '?')))
        if free_vars(c):
            return None
        n = ONE - c
        flip = n.key < c.key
        k = n if flip else c
        if k not in self.dec:
            i = len(self.order)
            v = None
            if self.val is not None:
                v = (self.forced[i] if i < len(self.forced)
                     else self.rnd.random() < .5)
                try:
                    if not steer(k, v, self.val, self.rnd):
                        v = bool(evaluate(k, self.val))
                except (Undefined, RecursionError):
                    self.val = v = None
            if v is not None:
                pass
            elif i < len(self.forced):
                v = self.forced[i]
            elif self.rnd:
                v = self.rnd.random() < .5
            else:
                v = not flip
            self.dec[k] = v
            self.order.append((k, v))
        return self.dec[k] ^ flip


def flatten(I, v):
    """nested lists of expressions and constants"""
    if isinstance(v, Num):
        return v.e
    if isinstance(v, Const):
        return ('const', v.v)
    if v is None or v is NONE:
        return ('const', None)
    if isinstance(v, Tup):
        return [flatten(I, x) for x in v.items]
    if I.is_arr(v):
        c = I.snap(v)
        idx = [sym('g%d' % i, 0) for i in range(c.ndim)]
        if c.ndim == 1 and c.axes[0].size.const() is not None and \
                c.axes[0].size.const() <= 8:
            return [c.fn([E(i)]) for i in range(int(c.axes[0].size.const()))]
        return [a.size for a in c.axes] + [c.fn(idx)]
    if I.is_list(v):
        it = I.to_items(v)
        if it is None or it[0] != 'items':
            raise Opaque('list of unknown length')
        return [flatten(I, x) for x in it[1]]
    if isinstance(v, Unk):
        return unk(v.why)
    raise Opaque('value not analysed: %r' % (v,))


def differences(a, b, where=''):
    """pairs of expressions to compare; a string when shapes differ"""
    if isinstance(a, Expr) != isinstance(b, Expr):
        e = a if isinstance(a, Expr) else b
        if e.poisoned():
            return None, [(where, e, ZERO)]
    if isinstance(a, list) != isinstance(b, list):
        return '%s has another structure' % where, []
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s has %d entries instead of %d' % (
                where, len(a), len(b)), []
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            m, o = differences(x, y, '%s[%d]' % (where, i))
            if m:
                return m, []
            out += o
        return None, out
    ca, cb = isinstance(a, tuple), isinstance(b, tuple)
    if ca and cb:
        return (None, []) if a == b else (
            '%s is %r instead of %r' % (where, a[1], b[1]), [])
    if ca or cb:
        return '%s is %s instead of %s' % (
            where, a if ca else show(a, 80), b if cb else show(b, 80)), []
    return None, ([] if a == b else [(where, a, b)])


def apart(v, pairs):
    if v is None:
        return None
    if pairs is None:
        return v, None
    for w, a, b in pairs:
        try:
            x, y = evaluate(a, v), evaluate(b, v)
        except (Undefined, RecursionError):
            continue
        if x != y and definite(a, b):
            return v, (w, x, y)
    return None


def definite(a, b):
    """both sides look at the same unknown functions, so that values that
    differ at an assignment do differ"""
    return opaque_fns(a) == opaque_fns(b)


def witness(dec, pairs, tries):
    """(valuation, pair) with all decisions true and a pair apart; None when
    no valuation separates; False when no valuation takes the path"""
    hit = False
    start = time.time()
    end = start + max(0.3, min(LIMIT, BUDGET[0]))
    try:
        return search(dec, pairs, tries, hit, end)
    finally:
        BUDGET[0] -= time.time() - start


def search(dec, pairs, tries, hit, end):
    for s in range(tries):
        if time.time() > end:
            break
        v = Valuation('p%d' % s)
        if s % 3 == 2:
            v.grid = GRIDS[(s // 3) % len(GRIDS)]
        try:
            if not all(steer(k, val, v, random.Random(s))
                       for k, val in dec):
                continue
            hit = True
            if pairs is None:
                return v, None
            for w, a, b in pairs:
                x, y = evaluate(a, v), evaluate(b, v)
                if x != y and definite(a, b):
                    return v, (w, x, y)
        except (Undefined, RecursionError):
            continue
    return None if hit else False


def steer(k, val, v, rnd):
    """make a decision come out as wanted by drawing the values again that
    only it has looked at so far"""
    if v.touched is None:
        v.touched = {}
    memo, seen = dict(v.memo), dict(v.touched)
    for r in range(30):
        try:
            if bool(evaluate(k, v)) == val:
                return True
        except Undefined:
            v.vars.clear()
        new = [t for t in v.touched if t not in seen]
        if not new:
            return False
        v.memo = dict(memo)
        v.touched = dict(seen)
        for t in new:
            if rnd.random() < .6 or len(new) == 1:
                v.salt[t] = v.salt.get(t, 0) + 1
    return False


TRIES = 1500
LIMIT = 3          # seconds per search
BUDGET = [20.]    # seconds for all searches of a process


def outcome(I, f):
    depth = len(I.stack)
    try:
        return ('ok', f())
    except RaiseEvent as e:
        del I.stack[depth:]
        I.depth = len(I.stack)
        return ('raise', e.what, getattr(e.node, 'lineno', '?'))


def explore(rep, oid, wh, setup, cap=48, seed=3, seconds=20):
    """setup() -> (W, run, ref): run() and ref() return nested states"""
    rnd = random.Random(seed)
    if not NAMING:
        NAMING.append(True)
    todo, done, bad, undec, seen = [[]], 0, 0, [], set()
    end = time.time() + seconds
    while (todo or done % 3) and done < cap and bad < 1 and (
            done < 4 or time.time() < end):
        val = None
        if done % 3:
            forced = []
            if todo and done % 3 == 2:
                forced = todo.pop(max(
                    [rnd.randrange(len(todo)) for _ in range(3)],
                    key=lambda i: len(todo[i])))
            val = Valuation('q%d.%d' % (seed, done))
            if done % 2:
                val.grid = GRIDS[(done // 2) % len(GRIDS)]
        else:
            forced = todo.pop(rnd.randrange(len(todo)) if done else 0)
        done += 1
        W, run, ref = setup()
        I = W.I
        O = I.oracle = Oracle(forced, rnd=rnd if done % 2 or val else None, val=val)
        heap = dict(I.heap)
        got = outcome(I, run)
        rep.visited(I.visited)
        vals = [v for _, v in O.order]
        if tuple(O.order) in seen:
            continue
        seen.add(tuple(O.order))
        for k in range(len(forced), len(vals)):
            todo.append(vals[:k] + [not vals[k]])
        poid = '%s:path%s' % (oid, ''.join('+' if v else '-' for v in vals))
        # the reference, under the same decisions
        ends, rt = [], [[]]
        while rt and len(ends) < 16:
            I.heap = dict(heap)
            fr = rt.pop()
            R = I.oracle = Oracle(fr, O.dec, rnd=rnd if O.val else None,
                                  val=O.val if not fr else None)
            r = outcome(I, ref)
            rv = [v for _, v in R.order]
            ends.append((R.order, r, R.val))
            if R.val is not None:
                break
            for k in range(len(R.forced), len(rv)):
                rt.append(rv[:k] + [not rv[k]])
        agree, sep = 0, []
        for extra, want, val in ends:
            if got[0] != want[0]:
                m = 'fails: %s (line %s)' % got[1:] if got[0] == 'raise' \
                    else 'does not raise %s' % want[1]
                sep.append((extra, m, None, val))
                continue
            if got[0] == 'raise':
                agree += 1
                continue
            m, pairs = differences(got[1], want[1])
            if m is None and not pairs:
                agree += 1
            else:
                sep.append((extra, m, pairs, val))
        if not sep:
            rep.proved(poid, 'same outcome as the reference')
            continue
        open_ = False
        for extra, m, pairs, val in sep:
            if m is None and any(a.poisoned() or b.poisoned()
                                 for _, a, b in pairs):
                p = [q for q in pairs if q[1].poisoned() or q[2].poisoned()]
                undec.append((poid, '%s not analysed: %s' % (
                    p[0][0], (p[0][1].poisoned() or p[0][2].poisoned())[0])))
                open_ = True
                continue
            w = apart(val, pairs if m is None else None) or witness(
                O.order + extra, pairs if m is None else None, TRIES)
            if w:
                v, d = w
                msg = m or '%s is %s, the documented algorithm gives %s' % d
                rep.violate(poid, wh, msg, dict(
                    decisions=[(show(k, 200), val) for k, val in
                               O.order + extra],
                    sizes=dict(v.syms)))
                bad += 1
                open_ = True
                break
            if w is False and not agree:
                undec.append((poid, 'no input found that takes this path'))
                open_ = True
        if not open_:
            rep.consistent(poid, 'same outcome as the reference')
    for p, t in undec[:3]:
        rep.undecided(p, t)
    return done
