"""C20: pruning keeps constraints and their bookkeeping paired."""
import itertools
from .lw import *
from .qp import mk_constraint, carr
from .rel import TRUST, definite_faults
from .base import helper, guarded

WIN = 2


def world(P, cls, win):
    W = LW(P, cls, dict(C=pos('C'), inactive_window=win,
                        inactive_threshold=1e-5))
    return W, W.I.get_attr_raw(W.obj, 'C').e


def run(rep, W, oid, f, cons, a):
    mark = len(W.I.events)
    try:
        W.call('prune_constraints', cons, a)
    except RaiseEvent as e:
        if 'AttributeError' in e.what:
            raise Opaque('internal state is named differently: ' + e.what)
        rep.violate(oid, f.qual, "pruning fails on valid input: %s (line %s)"
                    % (e.what, getattr(e.node, 'lineno', '?')))
        return False
    rep.visited(W.I.visited)
    fl = definite_faults(W, mark)
    if fl and 'attribute' in fl[0].lower():
        raise Opaque('internal state is named differently')
    if fl:
        rep.violate(oid, f.qual, "pruning fails on valid input: %s" % fl[0])
        return False
    if W.I.gap_notes:
        raise Opaque(W.I.gap_notes[0])
    return True


def refs_of(I, v):
    r = I.to_items(v)
    if r is None or r[0] != 'items':
        raise Opaque('list contents unknown')
    return r[1]


def same_refs(a, b):
    """identity of the retained entries"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.loc != y.loc:
                return False
        elif x is not y:
            return None
    return True


def n_slack(rep, P, tier):
    cls = P.cls('NSlackSSVM')
    f = helper(rep, 'NSlackSSVM.prune_constraints', cls,
               'prune_constraints', ['self', 'constraints', 'a'])
    if f is None:
        return
    # old counters of sample 0 (three constraints, the last one maybe new),
    # sample 1 empty, sample 2 one constraint
    cases = []
    for win in (WIN, 0):
        for c0 in ([0, WIN, WIN], [WIN, WIN], [0, WIN], [WIN, WIN, 0],
                       [0, WIN - 1, 0]):
            for c2 in ([WIN], []):
                for act in itertools.product((0, 1), repeat=4):
                    cases.append((win, c0, c2, act))
    if tier == 'quick':
        cases = cases[::2] + [c for c in cases[1::2] if c[0]][::2]
    for win, c0, c2, act in cases:
        oid = 'n-slack:window%d:counters%s|%s:active%s' % (
            win, c0, c2, ''.join(map(str, act)))
        guarded(rep, oid, lambda: n_one(rep, P, f, oid, win, c0, c2, act),
                f.qual)


def n_one(rep, P, f, oid, win, c0, c2, act):
    W, C = world(P, 'NSlackSSVM', win)
    I = W.I
    cs = [[mk_constraint(W, i, k, 'n')[0] for k in range(n)]
          for i, n in enumerate((3, 0, 1))]
    rows = [mk_list(I, r) for r in cs]
    cons = mk_list(I, rows)
    I.set_attr(W.obj, 'last_active', mk_list(
        I, [carr(I, c0), mk_list(I, []), carr(I, c2) if c2 else
            mk_list(I, [])]))
    if not run(rep, W, oid, f, cons, carr(I, [C * x for x in act])):
        return
    rep.rule('n-slack-pruning')
    la = refs_of(I, W.attr('last_active'))
    rr = refs_of(I, cons)
    if same_refs(rr, rows) is False or len(la) != 3:
        rep.violate(oid, f.qual, 'the per-sample lists are not kept')
        return
    k = 0
    for i, (old, n) in enumerate(zip((c0, [], c2), (3, 0, 1))):
        cnt = list(old) + [0] * (n - len(old))
        keep = []
        for j in range(n):
            if not act[k + j]:
                cnt[j] += 1
            if cnt[j] <= win or win == 0:
                keep.append(j)
        k += n
        got = refs_of(I, rows[i])
        st = same_refs(got, [cs[i][j] for j in keep])
        if not st:
            rep.violate(oid, f.qual, 'sample %d: constraints kept are not '
                        'those that were active within the window' % i)
            return
        if win == 0:
            continue
        m = I.seq_len(la[i])
        if m.const() is None:
            raise Opaque('number of counters unknown')
        if int(m.const()) != len(keep):
            rep.violate(oid, f.qual, 'sample %d keeps %d constraints but %d '
                        'counters' % (i, len(keep), int(m.const())))
            return
        for p, j in enumerate(keep):
            v = I.seq_item(la[i], E(p))
            if not isinstance(v, Num) or v.e.const() is None:
                raise Opaque('counter unknown')
            if int(v.e.const()) != cnt[j]:
                rep.violate(oid, f.qual, 'sample %d: counter at position %d '
                            'does not belong to the constraint kept there'
                            % (i, p))
                return
    rep.consistent(oid, 'pruned in lockstep')


def one_slack(rep, P, tier):
    cls = P.cls('OneSlackSSVM')
    f = helper(rep, 'OneSlackSSVM.prune_constraints', cls,
               'prune_constraints', ['self', 'constraints', 'a'])
    if f is None:
        return
    hist = [(), (0,), (1,), (1, 0, 0), (0, 1), (0, 0, 0)]
    cases = []
    for win in (WIN, 0):
        for h0, h1 in itertools.product(hist[1:], hist[1:]):
            for act in itertools.product((0, 1), repeat=3):
                if sum(act[1:]) == 0:
                    continue
                cases.append((win, h0, h1, act))
    if tier == 'quick':
        cases = cases[::3]
    for win, h0, h1, act in cases:
        oid = '1-slack:window%d:history%s|%s:active%s' % (
            win, ''.join(map(str, h0)), ''.join(map(str, h1)),
            ''.join(map(str, act)))
        guarded(rep, oid, lambda: o_one(rep, P, f, oid, win, h0, h1, act),
                f.qual)


def o_one(rep, P, f, oid, win, h0, h1, act):
    W, C = world(P, 'OneSlackSSVM', win)
    I = W.I
    cs = [mk_constraint(W, 0, k, '1')[0] for k in range(3)]
    cons = mk_list(I, cs)
    hs = [mk_list(I, [Num(C * x, 'float') for x in h]) for h in (h0, h1)]
    I.set_attr(W.obj, 'alphas', mk_list(I, hs))
    if not run(rep, W, oid, f, cons, carr(I, [C * x for x in act])):
        return
    rep.rule('one-slack-pruning')
    full = [list(h0) + [act[0]], list(h1) + [act[1]], [act[2]]]
    if win:
        keep = [j for j in range(3) if max(full[j][-win:])]
    else:
        keep = [0, 1, 2]
    got = refs_of(I, cons)
    if [id(x) for x in got] != [id(cs[j]) for j in keep]:
        rep.violate(oid, f.qual, 'constraints kept are not those that were '
                    'active within the window')
        return
    al = refs_of(I, W.attr('alphas'))
    if len(al) != len(keep):
        rep.violate(oid, f.qual, '%d constraints but %d dual histories'
                    % (len(keep), len(al)))
        return
    for p, j in enumerate(keep):
        vals = refs_of(I, al[p])
        want = [E(x) * C for x in full[j]]
        n = min(len(vals), max(win, 1))
        if not vals or any(not isinstance(v, Num) for v in vals):
            raise Opaque('dual history unknown')
        if [v.e for v in vals[-n:]] != want[-n:]:
            rep.violate(oid, f.qual, 'dual history at position %d does not '
                        'belong to the constraint kept there' % p)
            return
    rep.consistent(oid, 'pruned in lockstep')


def check(rep, P, tier):
    n_slack(rep, P, tier)
    one_slack(rep, P, tier)
    return rep.finish('other', TRUST, "Pruning is interpreted on "
                      "constraint lists with opaque contents, for every "
                      "combination of active/inactive multipliers and "
                      "bookkeeping states listed; the retained constraints "
                      "and their records are compared by identity.",
                      min_obl=30)
