"""Obligations, reports, known findings, evidence."""
import json
import os
import sys
import time
import traceback

from ..expr import set_budget

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), '..', '..',
                                     '..'))
REPO = os.environ.get('PA_REPO', '/repo')


BUDGET = 150         # seconds per obligation group


class Broken(Exception):
    """an anchor the property is stated about is gone"""


class Report(object):
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obl = []            # (id, status, text)
        self.viol = []
        self.funcs = set()
        self.rules = {}
        self.notes = []
        self.assume = []
        self.known = load_known(prop)
        self.known_hit = []
        self.gone = 0            # helpers that no longer exist

    # statuses: proved / consistent / undecided / violated
    def proved(self, oid, text=''):
        self.obl.append((oid, 'proved', text))

    def consistent(self, oid, text=''):
        self.obl.append((oid, 'consistent', text))

    def undecided(self, oid, text=''):
        self.obl.append((oid, 'undecided', str(text)[:300]))

    def violate(self, oid, where, msg, detail=None):
        key = "%s|%s" % (oid, where)
        for k, text in self.known:
            if k == key or k == oid:
                self.obl.append((oid, 'known', msg))
                self.known_hit.append((k, text))
                return
        self.obl.append((oid, 'violated', msg))
        self.viol.append(dict(obligation=oid, where=where, message=msg,
                              detail=detail))

    def visited(self, quals):
        self.funcs |= set(quals)

    def rule(self, name, n=1):
        self.rules[name] = self.rules.get(name, 0) + n

    # -----------------------------------------------------------------------
    def finish(self, level, trusted, rules_text, min_obl=1, assumptions=()):
        n = len(self.obl)
        cnt = {}
        for _, s, _ in self.obl:
            cnt[s] = cnt.get(s, 0) + 1
        ev = dict(property=self.prop, tier=self.tier,
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                  level=level, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol),
                  assumptions=list(assumptions) + self.assume)
        cov = dict(
            obligations=n, discharged=cnt.get('proved', 0),
            by_status=cnt, rule=rules_text,
            rule_instances=self.rules,
            functions_analysed=len(self.funcs),
            functions=sorted(self.funcs)[:150],
            undecided=[dict(obligation=o, why=t) for o, s, t in self.obl
                       if s == 'undecided'][:60],
            sample_obligations=[dict(obligation=o, status=s, text=t[:200])
                                for o, s, t in self.obl[:25]],
            checker_cmd="python3 /verif/run.py %s --tier %s"
                        % (self.prop, self.tier),
            trusted_base=list(trusted),
            explanation=rules_text)
        if self.notes:
            cov['notes'] = self.notes[:40]
        ev['coverage'] = cov
        d = os.environ.get('PA_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        s = json.dumps(ev, indent=1)
        while len(s) > 60000 and cov['functions']:
            cov['functions'] = cov['functions'][:len(cov['functions']) // 2]
            s = json.dumps(ev, indent=1)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            f.write(s)
        print("%s: %d obligations: %s; %d functions analysed; %.1fs" % (
            self.prop, n, ", ".join("%s %s" % (v, k) for k, v in
                                    sorted(cnt.items())),
            len(self.funcs), time.time() - self.t0))
        for o, st, t in self.obl:
            if st == 'undecided':
                print("UNDECIDED %s %s" % (o, t[:160]))
        seen = set()
        for k, text in self.known_hit:
            if k not in seen:
                seen.add(k)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if self.viol:
            rd = os.path.join(d, 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(self.viol):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                with open(p, 'w') as f:
                    json.dump(v, f, indent=1, default=str)
                print("  %s: %s: %s" % (v['where'], v['obligation'],
                                        v['message']))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        if n < min_obl and not self.gone:
            print("ANALYSIS-BROKEN: %d obligations, expected at least %d"
                  % (n, min_obl))
            return 2
        dec = cnt.get('proved', 0) + cnt.get('consistent', 0) + \
            cnt.get('known', 0)
        if dec == 0 and not self.gone:
            print("ANALYSIS-BROKEN: no obligation could be decided")
            return 2
        return 0


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('KNOWN property=%s ' % prop):
                continue
            rest = line.split(' ', 2)[2]
            key, _, text = rest.partition(' :: ')
            out.append((key.strip(), text.strip()))
    return out


def helper(rep, oid, cls, name, params=None):
    """an internal method a rule is stated about; when it is gone or takes
    other arguments the rule no longer applies and is undecided"""
    f = cls.find(name) if cls else None
    if f is not None and params is not None:
        got = f.params()
        if got[:len(params)] != params and got[1:len(params)] != params[1:]:
            f = None
    if f is None:
        rep.gone += 1
        rep.undecided(oid, 'internal method %s is gone or takes other '
                      'arguments' % name)
    return f


class Shape(Exception):
    """a result definitely has the wrong shape"""


def guarded(rep, oid, f, wh='-'):
    """run one obligation; analysis failures make it undecided"""
    set_budget(BUDGET)
    t0 = time.time()
    try:
        return f()
    except Broken:
        raise
    except Shape as e:
        rep.violate(oid, wh, 'wrong shape: %s' % e)
    except RecursionError:
        rep.undecided(oid, 'recursion limit')
    except Exception as e:
        if os.environ.get('PA_DEBUG'):
            traceback.print_exc()
        rep.undecided(oid, '%s: %s' % (type(e).__name__, e))
    finally:
        if os.environ.get('PA_SLOW') and time.time() - t0 > 1:
            print('SLOW %.1f %s' % (time.time() - t0, oid))


def spread(rep, jobs, workers=None):
    """run independent obligation groups in several processes; jobs is a
    list of (id, f) where f(report) records its obligations"""
    import pickle
    import tempfile
    n = min(workers or os.cpu_count() or 1, 8, len(jobs))
    if n <= 1 or os.environ.get('PA_SERIAL'):
        for oid, f in jobs:
            f(rep)
        return
    d = tempfile.mkdtemp(prefix='pa-')
    pids = []
    sys.stdout.flush()
    rd, wr = os.pipe()      # the queue: job numbers, the last ones first
    for j in reversed(range(len(jobs))):
        os.write(wr, b'%04d' % j)
    os.close(wr)
    for k in range(n):
        pid = os.fork()
        if pid:
            pids.append(pid)
            continue
        code = 1
        try:
            out = []
            while True:
                j = os.read(rd, 4)
                if not j:
                    break
                j = int(j)
                r = Report(rep.prop, rep.tier)
                broken = None
                try:
                    jobs[j][1](r)
                except Broken as e:
                    broken = str(e)
                out.append((j, r.obl, r.viol, r.funcs, r.rules, r.known_hit,
                            r.gone, broken))
            with open(os.path.join(d, str(k)), 'wb') as f:
                pickle.dump(out, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    os.close(rd)
    for p in pids:
        os.waitpid(p, 0)
    res = {}
    for k in range(n):
        p = os.path.join(d, str(k))
        if os.path.exists(p):
            with open(p, 'rb') as f:
                for o in pickle.load(f):
                    res[o[0]] = o
            os.unlink(p)
    os.rmdir(d)
    for j, (oid, _) in enumerate(jobs):
        if j not in res:
            rep.undecided(oid, 'analysis process ended early')
            continue
        _, obl, viol, funcs, rules, hit, gone, broken = res[j]
        if broken:
            raise Broken(broken)
        rep.obl += obl
        rep.viol += viol
        rep.funcs |= funcs
        rep.known_hit += hit
        rep.gone += gone
        for r, c in rules.items():
            rep.rule(r, c)
