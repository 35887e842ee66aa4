"""property id -> check"""
from .base import Report, REPO
from ..project import Project


def run(prop, tier):
    f = CHECKS.get(prop)
    if f is None:
        print("unknown property %s" % prop)
        return 2
    P = Project(REPO)
    rep = Report(prop, tier)
    return f(rep, P, tier)


def _rel(name, text, assume=()):
    def check(rep, P, tier):
        from . import rel
        from .models import ALL
        cfgs = [c for c in ALL if tier != 'quick' or name != 'c04' or
                '3 labels' not in c.name]
        getattr(rel, name)(rep, P, cfgs)
        return rep.finish('proof', rel.TRUST, text, min_obl=10,
                          assumptions=assume)
    return check


def _mod(name, entry='check'):
    def check(rep, P, tier):
        import importlib
        m = importlib.import_module('pa.checks.' + name)
        return getattr(m, entry)(rep, P, tier)
    return check


CHECKS = {
    'C05': _mod('effects'),
    'C06': _mod('batch'),
    'C07': _mod('refit', 'check_params'),
    'C08': _mod('refit', 'check_refit'),
    'C22': _mod('refit', 'check_jobs'),
    'C11': _mod('margin'),
    'C12': _mod('qp'),
    'C13': _mod('predict'),
    'C14': _mod('steps'),
    'C16': _mod('latent'),
    'C17': _mod('infer'),
    'C10': _mod('names'),
    'C18': _mod('sizes'),
    'C19': _mod('saving'),
    'C20': _mod('prune'),
    'C15': _mod('train'),
    'C21': _mod('geometry'),
    'C23': _mod('maxprod'),
    'C01': _rel('c01', "Abstract interpretation of joint_feature and of the "
                "potential construction on symbolic arrays (all sizes "
                "symbolic); w.joint_feature and the score under the extracted "
                "potentials are reduced to one algebraic normal form."),
    'C02': _rel('c02', "Normal forms of (augmented - plain) potentials and of "
                "the loss."),
    'C03': _rel('c03', "Symbolic length of the extracted joint feature."),
    'C04': _rel('c04', "Normal form of the extracted loss."),
}
