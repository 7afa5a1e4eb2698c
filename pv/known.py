"""/verif/known_findings.txt: one finding per line.

  finding: property=<id> at=<anchor> rule=<obligation or rule> <what fails>
  fixed: property=<id> <commit> <what failed>          (suppresses nothing)
"""
import os


def load(here):
    out = []
    p = os.path.join(here, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        if line.startswith('finding:'):
            w = line.split()
            d = dict(x.split('=', 1) for x in w[1:4])
            out.append((d.get('property'), d.get('at'), d.get('rule'), ' '.join(w[4:])))
    return out


def match(kf, prop, v):
    for p, at, rule, what in kf:
        if p == prop and at == v['anchor'] and rule == v['id']:
            return what
    return None
