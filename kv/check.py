"""python3 -m kv.check <property> [--tier quick|thorough] : analyse /repo's current source and decide one property."""
import argparse
import importlib
import json
import os
import resource
import sys
import time
import threading
from .terms import DEADLINE
from .checker import Checker, VERIF, REPO, EQ, DIFF, UNDEC
from . import rules as _rules

RULES = {}


def load_rules():
    import pkgutil
    for m in pkgutil.iter_modules(_rules.__path__):
        mod = importlib.import_module('kv.rules.' + m.name)
        for pid, f in getattr(mod, 'RULES', {}).items():
            RULES[pid] = f


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = json.loads(line[len('finding:'):])
                if d['property'] == pid:
                    out.append(d)
    return out


def run(pid, tier, seed, quiet=False, write=True):
    t0 = time.time()
    ck = Checker(pid, tier, seed)
    f = RULES[pid]
    ck.rule_text = ' '.join((f.__doc__ or '').split())
    f(ck)
    n = ck.summary()
    known = known_findings(pid)
    viol = []
    for o in ck.obs:
        if o['verdict'] == DIFF:
            k = next((k for k in known if k['where'] in o['where'] and k['name'] == o['name']
                      and k.get('config', '') in o['config']), None)
            if k is not None:
                o['known'] = k['what']
            else:
                viol.append(o)
    wall = time.time() - t0
    code = 0
    for what in sorted({o['known'] for o in ck.obs if 'known' in o}):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if viol:
        code = 1
    elif n[EQ] == 0:
        code = 2
    rp = os.path.join(VERIF, 'replay', '%s.json' % pid)
    if write:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        if viol:
            with open(rp, 'w') as fh:
                json.dump(dict(property=pid, command='python3 -m kv.check %s' % pid, repo=REPO, violations=viol), fh, indent=1)
        ev = dict(property=pid, tier=tier, seed=seed, level='other',
                  coverage=dict(
                      explanation=ck.rule_text,
                      obligations=len(ck.obs), discharged=n[EQ], undecided=n[UNDEC],
                      discharged_by=tally(o['how'].split(' (')[0] for o in ck.obs if o['verdict'] == EQ),
                      configurations=ck.configs, abstract_runs=ck.C.runs,
                      functions_analysed=sorted(str(x) for x in ck.C.funcs),
                      undecided_obligations=[dict(name=o['name'], config=o['config'], where=o['where'], why=o['how']) for o in ck.obs if o['verdict'] == UNDEC][:40],
                      samples=[dict(name=o['name'], config=o['config'], where=o['where'], verdict=o['verdict'], how=o['how']) for o in ck.obs[:6]]),
                  assumptions=['numpy/scipy/ase/pymatgen/MDAnalysis/emcee/h5py/uravu operations behave as modelled in kv/npmodel.py and kv/extmodel.py',
                               'real arithmetic: rounding is not modelled',
                               'terms that are not canonically equal are compared by random interpretation of the terms'],
                  wall_s=round(wall, 2), violations=len(viol))
        with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w') as fh:
            json.dump(ev, fh, indent=1)
    if not quiet:
        for o in ck.obs:
            if o['verdict'] == UNDEC:
                print('UNDECIDED %s [%s] %s: %s' % (o['where'], o['config'], o['name'], o['how']))
        for o in viol[:12]:
            print('violated: %s [%s] %s\n  computed: %s\n  required: %s\n  %s' % (o['where'], o['config'], o['name'], o['got'], o['want'], o['witness']))
        print('%s: %d obligations in %d configurations, %d hold, %d violated, %d undecided; %d functions analysed; %.1f s'
              % (pid, len(ck.obs), ck.configs, n[EQ], n[DIFF], n[UNDEC], len(ck.C.funcs), wall))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    return code, ck


def tally(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='+')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    # a run gives up (undecided) rather than exhaust time or memory
    resource.setrlimit(resource.RLIMIT_AS, (12 * 2**30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    load_rules()
    code = 0
    pids = sorted(RULES) if a.property == ['all'] else a.property
    for pid in pids:
        if pid not in RULES:
            print('unknown property %s' % pid)
            code = 2
            continue
        DEADLINE[0] = time.time() + (760 if a.tier != 'thorough' else 3000)
        c, _ = run(pid, a.tier if a.tier in ('quick', 'thorough') else 'quick', seed)
        code = c if c == 1 or code == 0 else code
    out[0] = code


out = [2]
if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(out[0])
