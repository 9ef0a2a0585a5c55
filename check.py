#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: runs the rules of one property against /repo."""
import os, sys, json, time, importlib, traceback
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
HERE = os.path.dirname(os.path.abspath(__file__))
EVD = os.environ.get('KX_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
import kit
from kit import AnalysisBroken

def known_findings():
    d = {}
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get('status') == 'known':
                d.setdefault(e['property'], {})[e['key']] = e
    return d

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfgs = json.load(open(os.path.join(HERE, 'rules', 'index.json')))
    spec = cfgs[prop]
    os.makedirs(EVD, exist_ok=True)
    ev = os.path.join(EVD, prop + '.json')
    rep = os.path.join(EVD, prop + '.violations.txt')
    for p in (ev, rep):
        if os.path.exists(p): os.remove(p)
    global PRE
    PRE = os.path.exists(kit.KX)
    try:
        mod = importlib.import_module(spec['module'])
        res = mod.run(tier)
        floor = spec.get('floor', 1)
        if res.obligations < floor and not res.findings:
            raise AnalysisBroken('only %d obligations found, %d confirmed by hand' % (res.obligations, floor))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % prop)
        sys.exit(2)
    known = known_findings().get(prop, {})
    new = [f for f in res.findings if f.key not in known]
    old = [f for f in res.findings if f.key in known]
    level = spec.get('level', 'proof')
    cov = dict(res.info)
    cov['extractor_prebuilt'] = PRE
    cov['rules'] = spec.get('rules', '')
    cov['undecided'] = res.undecided[:50]
    cov['samples'] = res.samples
    cmd = 'python3 check.py %s --tier %s' % (prop, tier)
    cov.update(obligations=res.obligations, discharged=res.discharged, checker_cmd=cmd,
               trusted_base=spec.get('trusted', ['clang 18 front end and CFG builder', 'engine/kx.cc (fact extractor)', 'rules/%s.py' % spec['module']]))
    if level != 'proof':
        cov['explanation'] = spec.get('explanation', '') + ' This run: %d obligations over %s; %d discharged, %d violated, %d left undecided.' % (
            res.obligations, ', '.join('%s=%s' % (k, v) for k, v in res.info.items() if isinstance(v, int)), res.discharged, len(res.findings), len(res.undecided))
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': spec.get('assumptions', []) + res.assumptions,
               'wall_s': round(time.time() - t0, 2), 'violations': len(new)}, open(ev, 'w'), indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, f.where, known[f.key].get('what', f.msg)))
    print('%s: %d obligations, %d discharged, %d undecided, %.1f s, prebuilt=%s' % (prop, res.obligations, res.discharged, len(res.undecided), time.time() - t0, PRE))
    if new:
        with open(rep, 'w') as fh:
            for f in new:
                fh.write('%s\t%s\n\trule instance: %s\n' % (f.where, f.msg, f.key))
        for f in new:
            print('%s: %s  [%s]' % (f.where, f.msg, f.key))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        sys.exit(1)
    sys.exit(0)

main()
