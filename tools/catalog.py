#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the entries of tools/props/*.py."""
import glob, json, os, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, man, na = [], {}, [], []
for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'props', '*.py'))):
    for p in runpy.run_path(f)['P']:
        over = p.get('over', ['inputs'])
        q = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': over, 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if 'state' in p:
            q['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        assert len(p['title']) <= 80, p['id']
        props.append(q)
        if 'na' in p:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        checks[p['id']] = {'name': p['name'], 'assumptions': p.get('assumptions', [])}
        if 'driver' in p:
            checks[p['id']]['driver'] = p['driver']
        man.append({'property': p['id'], 'quick_cmd': './check.py %s quick' % p['id'], 'thorough_cmd': './check.py %s thorough' % p['id'],
                    'technique': p.get('technique', 'TLA+ specification checked with TLC; traces of the real code validated against it by TLC'),
                    'level': 'model_checking', 'level_note': p['note']})
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids)
w = lambda n, s: open(os.path.join(HERE, n), 'w').write(s)
w('properties.jsonl', ''.join(json.dumps(p) + '\n' for p in props))
w('checks.json', json.dumps(checks, indent=1) + '\n')
w('MANIFEST.json', json.dumps({'version': 1, 'setup_cmd': './setup.sh', 'checks': man, 'not_applicable': na}, indent=1) + '\n')
print(len(props), 'properties', len(man), 'checks')
# DESIGN.md
D = open(os.path.join(HERE, 'tools', 'design_head.md')).read() + '\n## Properties\n'
for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'props', '*.py'))):
    for p in runpy.run_path(f)['P']:
        D += '\n### %s %s\n\n' % (p['id'], p['title'])
        if 'na' in p:
            D += 'Not applicable: %s\n' % p['na']
            continue
        D += 'Specification `spec/src/%s.tla`, model `%sModel`, traces `%sTrace`, driver `drivers/%s.py`.\n' % (p['name'], p['name'], p['name'], p.get('driver', p['name']).lower())
        D += 'Decided by: %s.\nExplored: %s.\n%s\n' % (p['note'].rstrip('.'), p['text'].rstrip('.'), p['why'])
        if 'limits' in p:
            D += 'Not claimed: %s\n' % p['limits']
D += '\n' + open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
D += '\n## Findings in CalebBell/fluids\n\n(from known_findings.txt)\n\n'
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.strip() and l[0] != '#':
        D += '- ' + l.strip() + '\n'
c = json.load(open(os.path.join(HERE, 'tools', 'seeds', 'catches.json')))
D += '\n## Planted changes\n\n| change | property | needs | caught |\n|---|---|---|---|\n'
for k in sorted(c):
    m = os.path.join(HERE, 'seeded', k, 'meta.json')
    if os.path.exists(m):
        m = json.load(open(m))
        how = [x.strip().split(':')[0] for x in c[k].get('how', []) if x.startswith('  ')][:2]
        D += '| %s | %s | %s | %s |\n' % (k, m['property'], m['needs'].replace('|', '/'), ('yes: ' + '; '.join(how)) if c[k].get('caught') else 'no')
w('DESIGN.md', D)
