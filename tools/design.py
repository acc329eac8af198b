#!/usr/bin/env python3
"""Writes DESIGN.md: the text of tools/design.in, and per property what properties.jsonl, the docstring of its rule module, the evidence of the
last run, known_findings.txt, seeded/ and tools/caught.json (written by tools/plant.py verify) say."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(*p):
    p = os.path.join(HERE, *p)
    return open(p, encoding='utf-8').read() if os.path.exists(p) else ''


def main():
    props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
    man = json.loads(rd('MANIFEST.json'))
    na = {x['property']: x['reason'] for x in man['not_applicable']}
    caught = json.loads(rd('tools', 'caught.json') or '{}')
    limits = {}
    for l in rd('tools', 'limits.txt').splitlines():
        m = re.match(r'(C\d\d): (.*)', l)
        if m:
            limits.setdefault(m.group(1), []).append(m.group(2))
    fixes, known = {}, {}
    for l in rd('known_findings.txt').splitlines():
        m = re.match(r'(fixed|known): property=(C\d+) (.*)', l)
        if m and m.group(1) == 'fixed':
            fixes.setdefault(m.group(2), []).append(m.group(3))
        elif m:
            known.setdefault(m.group(2), []).append((m.group(3).split(' :: ', 1)[1], m.group(3).split(' rule=')[0].replace('scenario=', '').replace('_', ' ')))
    seeds = {}
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.loads(rd('seeded', i, 'meta.json') or '{}')
        if m:
            seeds.setdefault(m['property'], []).append((i, m))
    out = []
    for p in props:
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        out.append('*' + p['statement'] + '*\n')
        if i in na:
            out.append('**Not applicable.** %s\n' % na[i])
            continue
        mod = ast.parse(rd('rules', i.lower() + '.py'))
        out.append('**How it is decided** (`rules/%s.py`). %s\n' % (i.lower(), ' '.join((ast.get_docstring(mod) or '').split())))
        out.append('**Why tests cannot.** %s. **Quantified over:** %s.\n' % (p['why_tests_cant'][0].upper() + p['why_tests_cant'][1:], p['quantifier']['text']))
        ev = json.loads(rd('evidence', i + '.json') or '{}')
        s = ev.get('summary') or ''
        if limits.get(i):
            out.append('**Left open.** ' + ' '.join(limits[i]) + '\n')
        if fixes.get(i):
            out.append('**Repaired in /repo.** ' + '; '.join('`%s` %s' % tuple(x.split(' ', 1)) for x in fixes[i]) + '.\n')
        if known.get(i):
            out.append('**Known findings.** ' + '; '.join('%s [scenario: %s]' % x for x in known[i]) + '.\n')
        if seeds.get(i):
            out.append('**Planted.** ' + '; '.join('`%s`: %s (needs: %s)%s' % (n, m['what_it_breaks'], m['needs'], '' if n not in caught else ' - **caught**, ' + caught[n] if caught[n] else ' - **missed**') for n, m in seeds[i]) + '.\n')
    t = rd('tools', 'design.in')
    n = sum(len(v) for v in seeds.values())
    t = t.replace('@PROPERTIES@', '\n'.join(out)).replace('@NSEEDS@', str(n)).replace('@NCAUGHT@', str(sum(1 for k, v in caught.items() if v)))
    t = t.replace('@NCHECKS@', str(len(man['checks']))).replace('@NFIXES@', str(sum(len(v) for v in fixes.values()))).replace('@NKNOWN@', str(sum(len(v) for v in known.values())))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write(t)


main()
