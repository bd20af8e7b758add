"""Rewrites the generated tables of DESIGN.md: the per-check bounds and the planted changes.
usage: mkdesign.py [CATCH.txt]   (CATCH.txt: output of tools/seed.py catch, default tools/catches.txt)"""
import importlib
import json
import os
import re
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, '/repo']
titles = {}
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    titles[p['id']] = p['title']
rows = ['| id | property | cases quick / thorough | what a case is, and what counts as distinct | domain assumptions |',
        '|----|----------|------------------------|---------------------------------------------|--------------------|']
for i in sorted(titles):
    m = importlib.import_module('mon.' + i.lower())
    cell = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
    rows.append('| {} | {} | {} / {} | {} | {} |'.format(
        i, cell(titles[i]), m.CASES['quick'], m.CASES['thorough'], cell(m.RULE), cell('; '.join(getattr(m, 'ASSUMPTIONS', [])))))
caught = {}
name = sys.argv[1] if len(sys.argv) > 1 else os.path.join(here, 'tools', 'catches.txt')
if os.path.exists(name):
    for line in open(name):
        w = line.split()
        if len(w) > 2 and w[2] in ('CAUGHT', 'MISSED'):
            mon = re.search(r'witness: ([^:]+):', line)
            caught[w[0]] = (w[2], mon.group(1).strip() if mon else '')
seeds = ['| change | property | needs | caught by |', '|--------|----------|-------|-----------|']
for s in sorted(os.listdir(os.path.join(here, 'seeded'))):
    meta = json.load(open(os.path.join(here, 'seeded', s, 'meta.json')))
    c = caught.get(s)
    seeds.append('| {} | {} | {} | {} |'.format(
        s, meta['property'], ' '.join(meta['needs'].split()),
        'not run' if c is None else '{}{}'.format(meta['property'] if c[0] == 'CAUGHT' else 'MISSED',
                                                  ', monitor "%s"' % c[1] if c[1] else '')))
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()
for tag, table in (('cases', rows), ('seeds', seeds)):
    text = re.sub('(<!-- %s -->\n).*?(<!-- end %s -->)' % (tag, tag),
                  lambda m: m.group(1) + '\n'.join(table) + '\n' + m.group(2), text, flags=re.S)
open(path, 'w').write(text)
