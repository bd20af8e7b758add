"""Prints the mutants of OUT.jsonl that passed the tests and the checks. usage: survivors.py OUT.jsonl [SKIP]"""
import json
import sys
import collections
rows = [json.loads(l) for l in open(sys.argv[1])]
print(collections.Counter(r['result'] for r in rows))
by = collections.Counter(r['by'] for r in rows if r['result'] == 'caught')
print(sorted(by.items()))
skip = int(sys.argv[2]) if len(sys.argv) > 2 else 0
for i, r in enumerate([r for r in rows if r['result'] == 'survived']):
    if i >= skip:
        print(i, r['file'].split('/')[-1], r['line'], r['what'], '|', r['old'].replace('\n', ' ')[:110],
              '=>', r['new'].replace('\n', ' ')[:90], ('TROUBLE %s' % r['trouble'])[:150] if r.get('trouble') else '')
