"""Regenerates MANIFEST.json from checks/*.py and properties.jsonl."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
 'C01': 'Decompression happens inside zlib and the brotli C extension; only ten lines of glue are Python. Symbolic execution of compiled codecs over arbitrary input is out of reach here, and stubbing them out leaves nothing of the property (their failure handling is decided under B01).',
}
checks, na = [], []
for p in props:
    f = os.path.join(here, 'checks', p['id'] + '.py')
    if os.path.exists(f) and p['id'] not in NA:
        tree = ast.parse(open(f).read())
        d = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'LEVEL_NOTE'):
                d[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(
            property=p['id'], quick_cmd='python3 run.py %s' % p['id'],
            thorough_cmd='VERIF_TIER=thorough python3 run.py %s' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=d.get('TECHNIQUE', 'symbolic execution of the real code, z3 decides every branch and assertion; counterexamples replayed'),
            level='model_checking',
            level_note=d.get('LEVEL_NOTE', 'Bounded: holds for all values within the stated bounds (see evidence coverage.bounds); trusts z3, the sx engine (validated by replaying path witnesses on the real code) and the reference model in ref/.')))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'No check has been built for this property yet.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks instrument the source at import time, outside /repo.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
