#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/dv', V + '/dv/contracts']
NA = json.load(open(V + '/tools/na.json'))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if os.path.exists('%s/dv/contracts/%s.py' % (V, i.lower())) and i not in NA:
        import re
        src = open('%s/dv/contracts/%s.py' % (V, i.lower())).read()
        m = re.search(r"^NOTE = '(.*)'$", src, re.M); note = m.group(1) if m else ''
        m = re.search(r"^LEVEL = '(.*)'$", src, re.M); level = m.group(1) if m else 'proof'
        checks.append(dict(property=i, quick_cmd='python3-vt dv/check.py ' + i, thorough_cmd='python3-vt dv/check.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='contract-based deductive verification of the real code (VCs from LLVM IR of /repo, z3 + cvc5)', level=level, level_note=note or 'see DESIGN.md'))
    else: na.append(dict(property=i, reason=NA.get(i, 'not yet under contract (work in progress)')))
json.dump(dict(version=1, setup_cmd='true', hooks=dict(guard='CMDR_VERIFY_HOOKS', enable='no hooks are needed: the checks compile the headers of /repo unchanged', source_commits=[]), checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
