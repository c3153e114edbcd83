#!/usr/bin/env python3
"""writes MANIFEST.json from the claims below"""
import json, os
TECH = 'contract-based deductive verification of the go/ssa of the real functions (own VC generator, Z3 discharges every obligation)'
TRUST = ' Trusted: go/ssa construction, the VC generator in engine/, Z3, and the assumed contracts on dependencies listed in the evidence file.'
CLAIM = {
 'C05': 'All obligations of the AppendTileLeaf/ReadTileLeaf round-trip contracts are discharged for every entry and every input, no bound on lengths other than the wire format limits in the statement.',
 'C06': 'MerkleTreeLeaf is proved equal to the RFC 6962 encoding for every entry.',
 'C11': 'Path is proved equal to the published path format for every tile, KAnonHashPath for every hash and every mask; injectivity lemmas are discharged.',
 'C19': 'MarshalExtensions/ParseExtensions contracts are discharged for every index and every extension byte string; the leaf encoders never return for an index of 2^40 or more.',
}
NA = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py')) else None
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIM:
        m['checks'].append({'property': i, 'quick_cmd': f'python3-vt check.py {i} quick', 'thorough_cmd': f'python3-vt check.py {i} thorough',
                            'evidence_file': f'evidence/{i}.json', 'technique': TECH, 'level': 'proof', 'level_note': CLAIM[i] + TRUST})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check is claimed yet')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
