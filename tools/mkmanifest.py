#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed are the properties that have a check in checks/ and an entry here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-sensitive abstract interpretation of the syntax tree'
TECH = {
 'M01': AI + ': accepting exits with a required parameter absent or empty',
 'M02': AI + ': accepting exits with a value outside the evaluated vocabulary',
 'M03': AI + ': call-graph flags of inherited and nested verification on accepting exits',
 'M04': AI + ': type facts of stored values for each declaration and value kind',
 'J01': AI + ': signature flags on decoded token content',
 'J02': AI + ': accepting exits under a violated algorithm or issuer rule',
 'J03': AI + ': accepting exits under a violated audience or issuer rule',
 'J04': AI + ': accepting exits against linear time bounds',
 'J05': AI + ': accepting exits under a violated hash rule',
 'J06': AI + ': term comparison of what reaches the signer',
 'J07': AI + ': accepting and refusing exits against linear time bounds',
 'J08': AI + ': accepting exits under a violated logout token rule',
 'J09': AI + ': provenance of what is stored in verified-token slots',
}
NOTE = ('Static: the source is interpreted abstractly on every run, nothing of it is executed. Holds for every input within the abstract '
        'semantics of DESIGN.md (Python subset, models of cryptojwt and of the standard library, times as integers); undecided obligations are listed in the evidence.')
NA = {
 'N01': 'Equality of a value with the result of encoding and decoding it depends on run-time text (json, urllib, user strings) that no abstract domain here bounds; the static half (one declaration per name, matching codec pairs) is M08 and M09.',
 'N02': 'Calendar arithmetic over unbounded integers and months of different length: needs arithmetic reasoning about modulo and carries, which is solver or test territory, not a source-level analysis.',
 'N03': 'Linearizability and crash atomicity quantify over interleavings and crash points of the operating system; static analysis decides the locking discipline (S02) and cache rules (S03) but not the histories.',
 'N04': 'Cryptographic strength is a property of cryptojwt and of mathematics outside this repository.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
exec(open(os.path.join(V, 'tools', 'tech.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'tech.py')) else None
for p in props:
    i = p['id']
    if i in TECH and os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': TECH[i], 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet for this property')})
m = {'version': 1, 'setup_cmd': 'python3 --version', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python 3.12 standard library; no hooks in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
