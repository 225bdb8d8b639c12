"""Write MANIFEST.json: a property is claimed when an obligation is registered for it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import check
sys.modules['check'] = check
check.load()

NA = {
 'C26': 'Durability under power loss and SQLite-internal corruption are decided inside the SQLite C library and the '
        'kernel; nothing in this repository\'s source determines them, so no static argument over it can.',
 'C27': 'Round trip of deflate and zstd lies in the flate2/miniz and zstd C/Rust dependencies; the code here only frames '
        'the streams (framing is decided under C05/C06).',
 'C28': 'Running time and memory are runtime quantities over SQLite, the compressors and allocators; no sound static '
        'bound is in reach. The decidable part (no allocation sized by untrusted data) is C18.',
}
TECH = {
 'cmd': 'abstract interpretation of MIR to value graphs, compared with an oracle by canonical forms and random interpretation',
}
NOTE = ('Static: the rustc MIR of the current tree is abstractly interpreted to value graphs and effect streams (library calls by '
        'contract), never executed. An obligation is discharged when the canonical forms agree, or, if they differ, by random '
        'interpretation of both graphs (probabilistic equivalence); a difference is reported with the construct. Assumes '
        'the library contracts in engine/lib.py and the oracles in engine/spec_*.py; what the engine cannot follow is recorded '
        'as undecided in the evidence, not as an alarm.')
claimed = []
for o in check.OBS:
    for p in o.props:
        if p not in claimed:
            claimed.append(p)
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
techs = {}
for o in check.OBS:
    for p in o.props:
        techs.setdefault(p, []).append(o.tech if getattr(o, 'tech', None) else TECH['cmd'])
m = {'version': 1, 'setup_cmd': 'python3 engine/extract.py /repo .build/mir.json',
     'checks': [], 'not_applicable': []}
for p in props:
    if p in claimed and p not in NA:
        ts = []
        for t in techs[p]:
            if t not in ts:
                ts.append(t)
        m['checks'].append({'property': p, 'quick_cmd': 'python3 engine/check.py %s' % p,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 engine/check.py %s' % p,
                            'evidence_file': 'evidence/%s.json' % p,
                            'technique': '; '.join(ts), 'level': 'other', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'No check is registered for it yet.')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']])
