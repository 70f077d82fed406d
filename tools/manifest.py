"""Write MANIFEST.json from properties.jsonl and the list of built checks in lib/main.py."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'lib', 'main.py')) as handle:
    built = dict(re.findall(r"'(P\d+)': '(a_\w+)'", handle.read()))
with open(os.path.join(HERE, 'properties.jsonl')) as handle:
    props = [json.loads(line) for line in handle]
SPEC = {'P01': 'IncarRead', 'P02': 'IncarEdit', 'P03': 'PoscarRead', 'P04': 'PoscarRead', 'P05': 'PoscarEdit',
        'P06': 'KpointsRead', 'P07': 'KpointsEdit', 'P08': 'Stream', 'P09': 'Stream', 'P10': 'Outcar', 'P11': 'Outcar',
        'P12': 'Outcar', 'P13': 'Outcar', 'P22': 'Doscar', 'P23': 'Eigenval', 'P24': 'Chgcar', 'P25': 'Potcar',
        'P26': 'Sources', 'P27': 'Coords', 'P28': 'Rewrite', 'P29': 'Given', 'P30': 'Report', 'P31': 'Threads', 'P32': 'Parts', 'P33': 'Words', 'P34': 'Faults', 'P35': 'Asking'}
checks, missing = [], []
for prop in props:
    pid = prop['id']
    if pid in built:
        spec = SPEC.get(pid, 'Vasprun')
        checks.append({
            'property': pid,
            'quick_cmd': f'./check {pid}',
            'thorough_cmd': f'VERIF_TIER=thorough ./check {pid}',
            'technique': f'TLA+ specification ({spec}.tla) explored by TLC; every explored behaviour replayed into the real code',
            'level': 'model_checking',
            'level_note': f'TLC checks the invariants of specs/{spec}.tla in every state of the bounded model and predicts the '
                          'outcome of every behaviour (all small ones exhaustively, large generated ones in docs mode); the real '
                          'code must produce the predicted outcome on each. Assurance is bounded by the constants and generators '
                          'named in DESIGN.md; the renderer, the projection and TLC are trusted.',
        })
    else:
        missing.append({'property': pid, 'reason': 'its specification is not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as handle:
    json.dump({'version': 1,
               'setup_cmd': './setup.sh',
               'checks': checks, 'not_applicable': missing,
               'notes': 'No hooks: the public API exposes all the state the specifications talk about.'}, handle, indent=1)
    handle.write('\n')
print(len(checks), 'claimed', len(missing), 'not claimed')
