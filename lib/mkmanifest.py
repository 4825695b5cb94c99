#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
from conf import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(
            property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
            technique='contracts on the extracted code, discharged by Verus (SMT), units: ' + ', '.join(p['units']),
            level='proof',
            level_note=p.get('note', 'Every obligation of the contracts on the functions extracted from the current source is discharged by Verus for all inputs. '
                                     'Trusts the dependency contracts (bytes, futures, std), the extraction rules and Verus/z3. '
                                     'A search of the real code against the same statement runs beside it and supplies failing inputs; if the source leaves the '
                                     'extractable subset the search alone decides and the evidence says so.'),
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'contracts for this part are not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks are needed: functions are extracted from the source text', source_commits=[]))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
