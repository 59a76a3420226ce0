#!/usr/bin/env python3
# Writes MANIFEST.json from plan.py (kept so the two stay in step; not used by any check).
import json, plan
N = {
 'proof': 'Verus discharges every contract of the functions named in the evidence file (functions_under_contract) on text extracted mechanically from the current source; what is trusted or bounded only is listed there (trusted_base, functions_bounded_only). The executable contracts run on the real crate as well, to give failing inputs.',
 'exploration': 'Bounded: the executable contracts of this property run on the real crate, in a checked and an unchecked build; obligations of functions already under contract are discharged by Verus. Not a proof of the whole property.',
}
K = '; Kani proof harnesses over the full input domain for the machine-word functions'
T = {'proof': 'contract-based deductive verification (Verus on mechanically extracted source)', 'exploration': 'contract-based: executable contracts on the real code (bounded) plus Verus contracts of the functions reached'}
d = dict(version=1, setup_cmd='python3 check.py --setup',
  checks=[dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --tier thorough' % p, evidence_file='evidence/%s.json' % p,
     technique=v.get('technique', T[v['level']] + (K if v.get('kani') else '')), level=v['level'], level_note=v.get('note', N[v['level']])) for p, v in plan.PROPS.items()],
  not_applicable=[], notes='No hooks in /repo: everything is extracted from, or linked against, the unmodified crate.')
json.dump(d, open('MANIFEST.json', 'w'), indent=1)
