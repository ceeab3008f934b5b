"""MANIFEST.json from the list of claimed checks"""
import json, os
CL = {
 'C01': ('proof', 'contract on Optimizer._setup_scenario_tree (own VC generator over the real AST, z3), all N, R, c', 'Unbounded: every horizon, robust horizon and number of combinations.'),
}
try:
    from claims import CL as C2
    CL.update(C2)
except ImportError: pass
try: from claims import NA
except ImportError: NA = {}
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
base = ' Real arithmetic instead of floating point; casadi/numpy operations by assumed contracts; the pyvc interpreter is trusted. A bounded execution of the contract on the real code runs along and supplies replays; it is not counted as proved.'
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CL:
        lv, tech, note = CL[i]
        m['checks'].append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'technique': tech, 'level': lv, 'level_note': note + base})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
