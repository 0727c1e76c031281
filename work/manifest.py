"""Writes MANIFEST.json from the table of claimed checks."""
import json
PRE = 'contract-based deductive verification: every pre/postcondition of the prelude is discharged by z3 against Python semantics'
PX = ('contract-based deductive verification of the real functions: path-exhaustive symbolic execution, postconditions discharged by z3, '
      'refutations replayed on the real code')
CL = {
    'C01': ('prelude', PRE, 'proof', 'unbounded; Python semantics tables trusted'),
    'C02': ('prelude', PRE, 'proof', 'unbounded; Python semantics tables trusted'),
    'C03': ('prelude', PRE, 'proof', 'unbounded; Python semantics tables trusted'),
    'C14': ('contract', PX, 'proof', 'all contract functions; variadic constructors up to 4 arguments'),
    'C22': ('contract', PX, 'proof', 'all argument values; list conversion itself bounded by length'),
}
exec(open('/verif/work/claims.py').read())
ALL = ['C%02d' % i for i in range(1, 23)]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in ALL:
    if p in CL:
        k, tech, level, note = CL[p]
        cmd = '/opt/venv/bin/python checks/%s_check.py %s ' % (k, p)
        m['checks'].append({'property': p, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'technique': tech, 'level': level,
                            'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check under construction')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(sorted(CL))
