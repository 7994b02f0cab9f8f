"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symex import registry  # noqa: E402

registry.load()
TECHNIQUE = {
    'headers': 'concolic path enumeration of the Python and C++ operations '
               'with z3 deciding the region on every path',
    'binding': 'concolic path enumeration of the Python port and of the C++ '
               'binding in lockstep, z3 deciding every path and condition',
    'clip': 'concolic path enumeration of the C++ clipping functions with z3 '
            'deciding the region on every path',
    'interrupt': 'concolic path enumeration of the C++ operations with the '
                 'point of interruption a symbol and z3 deciding the region '
                 'on every path',
    'kernels': 'symbolic execution of LLVM IR and of Python source over bit '
               'vectors and floats, equivalence decided by z3',
}
LEVEL = ('Every explored path stands for all inputs sharing its decisions; '
         'what is not explored within the bounds, time and max_paths is '
         'counted in the evidence file and not claimed. Trusted: z3, '
         'CPython, the C++ compiler, the tracing number types in symex/sym.py '
         'and native/csym.hpp; floating point decisions are taken as exact '
         'unless the run shows otherwise.')
props = [json.loads(line) for line in
         open(os.path.join(HERE, 'properties.jsonl'))]
ids = {p['id'] for p in props}
assert ids == set(registry.CHECKS), ids ^ set(registry.CHECKS)
checks = []
for p in sorted(ids):
    c = registry.CHECKS[p]
    checks.append(dict(
        property=p, quick_cmd='python3-vt run.py %s' % p,
        thorough_cmd='VERIF_TIER=thorough python3-vt run.py %s' % p,
        technique=TECHNIQUE[c['build'][-1]], level='model_checking',
        level_note=LEVEL if c['build'][-1] != 'kernels' else
        'All doubles within the stated ranges, no unrolling. Trusted: z3, '
        'clang -O1 producing the LLVM IR, the translation in '
        'symex/floats.py.'))
manifest = dict(
    version=1, setup_cmd='python3-vt run.py --setup', checks=checks,
    not_applicable=[],
    notes='Builds of the C++ parts are made by every check in a temporary '
          'folder from the working tree of /repo. No hooks in /repo.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
