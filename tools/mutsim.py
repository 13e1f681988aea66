"""Runs a few seeds of every profile until something is found (see mutate.py)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'dst'))
n = int(sys.argv[1])
sys.argv[:] = ['x']
import boot
boot.import_all()
import gen, profiles, run
for k in range(n):
    for name in sorted(profiles.P):
        if name == 'C16':            # needs matplotlib set up
            continue
        r = run.run_plan(gen.Gen(1000003 * k + hash(name[1:]) % 7, profiles.P[name]).plan())
        if r['crash']:
            print('FOUND', name, k, 'crash', str(r['crash'][1])[:150]); os._exit(0)
        for v in r['violations']:
            print('FOUND', name, k, v['tags'], v['maybe'], v['kind'], str(v['detail'])[:150].replace('\n', ' ')); os._exit(0)
        if r.get('dead'):
            print('FOUND', name, k, 'dead'); os._exit(0)
print('NOTHING')
os._exit(0)
