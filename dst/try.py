import sys, time, json, collections
sys.path.insert(0,'/verif/dst')
import boot; sys.argv[0:1]=["x"]; boot.import_all()
import gen, profiles, run
name, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
t=time.time(); tot=collections.Counter(); nv=0; ns=0
for seed in range(a,b):
    t1=time.time()
    plan = gen.Gen(seed, profiles.P[name]).plan()
    json.dumps(plan)
    r = run.run_plan(plan)
    for k,v in r['stats'].items(): tot[k]+=v
    ns+=r['switches']
    if r['crash']:
        print(seed, 'CRASH', r['crash'][1]); break
    for v in r['violations']:
        nv+=1
        if nv<40: print(seed, v['tags'], v['maybe'], v['kind'], '|', v['detail'][:400], v['client'], v['op'])
    if r.get('dead'): break
    if time.time()-t1>2: print(seed,'slow',time.time()-t1, r['steps'])
print(name,'time',time.time()-t,'switches',ns,'viol',nv)
if len(sys.argv)>4:
    for k in sorted(tot): print('  ',k,tot[k])
