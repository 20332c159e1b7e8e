import sys; sys.path.insert(0,'/verif/vc')
import run,unit
u=[u for u in run.load(sys.argv[1]) if u.name==sys.argv[2]][0]
u.budget=float(sys.argv[4]) if len(sys.argv)>4 else u.budget
r=unit.run_unit1(u,'-v' in sys.argv,True,int(sys.argv[3]) if len(sys.argv)>3 and sys.argv[3]!='0' else None)
print(r['status'],r['detail'][:500],r['seconds'])
for l in r['loops']: print(l['loop'],l['havocked']); [print('   ',i) for i in l['invariants']]
for o in r['obligations']:
    if o['status']!='proved': print(o['status'],o['name'],o['seconds'])
