# usage: dp.sh PROFILE SEED [grep]
bash /tmp/v.sh -dump -from $2 -profile $1 > /tmp/dp.txt 2>&1
python3 - <<'P'
import json
p=json.load(open('/tmp/d.plan'))
print(p['procs'],p['cli'],p['opt'],p.get('faults'),p['sched'])
def w(n,d=0):
    print(' '*d,{k:v for k,v in n.items() if k!='kids'})
    for k in n.get('kids',[]): w(k,d+2)
for s in p['suites']:
  for n in s['nodes']: w(n)
P
grep -n "enter\|exit\|fault\|fail \|ctx\| reg \|FINDING\|abort" /tmp/dp.txt | cut -c1-${W:-160} | head -${L:-80}
