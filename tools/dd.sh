for s in "${@:2}"; do echo "##### $s"; bash /tmp/v.sh -dump -from $s -profile $1 2>&1 | grep -v '^[0-9]* t=.* \(gw\|out\|err\|by\|entry\|mark\) ' | cut -c1-260 | tail -${L:-45}; python3 -c "
import json;p=json.load(open('/tmp/d.plan'));print(p.get('faults'));print(p['opt'],p.get('procs'),p['sched'])
r=json.load(open('/tmp/d.res'));print(r['faultHit'])"; done
