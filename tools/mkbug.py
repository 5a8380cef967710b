#!/usr/bin/env python3
"""mkbug.py ID PROP NEEDS WHAT FILE <edits on stdin: blocks OLD\n====\nNEW separated by lines @@@@ (optionally '@@@@ FILE')>
Writes seeded/ID/patch.diff and meta.json from a scratch worktree of /repo."""
import sys,os,subprocess,json,tempfile,shutil
id,prop,needs,what,file=sys.argv[1:6]
w=tempfile.mkdtemp(prefix='mkbug',dir='/tmp')
try:
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w+'/r','HEAD'])
    r=w+'/r'
    for part in sys.stdin.read().split('@@@@'):
        head,_,rest=part.partition('\n')
        f=head.strip() or file
        old,_,new=rest.strip('\n').partition('\n====')
        new=new.lstrip('\n') if new.startswith('\n') else new
        p=os.path.join(r,f);s=open(p).read()
        assert s.count(old)==1,(f,old,s.count(old))
        open(p,'w').write(s.replace(old,new))
    d=f'/verif/seeded/{id}';os.makedirs(d,exist_ok=True)
    subprocess.run(['gofmt','-l',r+'/'+file])
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',r,'diff']).decode())
    # lines removed must be original ones
    base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD']).decode().split()[0]
    for l in subprocess.check_output(['git','-C',r,'diff','--name-only']).decode().split():
        orig=set(subprocess.run(['git','-C','/repo','show',base+':'+l],capture_output=True,text=True).stdout.split('\n'))
        for x in subprocess.check_output(['git','-C',r,'diff','-U0','--',l]).decode().split('\n'):
            if x.startswith('-') and not x.startswith('---') and x[1:] not in orig: print('NOT ORIGINAL',x)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+'/meta.json','w'),indent=1)
finally:
    subprocess.call(['git','-C','/repo','worktree','remove','--force',w+'/r']);shutil.rmtree(w,ignore_errors=True)
