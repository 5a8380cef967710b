import subprocess,time,sys
from concurrent.futures import ThreadPoolExecutor
prof=sys.argv[1]; f=int(sys.argv[2]); n=int(sys.argv[3])
def one(s):
    t=time.time(); subprocess.run(["/tmp/simout/vsim","-n","1","-from",str(s),"-profile",prof],capture_output=True); return time.time()-t,s
with ThreadPoolExecutor(6) as ex:
    l=sorted(ex.map(one,range(f,f+n)),reverse=True)
print(l[:10], sum(x for x,_ in l))
