import sys,json,time; sys.path.insert(0,'/verif/lib')
import gen,build,worker,resource
resource.setrlimit(resource.RLIMIT_AS, (3<<30, 3<<30))
from bq import *
R=worker.Runner(build.build('so')); js=getattr(gen,sys.argv[1])(int(sys.argv[2]),1.0)
o=[]
for i,j in enumerate(js):
    t=time.time()
    print(i,tshow(j['t']),file=open('/tmp/slowcur','w'))
    R.job(j,i); o.append((time.time()-t,i))
o.sort(reverse=True); print(sum(a for a,_ in o))
for t,i in o[:int(sys.argv[3])]: print(round(t,3),vshow(js[i]['w'])[:60],tshow(js[i]['t']),vshow(js[i]['x'])[:100])
