"""slow.py GEN SEED [LIMIT]: which jobs of a generator are slow in TLC"""
import sys, os, json, re, time, subprocess, tempfile
sys.path.insert(0, '/verif/lib')
import gen, tlc
from bq import *
g, seed = sys.argv[1], int(sys.argv[2]); lim = float(sys.argv[3]) if len(sys.argv) > 3 else 120
jobs = getattr(gen, g)(seed)
d = tempfile.mkdtemp()
tf = d+'/t'
with open(tf, 'w') as f:
    for j in jobs: f.write(json.dumps(dict(t=j['t'], w=j['w'], x=j['x'], o=[[0, 77]]))+'\n')
src = open('/verif/spec/TraceFn.tla').read().replace('MODULE TraceFn', 'MODULE Slow').replace('Inv == l > 0 => (', 'Inv == l > 0 => PrintT(<<"S",l>>) /\\ (')
open(d+'/Slow.tla', 'w').write(src); open(d+'/m.cfg', 'w').write('INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n')
for f in os.listdir('/verif/spec'):
    if f.endswith('.tla'): os.symlink('/verif/spec/'+f, d+'/'+f)
p = subprocess.Popen(['java', '-Xss64m', '-Xmx6g', '-XX:+UseParallelGC', '-cp', tlc.CP, 'tlc2.TLC', '-workers', '1', '-noTE', '-metadir', d+'/st', '-config', d+'/m.cfg', d+'/Slow.tla'], cwd=d, env=dict(os.environ, TRACE=tf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
import threading
t0 = time.time(); cur = None; T = []
def kill(): p.kill()
th = threading.Timer(lim, kill); th.start()
for l in p.stdout:
    m = re.search(r'"S",\s*(\d+)', l)
    if m:
        now = time.time()
        if cur: T.append((now-cur[1], cur[0]))
        cur = (int(m.group(1))-1, now)
    elif 'rror' in l: print(l[:200])
th.cancel()
if cur: T.append((time.time()-cur[1], cur[0]))
T.sort(reverse=True)
print(len(T), 'of', len(jobs), 'total', sum(t for t, _ in T))
for t, i in T[:15]:
    j = jobs[i]; print('%.2f' % t, vshow(j['w'])[:60], tshow(j['t'])[:80], vshow(j['x'])[:150])
os.system('rm -rf '+d)
