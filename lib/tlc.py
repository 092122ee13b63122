"""running TLC"""
import subprocess, os, re, tempfile, shutil, time
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
class TLCError(Exception): pass
class TLCTimeout(Exception): pass
def tlc(module, cfg, env=None, workers=8, timeout=850, extra=(), heap='6g'):
    """run TLC on SPEC/module.tla with the given config text; returns dict(states, distinct, out, violated)"""
    d = tempfile.mkdtemp(prefix='tlc')
    try:
        c = os.path.join(d, 'm.cfg')
        with open(c, 'w') as f: f.write(cfg)
        cmd = ['java', '-Xss64m', '-Xmx'+heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Djava.io.tmpdir='+d, '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-noTE',
               '-metadir', os.path.join(d, 'st'), '-config', c, *extra, os.path.join(SPEC, module+'.tla')]
        t0 = time.time()
        of = os.path.join(d, 'out')
        with open(of, 'w') as o:
            try: subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired: raise TLCTimeout(open(of, errors='replace').read())
        out = open(of, errors='replace').read()
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        st, di = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        ok = 'No error has been found' in out or 'Finished in' in out and 'Error:' not in out
        viol = 'is violated' in out or 'Deadlock reached' in out or 'violated.' in out
        if not ok and not viol: raise TLCError(out[-6000:])
        return dict(states=st, distinct=di, out=out, violated=viol, wall=time.time()-t0)
    finally: shutil.rmtree(d, ignore_errors=True)
