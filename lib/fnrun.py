"""executing application jobs on the real build and validating the outcomes against spec/BQN.tla"""
import os, sys, json, subprocess, tempfile, shutil, threading, time, re
import tlc
HERE = os.path.dirname(os.path.abspath(__file__))
def execute(lib, jobs, seed, nproc=8, timeout=20, pre=None):
    """run the jobs; returns a list of {outcome json: [rep pairs]} (outcome [5,sig] = the process died or hung)"""
    d = tempfile.mkdtemp(prefix='fnrun')
    res = [None]*len(jobs); errs = ['']*len(jobs)
    try:
        def run(k):
            idx = list(range(k, len(jobs), nproc))
            if not idx: return
            jf = os.path.join(d, 'j%d' % k)
            with open(jf, 'w') as f:
                for i in idx: f.write(json.dumps(jobs[i])+'\n')
            start = 0
            while start < len(idx):
                p = subprocess.Popen([sys.executable, os.path.join(HERE, 'worker.py'), lib, jf, str(start), str(seed+k)]+([pre] if pre else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                cur = [start, time.time()]
                def watch():
                    while p.poll() is None:
                        if time.time()-cur[1] > timeout: p.kill(); return
                        time.sleep(.5)
                th = threading.Thread(target=watch, daemon=True); th.start()
                done = start-1
                for line in p.stdout:
                    if line[0] == '@': cur[0] = int(line[1:]); cur[1] = time.time(); continue
                    try: i, o, e = json.loads(line)
                    except ValueError: break
                    res[idx[i]] = o; errs[idx[i]] = e; done = i
                p.wait()
                if done == len(idx)-1: return
                bad = cur[0]
                if bad <= done: bad = done+1
                res[idx[bad]] = {json.dumps([5, abs(p.returncode or 0)]): []}
                start = bad+1
        ts = [threading.Thread(target=run, args=(k,)) for k in range(nproc)]
        for t in ts: t.start()
        for t in ts: t.join()
        return res, errs
    finally: shutil.rmtree(d, ignore_errors=True)
def vdepth(v): return 1+max((vdepth(e) for e in v[2]), default=0) if v[0] == 2 else 0
def clip(o):
    """outcomes for the trace; values nested beyond what the JSON reader takes are not validated"""
    os_ = [json.loads(k) for k in o if k != '[4]']
    return [] if any(vdepth(v) > 80 for v in os_) else os_
CFG = 'INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'
def line(j, o, skip):
    if 'mod' in j: # a history: the responses of each run
        if skip: return {'h': [], 'o': []}
        os_ = [json.loads(k) for k in o]
        return {'h': j['h'], 'o': [[a] if a and isinstance(a[0], int) else a for a in os_]}
    if skip and 'p' in j: return {'p': j['p'], 'r': [], 'o': []}
    if skip: return {'t': {'k': 'p', 'n': 'rtack'}, 'w': [6], 'x': [0, 0], 'r': [], 'o': []}
    d = {'p': j['p']} if 'p' in j else {'t': {'k': 'm2', 'n': 'catch', 'f': j['t'], 'g': {'k': 'p', 'n': 'pair'}} if j.get('c') else j['t'], 'w': j['w'], 'x': j['x']}
    if 'r' in j:
        d['r'] = j['r']; os_ = [json.loads(k) for k in o]
        # [5,..]: the process died; [4]: not available in this build
        os_ = [[a, []] if isinstance(a[0], int) else a for a in os_]
        d['o'] = [] if any(vdepth(a[0]) > 80 or any(vdepth(c[2]) > 80 for c in a[1]) for a in os_) else [a for a in os_ if a[0] != [4]]
    else: d['o'] = clip(o)
    return d
def validate(jobs, outs, module='TraceFn', workers=8, timeout=150):
    """check the outcomes against the specification; returns ({rejected index: ''}, tlc stats).
    A job the model checker cannot evaluate (its own arithmetic limits, or too much work) is left undecided and listed in stats['undecided']."""
    d = tempfile.mkdtemp(prefix='trace')
    undecided = set(); done = set(); rej = {}; tot = dict(states=0, distinct=0); tries = 0
    try:
        while True:
            tf = os.path.join(d, 't.ndjson')
            with open(tf, 'w') as f:
                for i, (j, o) in enumerate(zip(jobs, outs)):
                    f.write(json.dumps(line(j, o, i in undecided or i in done))+'\n')
            r = None
            try:
                r = tlc.tlc(module, CFG, env={'TRACE': tf}, workers=workers, timeout=timeout if not tries else timeout/2); out = r['out']
                if r['violated']: raise tlc.TLCError(r['out'][-3000:])
                if r['distinct'] < len(jobs): raise tlc.TLCError('only %d states\n%s' % (r['distinct'], r['out'][-3000:]))
            except (tlc.TLCTimeout, tlc.TLCError) as e: out = str(e); err = e
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+)\s*>>', out): rej[int(m.group(1))-1] = ''
            if r: break
            # an evaluation that failed or did not end: those begun and not ended are set aside, and the rest is done
            ended = {int(x)-1 for x in re.findall(r'<<"E", (\d+)>>', out)}; begun = {int(x)-1 for x in re.findall(r'<<"B", (\d+)>>', out)}
            done |= ended-undecided
            m = [int(x)-1 for x in re.findall(r'^l = (\d+)$', out, re.M)]
            stuck = {m[-1]} if m and isinstance(err, tlc.TLCError) else begun-ended if isinstance(err, tlc.TLCTimeout) else set()
            tries += 1
            if not stuck or tries > 8: raise err
            undecided |= stuck
        r['states'] += len(done); r['undecided'] = sorted(undecided)
        if len(undecided) > max(16, len(jobs)//20): raise tlc.TLCError('too many undecided: %d' % len(undecided))
        return rej, r
    finally: shutil.rmtree(d, ignore_errors=True)
