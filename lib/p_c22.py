import os, subprocess, sys
import build, fncheck, gen_ffi, gen_capi
def lib(seed):
    """the native functions of this run, compiled"""
    os.makedirs(build.BUILD, exist_ok=True); so = os.path.join(build.BUILD, 'ffi_%d.so' % seed); t = so+'.%d' % os.getpid(); c = t+'.c'
    sg = gen_ffi.sigs(seed)
    with open(c, 'w') as f: f.write(gen_ffi.csource(sg))
    p = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', t, c], text=True, capture_output=True); os.remove(c)
    if p.returncode: print(p.stderr[:3000]); sys.exit(2)
    os.replace(t, so); return sg, so
def alter(o, rng, j):
    """a byte, a value or a call changed"""
    ks = [k for k, op in enumerate(j['h']) if op[0] in ('call', 'read', 'sub', 'field', 'mem', 'def')]; k = rng.choice(ks); e = o[k]; op = j['h'][k]
    if op[0] == 'mem':
        i = rng.randrange(len(e[0])); e[0][i] ^= 1
    elif op[0] == 'def': o[k] = [0, 1] if e == [9] else [9]
    elif op[0] == 'call': e[0] = 1-e[0]
    elif e == [9]: o[k] = [0, 7]
    else: o[k] = [9]
    return o
def alterC(o, rng, j):
    """a response altered, a call of a callback lost"""
    q = [k for k, op in enumerate(j['h']) if op[0] not in ('gc', 'direct', 'mem')]; k = rng.choice(q); e = o[k]
    if e[0] and rng.random() < .5: e[0] = e[0][1:]
    else: e[1] = fncheck.corrupt(e[1], rng) if e[1][0] in (0, 1, 2, 3) else [0, 7]
    return o
def run(ctx):
    fncheck.histories(ctx, gen_capi.gen_C22c, 'TraceCapi', gen_capi.show, scale=1.0, thorough_scale=3, rounds=4, alter=alterC, salt=500)
    ctx.cov['embedding'] = {k: ctx.cov.get(k) for k in ('histories', 'operations', 'runs', 'altered_histories_rejected')}
    def gen(seed, scale):
        sg, so = lib(seed); jobs = gen_ffi.gen_C22(seed, scale, sg)
        for j in jobs: j['so'] = so
        return jobs
    fncheck.histories(ctx, gen, 'TraceFfi', gen_ffi.show, scale=1.0, thorough_scale=3, rounds=8, alter=alter)
