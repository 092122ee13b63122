import os, subprocess, sys
import build, fncheck, gen_sh
def alter(o, rng, j):
    """another exit code, bytes lost or exchanged, a descriptor or a process left"""
    k = rng.choice([k for k, op in enumerate(j['h']) if op[0] == 'sh'] or [0]); e = o[k]; z = rng.random(); q = [i for i in (1, 2, 3) if i < len(e)-1 and e[i]]
    if z < .3 or not q: e[0] += 1
    elif z < .5: e[-1][rng.randrange(3)] += 1
    elif z < .8: i = rng.choice(q); e[i][-1][2] -= 1
    else: i = rng.choice(q); e[i][0][1] += 1
    return o
def run(ctx):
    os.makedirs(build.BUILD, exist_ok=True); kid = os.path.join(build.BUILD, 'kid')
    p = subprocess.run(['gcc', '-O2', '-o', kid+'.%d' % os.getpid(), os.path.join(os.path.dirname(os.path.abspath(__file__)), 'kid.c')], text=True, capture_output=True)
    if p.returncode: print(p.stderr); sys.exit(2)
    os.replace(kid+'.%d' % os.getpid(), kid)
    t = ctx.thorough()
    fncheck.model(ctx, 'Pipe', 'CONSTANTS CAP = 2 MAXLEN = 2 AMTS = {1,3} INPUTS = {0,1,3,5} OLD = FALSE\nSPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Ends_\n', what='every interleaving of a process and its caller, scripts up to 2 steps')
    fncheck.model(ctx, 'Pipe', 'CONSTANTS CAP = 1 MAXLEN = 3 AMTS = {1} INPUTS = {%s} OLD = FALSE\nSPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Ends_\n' % ('0,1,3' if t else '3'), what='scripts up to 3 steps')
    fncheck.histories(ctx, gen_sh.gen_C23, 'TracePipe', gen_sh.show, scale=1.6, thorough_scale=4, rounds=8, alter=alter, timeout=40)
