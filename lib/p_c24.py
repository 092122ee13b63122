import json
from concurrent.futures import ThreadPoolExecutor
import fncheck, gen_proc, procs
def alter(o, rng, j):
    """another status, a byte more, less or changed, or a message that was not there"""
    k = rng.choice([k for k, e in enumerate(o) if len(e) > 1 and e[0] in (0, 1) and not any(x[0] == 'a' and x[1][:1] == [45] and x[1][1:2] != [101] for x in j['h'][k][1])] or [k for k, e in enumerate(o) if len(e) > 1]); e = o[k]; z = rng.random()
    if z < .3: e[0] += 1
    elif z < .6: e[1] = e[1]+[120]
    elif z < .8 and e[1]: e[1] = e[1][1:]
    else: e[2] = e[2]+[[120]]
    return o
def runner(L, jobs, seed):
    outs = [dict() for _ in jobs]
    for lib in L:
        with ThreadPoolExecutor(8) as ex:
            for o, r in zip(outs, ex.map(lambda j: procs.run(lib, j), jobs)): o.setdefault(json.dumps(r), []).append('process')
    return outs, ['']*len(jobs)
def run(ctx): fncheck.histories(ctx, gen_proc.gen_C24, 'TraceProc', gen_proc.show, libs=('comp',), alter=alter, scale=5, thorough_scale=12, rounds=12, runner=runner)
