import json
from concurrent.futures import ThreadPoolExecutor
import fncheck, gen_env, sess
def alter(o, rng, j):
    """one response that cannot be: another number, a missing or made-up output, an error where there was none"""
    q = [k for k, e in enumerate(o) if e[0][0] in ('n', 'vars', 'erase')] or [k for k, e in enumerate(o) if e[0][0] in ('l', 's', 'none', 'o')] or [k for k, e in enumerate(o) if e[0][0] == 'E']
    if not q: return o
    k = rng.choice(q); e = o[k]
    if e[0][0] == 'n' and rng.random() < .6: e[0][1] += 1
    elif e[0][0] == 'vars': e[0][1] = e[0][1]+['q']
    elif e[0][0] == 'erase': e[0][1] = 1-e[0][1]
    else: e[1] = e[1]+[[111, 58, 33]]
    return o
def runner(L, jobs, seed):
    outs = [dict() for _ in jobs]
    for lib in L:
        with ThreadPoolExecutor(8) as ex:
            for o, r in zip(outs, ex.map(lambda j: sess.run(lib, j), jobs)): o.setdefault(json.dumps(r), []).append('session')
    return outs, ['']*len(jobs)
def run(ctx): fncheck.histories(ctx, gen_env.gen_C16, 'TraceEnv', gen_env.show, libs=('comp',), alter=alter, scale=4, thorough_scale=8, rounds=12, runner=runner)
