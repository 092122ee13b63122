import fncheck, gen_rand
def alter(o, rng, j):
    """an element out of range or repeated, or another outcome for the same calls"""
    ks = [k for k, op in enumerate(j['h']) if op[0] == 'call' and op[1] > 0 and (o[k][0] == 0 or o[k][0] == 2 and len(o[k][2]) > 1 and op[2] in 'ds' or o[k][0] == 10)] or [k for k, op in enumerate(j['h']) if op[0] == 'rep' and len(o[k][1]) > 1]
    if not ks: o[0] = [9]; return o
    k = rng.choice(ks)
    if o[k][0] == 0: o[k] = [0, -1]
    elif o[k][0] == 2: o[k][2][0] = o[k][2][1]
    elif o[k][0] == 10: o[k][rng.choice([2, 9])] += 1
    elif o[k][0] == 12: del o[k][1][0][0]
    else: del o[k][1][-1]
    return o
def run(ctx): fncheck.histories(ctx, gen_rand.gen_C21, 'TraceRand', gen_rand.show, libs=('so', 'heur'), alter=alter, scale=1.5, rounds=6, thorough_scale=4)
