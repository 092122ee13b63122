import fncheck, gen_src
def alter(o, rng, j):
    """another value or output, or a text that should fail and does not"""
    q = [k for k, e in enumerate(o) if e[0] == 9] + [k for k, e in enumerate(o) if e[0] == 0 and e[2][0] != [9]]
    k = rng.choice(q)
    if o[k][0] == 9: o[k] = [0, o[k][1], [[0, 12345]]]
    else: o[k] = [0, o[k][1]+[33], o[k][2]]
    return o
def run(ctx): fncheck.histories(ctx, gen_src.gen_C15, 'TraceGrammar', gen_src.show, libs=('so', 'jitso'), alter=alter, thorough_scale=3)
