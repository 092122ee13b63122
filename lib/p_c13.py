import json, random
import fncheck, gen_heap, gen_mem
def alter(o, rng, j):
    ks = [k for k, op in enumerate(j['h']) if op[0] in ('gc', 'read', 'throw', 'thrb')]
    k = rng.choice(ks)
    o[k] = [0, o[k][1]+64] if j['h'][k][0] == 'gc' else [0, 77]
    return o
def alterm(o, rng, j):
    if not o: return o
    if j['h'][3] == 'leak' : o[rng.choice([2, 3])] = [0, 32] if o[0] not in ([9], [4]) and rng.random() < .5 else [0, 64]; o[0] = fncheck.corrupt(o[0], rng)
    else: o[rng.choice([1, 4, 7])] = [0, 0]
    return o
def run(ctx):
    t = ctx.thorough()
    for N, H, L in ((2, 2, 2),)+(((3, 1, 1),) if t else ()):
        fncheck.model(ctx, 'HeapGC', 'CONSTANTS N = %d HMAX = %d LEAKS = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n' % (N, H, L), what='every history of %d objects' % N)
    fncheck.histories(ctx, gen_heap.gen_C13, 'TraceHeap', gen_heap.show, libs=('so', 'gcso'), alter=alter, rounds=3)
    fncheck.histories(ctx, gen_mem.gen_C13m, 'TraceMem', gen_mem.show, libs=('so',), alter=alterm, salt=500, rounds=4)
