"""failing applications: those of the other generators that the implementation rejects, caught where they happen"""
import random
import gen, fnrun, build
GENS = ['C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10']
def gen_errs(seed, scale):
    rng = random.Random(seed); js = []
    for k, g in enumerate(GENS): js += getattr(gen, 'gen_'+g)(seed*31+k, .5*scale)
    js = [dict(j, n=1) for j in js]
    o, e = fnrun.execute(build.build('so'), js, seed)
    bad = [j for j, x in zip(js, o) if '[9]' in x and len(x) == 1]; good = [j for j, x in zip(js, o) if '[9]' not in x and '[4]' not in x]
    rng.shuffle(good)
    hasfn = lambda v: v[0] == 7 or v[0] == 2 and any(hasfn(e) for e in v[2])
    bad = [j for j in bad if not hasfn(j['w']) and not hasfn(j['x'])]; good = [j for j in good if not hasfn(j['w']) and not hasfn(j['x'])]
    r = [dict(j, n=3, c=1) for j in bad+good[:len(bad)//3]]; rng.shuffle(r)
    return r
