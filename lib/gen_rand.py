"""histories of calls of random generators"""
import random
from bq import *
def hist(r):
    seeds = r.sample([num(0), num(1), num(2), num(-1), num(.5), num(2**40+1), num(1e300), num(123456)], r.choice([2, 2, 3]))
    def call():
        q = r.random(); nat = lambda: num(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000]))
        bad = lambda: r.choice([num(-1), num(-3), num(.5), num(2.25), ch(97), lst([num(1), num(2)]), num(-1e10)])
        mx = lambda: num(r.choice([0, 0, 1, 2, 2, 3, 5, 6, 7, 8, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 2**15-1, 2**15, 2**15+1, 2**16, 10**6, 2**30, 2**31-1, 2**31, 2**31+1, 2**32, 2**40+3, 2**52, 2**53-1]))
        if q < .2: return ['r', NOW, mx()]
        if q < .28: return ['r', NOW, num(r.choice([2**52, 2**53-1, 2**50+7]))]
        if q < .45: return ['r', r.choice([nat, nat, lambda: lst([nat()]), lambda: lst([num(r.choice([0, 1, 2, 3, 5])) for _ in range(r.choice([0, 2, 2, 3, 4]))])])(), mx()]
        if q < .5: return ['r', num(r.choice([301, 1000, 3000])), mx()]
        if q < .6: return ['d', NOW, nat()]
        if q < .7: a = nat(); return ['d', num(r.choice([0, 1, a[1]//65, a[1]//64, a[1]//2, a[1]-1, a[1], a[1]+1, r.randint(0, a[1]+1)])), a]
        if q < .75: a = num(r.choice([2000, 20000, 32768, 32769, 100000])); return ['d', num(r.choice([2, 10, a[1]//64-1, a[1]//65, a[1]//64, 300])), a]
        if q < .85: a = nat(); return ['s', num(r.choice([0, 1, a[1]//8, a[1]//8+1, a[1]//2, a[1]//2+1, a[1]-1, a[1], a[1]+1, r.randint(0, a[1]+1)])), a]
        if q < .89: a = num(r.choice([2000, 32768, 32769, 10**6, 2**30])); return ['s', num(r.choice([1, 2, 10, 200]+([a[1]//8, a[1]//8+1, a[1]-3] if a[1] < 40000 else []))), a]
        if q < .9: a = num(r.choice([32769, 40000, 50000, 65535, 65536, 65537, 10**5])); return ['s', num(r.choice([50, 300, a[1]//9, 1000])), a] # results need two or four bytes
        if q < .93: return [r.choice('rds'), bad(), nat()]
        if q < .97: return [r.choice('rds'), r.choice([nat(), NOW]), bad()]
        return ['s', NOW, nat()]
    scripts = [[call() for _ in range(r.choice([3, 6, 10]))] for _ in seeds]
    gens = []  # (seed index, next)
    h = []
    def mk(s): h.append(['mk', seeds[s]]); gens.append([s, 0])
    for s in range(len(seeds)): mk(s)
    for _ in range(r.choice([1, 2])): mk(r.randrange(len(seeds)))
    if r.random() < .1: h.append(['mk', r.choice([ch(97), lst([]), lst([num(1)])])]); gens.append(None)
    while True:
        live = [i for i, g in enumerate(gens) if g and g[1] < len(scripts[g[0]])]
        if not live: break
        i = r.choice(live); g = gens[i]; h.append(['call', i+1, *scripts[g[0]][g[1]]]); g[1] += 1
        if r.random() < .08: h.append(['other', r.randrange(3)])
        if r.random() < .1: h.append(['call', 0, *call()])
        if r.random() < .03 and len(gens) < 8: mk(r.randrange(len(seeds)))
    return h
# every permitted outcome occurs: small ranges, deals and subsets many times over
MANY = [['r', NOW, num(2), 200, 0], ['r', NOW, num(3), 300, 0], ['r', NOW, num(7), 500, 0], ['r', NOW, num(12), 800, 0], ['r', NOW, num(1), 50, 0], ['r', num(1), num(8), 600, 0], ['r', num(2), num(3), 700, 0], ['r', num(3), num(2), 500, 0], ['r', lst([num(2), num(1)]), num(4), 900, 0],
        ['r', num(4), num(130), 6500, 1], ['r', num(9), num(11), 700, 1], ['r', num(17), num(16), 900, 1], ['r', num(70), num(2), 120, 1],
        ['d', NOW, num(2), 200, 0], ['d', NOW, num(3), 400, 0], ['d', NOW, num(4), 1100, 0], ['d', NOW, num(5), 5000, 0], ['d', num(2), num(4), 600, 0], ['d', num(1), num(5), 300, 0], ['d', num(3), num(4), 1100, 0], ['d', num(1), num(64), 2900, 0],
        ['d', NOW, num(30), 1400, 1], ['d', NOW, num(130), 6500, 1], ['d', num(2), num(128), 6500, 1], ['d', num(3), num(192), 9000, 1], ['d', num(40), num(50), 2500, 1], ['d', num(5), num(9), 600, 1],
        ['s', num(1), num(3), 200, 0], ['s', num(2), num(4), 400, 0], ['s', num(2), num(5), 600, 0], ['s', num(3), num(5), 600, 0], ['s', num(4), num(6), 800, 0], ['s', num(1), num(9), 500, 0], ['s', num(2), num(16), 5500, 0], ['s', num(1), num(40), 1800, 0], ['s', num(3), num(6), 1000, 0]]
def many(r):
    h = [['mk', num(r.randint(0, 10**6))]]
    for t in r.sample(MANY, 3): h.append(['rep', 1, *t])
    return h
# long ones
LONG = [['d', NOW, num(2**19)], ['d', NOW, num(2**19+1)], ['d', NOW, num(600001)], ['d', NOW, num(2**20)], ['d', NOW, num(2**20+77)], ['d', NOW, num(40000)], ['d', num(1000), num(10**8)], ['d', num(2**16), num(2**23)], ['d', num(300000), num(600000)], ['s', num(1000), num(10**8)], ['s', num(300000), num(600000)], ['s', num(400000), num(600000)],
        ['s', num(4000), num(65536)], ['s', num(3000), num(33000)], ['s', num(10), num(128)], ['s', num(12), num(129)], ['s', num(10**5), num(10**6)], ['s', num(2**20-1), num(2**20)], ['r', num(10**6), num(0)], ['r', num(10**6), num(2)], ['r', num(10**6), num(77)], ['r', num(10**5), num(2**31)], ['r', num(10**5), num(2**53-1)], ['r', num(2**19+3), num(32768)], ['r', num(10**5), num(65536)]]
def long(r):
    s = num(r.randint(0, 10**6)); t = [r.choice(LONG) for _ in range(2)]
    return [['mk', s], ['mk', s]]+[['call', g, *c] for c in t for g in (1, 2)]
def gen_C21(seed, scale):
    r = random.Random(seed*77+5)
    return [{'mod': 'rand', 'h': hist(r), 'n': 3} for _ in range(int(110*scale))]+[{'mod': 'rand', 'h': many(r), 'n': 1} for _ in range(int(30*scale))]+[{'mod': 'rand', 'h': long(r), 'n': 2} for _ in range(int(14*scale))]
def show(h, o):
    f = lambda e: vshow(e) if isinstance(e, list) else str(e)
    return '; '.join(' '.join(f(e) for e in op if e != NOW)+' -> '+(('error' if q == [9] else str(q) if q[0] >= 10 else vshow(q))[:60]) for op, q in zip(h, o))
