"""histories of heap operations: objects that refer to each other, handles dropped in any order, collections at any point"""
import random, json
NLEAF = 6
HELD = ['const', 'bind', 'forkfh', 'forkg', 'atopg', 'atoph', 'after', 'mod1', 'mod2', 'clos', 'cb', 'mat']
NREF = {'forkfh': 2, 'mod2': 2, 'mat': 2}
ONLYDATA = ('bind', 'forkfh', 'forkg', 'after') # kinds whose first reference is not to be a function
def hist(r):
    h = [['cal']]; objs = []; hd = []     # objs: kind, refs (for sizes only); hd: object of each handle or None
    hm = r.random() < .25; cyc = r.random()
    def live(k=None): return [i+1 for i, o in enumerate(hd) if o is not None and (k is None or objs[o][0] in k)]
    def some(n):
        l = live(); return [r.choice(l[-6:] if r.random() < .6 else l) for _ in range(n)]
    def size(o, d=0): # of the reading
        if d > 3: return 1
        return 1+sum(size(c, d+1) for c in objs[o][1]) if objs[o][0] in ('list', 'mat') else 1
    def new(k, refs): objs.append([k, refs]); hd.append(len(objs)-1)
    n = r.choice([15, 30, 60, 120, 200])
    while len(h) < n:
        q = r.random(); l = live()
        if q < .13 or not l: h.append(['leaf', r.randrange(NLEAF), r.randint(1, 100)]); new('leaf', []); continue
        if q < .22:
            hs = some(r.randint(1, 4)); h.append(['list', hs]); new('list', [hd[x-1] for x in hs])
        elif q < .34:
            a, b = some(2); h.append(['ns', a, b]); new('ns', [hd[a-1], hd[b-1]])
        elif q < .42:
            k = r.choice(HELD); a = some(NREF.get(k, 1))
            if k in ONLYDATA and objs[hd[a[0]-1]][0] in HELD[:-1]: continue
            h.append(['held', k, a]); new(k, [hd[x-1] for x in a])
        elif q < .56:
            ns = live(['ns'])
            if not ns: continue
            a = r.choice(ns); f = r.randrange(2); v, = some(1); h.append(['set', a, f+1, v]); objs[hd[a-1]][1][f] = hd[v-1]
        elif q < .68:
            a, = some(1); p = []; o = hd[a-1]
            while objs[o][1] and (r.random() < .7 or not p):
                i = r.randrange(len(objs[o][1]))
                if objs[o][0] == 'map' and objs[o][1][i] is None: break
                p.append(i+1); o = objs[o][1][i]
                if len(p) > 6: break
            if size(o) > 60: continue
            h.append(['read', a, p]); hd.append(o)
        elif q < .84:
            if len(l) < 3 and r.random() < .7: continue
            a = r.choice(l); h.append(['drop', a]); hd[a-1] = None
        elif q < .88: h.append(['gc'])
        elif q < .90: h.append(['used'])
        elif q < .93:
            a, = some(1)
            if objs[hd[a-1]][0] in ('leaf', 'list', 'mat') and size(hd[a-1]) < 60: h.append(['throw', a]); hd.append(hd[a-1])
        elif q < .94:
            # everything let go, and the whole looked at
            for a in l: h.append(['drop', a]); hd[a-1] = None
            h.append(['gc'])
        elif hm and q < .955:
            hs = some(r.randint(1, 4)); h.append(['map', hs]); new('map', [hd[x-1] for x in hs])
        elif hm:
            ms = live(['map'])
            if not ms: continue
            a = r.choice(ms); m = objs[hd[a-1]][1]; i = r.randrange(len(m))
            if r.random() < .6: v, = some(1); h.append(['mset', a, i+1, v]); m[i] = hd[v-1]
            elif m[i] is not None: h.append(['mdel', a, i+1]); m[i] = None
    for a in r.sample(live(), len(live())): h.append(['drop', a]); hd[a-1] = None
    h.append(['gc'])
    return h
def gen_C13(seed, scale=1.0):
    r = random.Random(seed*31+5)
    return [{'mod': 'heap', 'h': hist(r), 'n': 1} for _ in range(int(120*scale))]
def show(h, o):
    t = []
    for a, b in zip(h, o): t.append('%s -> %s' % (' '.join(map(str, a)), json.dumps(b)[:80]))
    return '; '.join(t)
