"""histories of map operations"""
import random, json, gen
from bq import *
def pool(g, n, style):
    r = g.r; seen = []; ks = set()
    t = 0
    while len(seen) < n:
        t += 1
        c = r.choice(['int', 'int', 'num', 'str', 'list', 'arr', 'nest', 'char', 'empty']) if style == 'mixed' else style
        if c == 'int': v = num(len(seen)) if style == 'int' else num(r.randint(-5, 5+n))
        elif c == 'num': v = g.num(r.choice(['big', 'frac', 'i32e', 'inf']))
        elif c == 'str': v = st(''.join(r.choice('ab') for _ in range(r.randint(1, 9)))) if r.random() < .8 else g.chrarr([r.randint(1, 40)], r.choice(g.CCLS))
        elif c == 'list': v = g.numarr([r.choice([1, 2, 3, 4, 8, 20])], r.choice(['bit', 'small', 'i8e', 'frac']))
        elif c == 'arr': v = g.flat(g.shape(r.choice([0, 2, 3]), 3), r.choice(['bit', 'small', 'abc']))
        elif c == 'nest': v = g.nested([r.randint(1, 3)], 1)
        elif c == 'char': v = ch(g.chv(r.choice(g.CCLS)))
        else: v = arr(r.choice([[0], [0, 2], [2, 0], [0, 0], [3, 0]]), [])
        k = json.dumps(v)
        if k in ks and t < 40*n: continue
        ks.add(k); seen.append(v)
    return seen
def hist(g):
    r = g.r; style = r.choice(['mixed', 'mixed', 'int', 'str', 'list'])
    n = r.choice([3, 8, 20, 20, 60, 150, 400]); ops = r.choice([20, 60, 120, 300]) if n < 100 else r.choice([300, 700, 1000])
    P = pool(g, n, style); h = []; maps = []; resp = []
    def kv(): return r.choice(P)
    def val(): return r.choice([lambda: num(r.randint(0, 9)), kv, lambda: g.atom()])()
    def new():
        q = r.random(); k = r.choice([0, 0, 1, 3, len(P)//2, len(P)])
        ks = r.sample(P, min(k, len(P))); vs = [val() for _ in ks]; ok = True
        if q < .08 and len(ks) > 1: ks[-1] = ks[0]; ok = False
        elif q < .12: vs = vs+[num(1)]; ok = False
        a, b = lst(ks), lst(vs)
        if .12 < q < .15: a = arr([1, len(ks)], ks); ok = False
        if .15 < q < .17: b = num(3); ok = False
        # distinct under match (the pool may repeat when it is exhausted)
        if len({json.dumps(x) for x in ks}) < len(ks): ok = False
        h.append(['new', a, b]); maps.append(ok); resp.append(ok)
    new()
    phase = 0
    while len(h) < ops:
        live = [i+1 for i, m in enumerate(maps) if m]
        if not live or r.random() < .01 and len(maps) < 6: new(); continue
        m = r.choice(live[:2])
        if len(h) % 40 == 0: phase = r.random()
        q = r.random()
        pd = .1 if phase < .4 else .5 if phase < .7 else .3    # growing, shrinking, mixed phases
        if q < pd: o = ['del', m, kv()]
        elif q < .62: o = ['set', m, kv(), val()]
        elif q < .74: o = ['get', m, kv()]
        elif q < .79: o = ['getd', m, kv(), val()]
        elif q < .86: o = ['has', m, kv()]
        elif q < .89: o = ['count', m, val()]
        elif q < (.91 if n < 100 else .895): o = ['keys', m, val()]
        elif q < (.93 if n < 100 else .90): o = ['vals', m, val()]
        elif q < .96:
            c = [i+1 for i, k in enumerate(resp) if k == 'l'][-6:]
            if not c: continue
            o = r.choice([['re', r.choice(c)], ['setr', m, kv(), r.choice(c)]])
            if o[0] == 'setr' and r.random() < .7: continue
        elif q < .965: o = ['bad', m, r.choice(['set', 'has', 'delete', 'count', 'keys', 'values']), kv()]
        else: continue
        h.append(o); resp.append('l' if o[0] in ('keys', 'vals') else None)
    for i, m in enumerate(maps):
        if m: h += [['keys', i+1, [0, 0]], ['vals', i+1, [0, 0]], ['count', i+1, [0, 0]]]; resp += ['l']*2+[None]
    for i, k in enumerate(list(resp)):
        if k == 'l' and r.random() < .5: h.append(['re', i+1])
    return h
def gen_C17(seed, scale):
    g = gen.G(seed*31+7)
    return [{'mod': 'map', 'h': hist(g), 'n': 3} for _ in range(int(120*scale))]
def show(h, o):
    f = lambda e: vshow(e) if isinstance(e, list) else str(e)
    return '; '.join(' '.join(f(e) for e in op)+' -> '+(vshow(q) if q != [9] else 'error')[:60] for op, q in zip(h, o))
