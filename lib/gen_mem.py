"""applications whose memory is watched"""
import json, random
import gen
from bq import *
GENS = ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10')
def kind(v): return 0 if v == NOW else 1 if v[0] != 2 else 3 if any(e[0] == 2 for e in v[2]) else 2
def sig(j):
    def f(t): return [t['k'], t.get('n')]+[f(t[k]) for k in 'fgh' if isinstance(t.get(k), dict)]+[f(x) for x in t.get('fs', [])]
    return json.dumps([f(j['t']), kind(j['w']), kind(j['x'])])
def gen_C13m(seed, scale=1.0):
    r = random.Random(seed*17+3); out = []
    pools = []
    for k in GENS: js = getattr(gen, 'gen_'+k)(seed, .4); r.shuffle(js); pools.append(js)
    leak = []
    for p in pools: # different kinds of application first
        q = [j for j in p if '[7' not in json.dumps(j) and len(json.dumps([j['w'], j['x']])) < 4000]; seen = {}
        for j in q: j['rank'] = seen[k] = seen.get(k := sig(j), -1)+1
        q.sort(key=lambda j: (j['rank'], kind(j['x']) != 3))
        leak += q[:int((170 if len(q) > 500 else 90)*scale)]
    g = gen.G(seed+9); D = gen # every primitive on arrays of arrays
    el = lambda: r.choice([g.flat([2], 'i8'), g.flat([2], 'i8'), g.flat([3], 'frac'), st('ab'), lst([g.flat([2], 'i8'), num(1)])])
    def nest(sh):
        e = el(); return arr(sh, [gen.json_copy(e) if r.random() < .6 else [2, e[1], [gen.json_copy(e[2][0])]*len(e[2])] for _ in range(gen.math.prod(sh))])
    for n in D.M1MON:
        for t in (P(n), M1('cells', P(n)), M1('each', P(n)), M1('cells', M1(r.choice(['each', 'fold', 'scan', 'insert', 'cells']), P(n)))):
            x = nest(r.choice([[3], [2, 3], [3, 2], [5, 2], [2, 2, 2]] if t['k'] == 'p' or n not in ('shb', 'sha') else [[4, 3], [2, 3], [2, 3, 2]])); leak.append(gen.J(t, NOW, x))
    for n in D.M1DY:
        for form in range(7):
            sh = r.choice([[3], [2, 3], [3, 2]]) if form < 4 else r.choice([[2, 3], [3, 2], [4, 3]]); x = nest(sh); t = P(n); a = r.choice([num(1), num(r.choice([0, 1, -1])), ch('a'), arr([], [el()])])
            w = r.choice([nest(sh), nest(sh[:1]), nest(sh[1:] or [1]), el(), nums([0, 1])])
            if form == 0: leak.append(gen.J(t, w, x))
            elif form == 1: leak.append(gen.J(t, a, x))
            elif form == 2: leak.append(gen.J(M1(r.choice(['each', 'tbl', 'swap']), t), w, x))
            elif form == 3: leak.append(gen.J(M1(r.choice(['fold', 'scan', 'insert']), t), NOW, x))
            elif form == 4: leak.append(gen.J(M1('cells', t) if r.random() < .5 else M2('rank', t, K(num(r.choice([0, 1])))), nest(sh) if r.random() < .6 else w, x))
            elif form == 5: leak.append(gen.J(M1('cells', M2('before', K(a), t)), NOW, x) if r.random() < .6 else M2('rank', t, K(nums([0, 1]))) and gen.J(M2('rank', t, K(nums([0, 1]))), a, x))
            else: leak.append(gen.J(M1('cells', M2('after', t, K(a))), NOW, x) if r.random() < .6 else gen.J(M2('rank', t, K(nums([1, 0]))), x, a))
    for j in leak: out.append({'mod': 'mem', 'h': [j['t'], j['w'], j['x'], 'leak'], 'n': 1})
    big = [j for p in pools[:7] for j in p if '[7' not in json.dumps(j) and 800 < len(json.dumps(j)) < 9000 and json.dumps([j['w'], j['x']]).count('[2,') < 40]
    r.shuffle(big)
    for j in big[:int(90*scale)]: out.append({'mod': 'mem', 'h': [j['t'], j['w'], j['x'], 'oom'], 'n': 1})
    return out
def show(h, o): return '%s %s%s %s -> %s' % (h[3], '' if h[1] == NOW else vshow(h[1])[:300]+' ', tshow(h[0]), vshow(h[2])[:300], [vshow(v)[:200] for v in o])
