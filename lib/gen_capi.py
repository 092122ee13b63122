"""histories of the embedding interface; handles are numbered from 1 in the order they are made"""
import json, random, math
import gen
from bq import *
NAMES = ['a', 'b', 'ab', 'zeta', 'x', 'field', 'f']
RNG = {1: (-128, 127), 2: (-32768, 32767), 3: (-2**31, 2**31-1), 5: (0, 255), 6: (0, 65535), 7: (0, 1114111)}
def enc(b): return [c for c in b]
class H:
    def __init__(s, r, n):
        s.r = r; s.n = n; s.g = gen.G(r.randrange(1 << 30)); s.k = []; s.ops = []; s.cost = 0
    def add(s, op, *kinds): s.ops.append(op); s.k += kinds; return len(s.k)-len(kinds)+1
    def pickh(s, *ks):
        q = [i+1 for i, k in enumerate(s.k) if k in ks or (not ks and k != 'gone')]
        if not q: return None
        return s.r.choice(q[-6:]) if s.r.random() < .6 else s.r.choice(q)
    def el(s, t):
        r = s.r
        if t == 4: return s.g.num(r.choice(['bit', 'i8e', 'i16e', 'i32e', 'big', 'frac', 'inf', 'i32']))
        lo, hi = RNG[t]; v = r.choice([lo, hi, lo+1, hi-1, 0, 1, r.randint(lo, hi), r.randint(max(lo, -5), min(hi, 130))])
        if t > 4: return ch(v if not 0xD800 <= v < 0xE000 else 97)
        return num(v)
    def data(s, n, t):
        r = s.r; k = r.random()
        if k < .25: # narrower than the type
            q = r.choice([u for u in RNG if (u < 4) == (t < 5) and u <= t] or [t]); return [s.el(q) for _ in range(n)]
        if k < .4 and n: # one wide one among narrow ones
            d = [s.el(1 if t < 5 else 5) for _ in range(n)]; d[r.choice([0, n-1, r.randrange(n)])] = s.el(t); return d
        if k < .5: return [num(r.randint(0, 1)) if t < 5 else ch(r.randint(97, 99)) for _ in range(n)]
        return [s.el(t) for _ in range(n)]
    def value(s):
        r = s.r; k = r.random()
        if k < .1: v = s.g.num(r.choice(gen.G.CLS[:-1]+['inf'])); return s.add(['num', v], 'v')
        if k < .16: return s.add(['chr', r.choice([0, 97, 255, 256, 65535, 65536, 1114111])], 'v')
        if k < .6:
            t = r.randint(1, 7)
            if r.random() < .5: n = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 65, r.randint(0, 40)]); return s.add(['vec', t, s.data(n, t)], 'v')
            sh = s.g.shape(r.choice([0, 1, 2, 2, 3, 4]), 4); return s.add(['arr', t, sh, s.data(math.prod(sh), t)], 'v')
        if k < .75: return s.objs()
        if k < .88:
            cs = [r.choice([97, 98, 127, 128, 255, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, r.randint(1, 120), r.randint(128, 3000)]) for _ in range(r.choice([0, 1, 2, 5, 9, 17]))]
            if r.random() < .4: cs = [c for c in cs if c < 128]
            return s.add(['utf8', enc(''.join(map(chr, cs)).encode())], 'v')
        return s.ev()
    def lit(s, d):
        r = s.r; k = r.random()
        if k < .5 or d == 0:
            n = r.choice([0, 1, 2, 100, 127, 128, 1000, 65536, r.randint(0, 999999)])*r.choice([1, 1, -1]); return str(n).replace('-', '¯'), num(n)
        if k < .7: t = ''.join(r.choice('abc xyzλ⟨𝕩') for _ in range(r.randint(0, 5))); return '"'+t+'"', st(t)
        if k < .78: return '@', ch(0)
        q = [s.lit(d-1) for _ in range(r.randint(0, 4))]; return '⟨'+r.choice([',', ', ', '⋄'] if len(q) else ['']).join(a for a, _ in q)+'⟩', lst([b for _, b in q])
    def ev(s): t, v = s.lit(3); return s.add(['eval', [ord(c) for c in t], v, s.r.randint(0, 1)], 'v')
    def objs(s):
        r = s.r; q = [i+1 for i, k in enumerate(s.k) if k != 'gone']; r.shuffle(q); q = q[:r.choice([0, 1, 1, 2, 3, 4, 6])]
        n = len(q); sh = r.choice([[n], [n, 1], [1, n]]+([[]] if n == 1 else [])+([[2, n//2]] if n and n % 2 == 0 else []))
        for i in q: s.k[i-1] = 'gone'
        return s.add(['objs', sh, q], 'v')
    def small(s): return s.r.choice([s.g.atom(), s.g.flat([s.r.randint(0, 4)], 'small'), st('ab'), arr([2, 2], [num(i) for i in range(4)])])
    def prim(s):
        r = s.r; c = lambda: K(s.small())
        t = r.choice([lambda: P('rev'), lambda: P('shape'), lambda: P('pair'), lambda: P('join'), lambda: P('rtack'), lambda: P('ltack'), lambda: P('couple'), lambda: P('lt'), lambda: P('add'), lambda: P('sub'), lambda: P('mul'),
            lambda: M2('before', K(num(r.choice([0, 1, -1, 2]))), P('drop')), lambda: M2('before', K(num(r.choice([0, 1, -1, 3]))), P('rev')), lambda: M1('swap', P('pair')), lambda: M1('swap', P('sub')), lambda: P('pick'), lambda: P('select'),
            lambda: M1('each', P('shape')), lambda: M1('each', P('sub')), lambda: T3(P('ltack'), P('pair'), P('rtack')), lambda: P('nmatch'), lambda: P('match'), lambda: P('eq'), lambda: P('transp'), lambda: M1('cells', P('rev')), lambda: M1('const', c())])()
        return s.add(['prim', M2('catch', t, M1('const', c()))], 'f')
    def bound(s):
        r = s.r; ar = r.choice([1, 1, 2]); o = s.pickh('v', 'f1', 'f', 'ns', 'f2')
        if o is None: return
        b = r.choice([['x'], ['obj'], ['k', s.small()], ['pair'], ['keep'], ['w'], ['x'], ['pair'], 'call', 'drop'])
        if b in ('call', 'drop'):
            g = s.pickh('f', 'f1') if b == 'call' else s.pickh('v', 'f', 'f1')
            if g is None: b = ['x']
            else:
                b = [b, g]
        s.add(['bound', o, ar, b], 'f%d' % ar, 'slot')
    def derive(s):
        k = s.r.choice(['each', 'fold', 'swap']); h = s.pickh('f1', 'f') if k == 'each' else s.pickh('f2', 'f')
        if h is None: return
        s.add([k, h], 'f1' if k in ('each', 'fold') else s.k[h-1])
    def anyh(s): # any handle that may be live
        return s.pickh('v', 'f', 'f1', 'f2', 'ns', 'slot')
    def call(s):
        r = s.r
        two = r.random() < .4; f = s.pickh('f', 'f2') if two else s.pickh('f', 'f1')
        if r.random() < .07: f = s.pickh('v')
        x = s.anyh(); w = s.anyh()
        if f is not None and s.k[f-1] == 'f' or r.random() < .4: x = s.pickh('v', 'slot'); w = s.pickh('v', 'slot')
        if None in (f, x, w): return
        s.add(['call2', f, w, x] if two else ['call1', f, x], 'v?')
    def step(s):
        r = s.r; k = r.random(); h = s.anyh()
        if h is None or k < .22: return s.value()
        if k < .27: return s.prim()
        if k < .33: return s.bound()
        if k < .36: return s.derive()
        if k < .48: return s.call()
        if k < .52: # namespaces
            ns = r.sample(NAMES, r.randint(1, 3)); q = [s.anyh() for _ in ns]; return s.add(['ns', [[ord(c) for c in n] for n in ns], q], 'ns')
        if k < .56:
            q = s.pickh('ns')
            if q: nm = [ord(c) for c in r.choice(NAMES)]; return s.add([r.choice(['has', 'get']), q, nm], *[]) if r.random() < .4 and False else (s.add(['has', q, nm]) if r.random() < .4 else s.add(['get', q, nm], 'v?'))
        if r.random() < .35: # things of unknown kind
            h = s.pickh('v', 'v?', 'slot', 'ns', 'f1') or h
        if k < .62: kk = s.k[h-1]; return s.add(['copy', h], kk if kk not in ('slot', 'v?') else 'v?')
        if k < .69: return s.add(['again', h, r.randrange(1 << 20)], s.k[h-1] if s.k[h-1] not in ('slot', 'v?') else 'v?')
        if k < .75: s.add(['free', h]); s.k[h-1] = 'gone' if s.k[h-1] != 'slot' else 'slot'; return
        if k < .77: return s.add(['type', h])
        if k < .79:
            c = r.randint(0, 1); return s.add(['atom', h, c])
        if k < .81: return s.add(['shape', h])
        if k < .86: return s.add(['pick', h, r.randrange(1 << 16)], 'v?')
        if k < .92: return s.add(['read', h, r.randrange(1 << 16)])
        if k < .94: return s.add(['robj', h])
        if k < .96: return s.add(['direct', h])
        if k < .97: return s.add(['gc'])
        return s.add(['all'])
    def run(s):
        while len(s.ops) < s.n: s.step()
        s.ops += [['all'], ['mem']]; return s.ops
def gen_C22c(seed, scale=1.0):
    r = random.Random(seed*31+7); out = []
    for _ in range(int(220*scale)): out.append({'mod': 'capi', 'h': H(r, r.choice([12, 20, 35])).run(), 'n': 2})
    return out
def show(h, o):
    def f(v):
        if isinstance(v, dict): return tshow(v)
        try: return vshow(v)[:120] if isinstance(v, list) and v and isinstance(v[0], int) and len(v) > 1 else str(v)[:160]
        except Exception: return str(v)[:160]
    return '; '.join(' '.join(str(e) if i == 0 else f(e) for i, e in enumerate(op))+(' -> '+f(o[k][1])+(' calls %s' % str(o[k][0])[:200] if o[k][0] else '') if k < len(o) and isinstance(o[k], list) and len(o[k]) == 2 else '') for k, op in enumerate(h))
