"""value and job generators; everything is drawn from a seeded Random"""
import random, math
from bq import *
LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]
I53 = 2**53
class G:
    def __init__(s, seed): s.r = random.Random(seed)
    def ln(s, mx=257, bias=None):
        r = s.r
        if r.random() < .25: return r.randint(0, min(mx, 40))
        return r.choice([l for l in LENS if l <= mx])
    CLS = ['bit', 'i8', 'i8e', 'i16', 'i16e', 'i32', 'i32e', 'big', 'frac', 'small', 'const']
    def nv(s, c):
        r = s.r
        if c == 'bit': return r.randint(0, 1)
        if c == 'small': return r.randint(-3, 4)
        if c == 'nat': return r.randint(0, 5)
        if c == 'i8': return r.randint(-128, 127)
        if c == 'i8e': return r.choice([-128, -127, -1, 0, 1, 2, 126, 127])
        if c == 'i16': return r.randint(-32768, 32767)
        if c == 'i16e': return r.choice([-32768, -32767, -129, -128, -1, 0, 1, 127, 128, 255, 256, 32766, 32767, 181, 182])
        if c == 'i32': return r.randint(-2**31, 2**31-1)
        if c == 'i32e': return r.choice([-2**31, -2**31+1, -32769, -32768, -1, 0, 1, 2, 3, 32767, 32768, 65535, 65536, 46340, 46341, 2**30, 2**31-2, 2**31-1])
        if c == 'big': return r.choice([r.randint(-I53, I53), r.randint(-2**40, 2**40), 2**31, -2**31-1, 2**32, I53, I53-1, -I53, 2**52+1, 2.0**60, 1e300, -1e300])
        if c == 'frac': return r.choice([r.randint(-40, 40)/4, r.random(), 0.1, 1e-300, -0.5, 2.5, r.uniform(-1e6, 1e6)])
        if c == 'inf': return r.choice([math.inf, -math.inf, 0, 1, -1, 2.5])
        raise Exception(c)
    def num(s, c): return num(s.nv(c))
    def numarr(s, sh, c):
        n = math.prod(sh)
        if c == 'const': v = s.num(s.r.choice(['bit', 'i8e', 'i16e', 'i32e', 'frac'])); return arr(sh, [v]*n)
        if c == 'late': # narrow, with one wide value somewhere
            vs = [s.num('i8') for _ in range(n)]
            if n: vs[s.r.choice([0, n-1, s.r.randrange(n)])] = s.num(s.r.choice(['i16e', 'i32e', 'big', 'frac']))
            return arr(sh, vs)
        return arr(sh, [s.num(c) for _ in range(n)])
    CCLS = ['c8', 'c16', 'c32', 'abc']
    def chv(s, c):
        r = s.r
        if c == 'abc': return r.choice('abc ')
        if c == 'c8': return chr(r.choice([0, 10, 32, 97, 98, 122, 127, 128, 200, 255, r.randint(0, 255)]))
        if c == 'c16': return chr(r.choice([0, 255, 256, 257, 32768, 65535, 40000, r.randint(0, 55000)]))
        if c == 'c32': return chr(r.choice([0, 97, 65535, 65536, 1114111, r.randint(65536, 1114111)]))
    def chrarr(s, sh, c): return arr(sh, [ch(s.chv(c)) for _ in range(math.prod(sh))])
    def atom(s):
        r = s.r.random()
        return s.num(s.r.choice(s.CLS[:-1])) if r < .7 else ch(s.chv(s.r.choice(s.CCLS)))
    def flat(s, sh, c=None):
        """homogeneous array"""
        c = c or s.r.choice(s.CLS+s.CCLS)
        return s.chrarr(sh, c) if c in s.CCLS else s.numarr(sh, c)
    def mixed(s, sh): return arr(sh, [s.atom() for _ in range(math.prod(sh))])
    def nested(s, sh, d=2):
        def el():
            k = s.r.random()
            if k < .35: return s.atom()
            if k < .5 or d == 0: return s.flat([s.r.randint(0, 4)], s.r.choice(['bit', 'i8', 'abc', 'small', 'frac']))
            if k < .6: return s.flat(s.shape(2, 3), s.r.choice(['bit', 'i8', 'abc', 'small']))
            return s.nested([s.r.randint(0, 3)], d-1)
        return arr(sh, [el() for _ in range(math.prod(sh))])
    def shape(s, rk, mx=5): return [s.r.randint(0, mx) if s.r.random() < .12 else s.r.randint(1, mx) for _ in range(rk)]
    def anyarr(s, mx=40):
        k = s.r.random()
        sh = [s.ln(mx)] if s.r.random() < .65 else s.shape(s.r.choice([0, 2, 2, 3]), 6)
        if k < .75: return s.flat(sh)
        if k < .85: return s.mixed(sh)
        return s.nested([min(x, 8) for x in sh])
def J(t, w, x, n=3, **k): return dict(t=t, w=w, x=x, n=n, **k)

AR2 = ['add', 'sub', 'mul', 'div', 'floor', 'ceil', 'stile', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or', 'not', 'pow', 'root']
AR1 = ['add', 'sub', 'mul', 'div', 'floor', 'ceil', 'not', 'stile', 'root', 'pow']
def gen_C01(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    n = lambda k: max(1, int(k*scale))
    cost = dict(div=.25, root=.3, stile=.6)
    for op in AR2:
        for c1 in g.CLS[:9]:
            for c2 in g.CLS[:9]:
                for _ in range(n(1)):
                    k = r.randrange(4)
                    heavy = op in ('div', 'stile') and (c1 in ('big', 'frac', 'i32') or c2 in ('big', 'frac', 'i32')) or op in('mul','or','and') and (c1 in ('big','frac') or c2 in ('big','frac'))
                    L = g.ln(17 if heavy else 65 if r.random() < .8 else 257)
                    if op == 'pow': c1, c2 = r.choice(['bit', 'small', 'i8e', 'i16e']), r.choice(['bit', 'nat', 'small'])
                    if k == 0: w, x = g.numarr([L], c1), g.numarr([L], c2)
                    elif k == 1: w, x = g.num(c1), g.numarr([L], c2)
                    elif k == 2: w, x = g.numarr([L], c1), g.num(c2)
                    else: w, x = g.num(c1), g.num(c2)
                    js.append(J(P(op), w, x, 4))
        # lists with one value leaving the narrow type
        for _ in range(n(6)):
            L = g.ln(65); js.append(J(P(op), g.numarr([L], 'late'), g.numarr([L], r.choice(['late', 'i8', 'bit'])), 3) if op not in ('div', 'pow', 'root') else J(P(op), g.num('small'), g.numarr([L], 'small'), 3))
        # characters
        for _ in range(n(10)):
            L = g.ln(65)
            a = g.chrarr([L], r.choice(g.CCLS)) if r.random() < .7 else ch(g.chv(r.choice(g.CCLS)))
            b = r.choice([lambda: g.numarr([L], r.choice(['small', 'i8', 'bit', 'i16e', 'i32e'])), lambda: g.num(r.choice(['small', 'i8', 'frac', 'i32e'])), lambda: g.chrarr([L], r.choice(g.CCLS)), lambda: ch(g.chv(r.choice(g.CCLS))), lambda: g.mixed([L])])()
            if r.random() < .5: a, b = b, a
            js.append(J(P(op), a, b, 4))
        # leading axis agreement, mismatches, nesting
        for _ in range(n(10)):
            sh = g.shape(r.choice([1, 2, 2, 3, 4]), 5); k = r.randint(0, len(sh)); sh2 = sh[:k]
            if r.random() < .25 and k: sh2 = list(sh2); sh2[r.randrange(k)] += 1
            c = ['bit', 'small', 'i8e', 'i16e', 'i32e']
            if op in ('pow',): c = ['bit', 'nat']
            mk = (lambda s: g.numarr(s, r.choice(c))) if r.random() < .6 else (lambda s: arr(s, [r.choice([g.num('small'), g.numarr([r.choice([2, 2, 3])], 'small'), g.numarr([2, r.choice([1, 2])], 'bit')]) for _ in range(math.prod(s))]))
            a, b = mk(sh), mk(sh2)
            if r.random() < .5: a, b = b, a
            js.append(J(P(op), a, b, 3))
    for op in AR1:
        for c in g.CLS+['inf', 'late']:
            for _ in range(n(3)):
                L = g.ln(17 if op in ('div', 'root') and c not in ('bit', 'small') else 129)
                x = g.numarr([L] if r.random() < .8 else g.shape(r.choice([0, 2, 3]), 4), c) if r.random() < .85 or c == 'late' else g.num(c if c != 'const' else 'i8')
                js.append(J(P(op), NOW, x, 4))
        for _ in range(n(4)):
            js.append(J(P(op), NOW, r.choice([g.chrarr([g.ln(20) or 1], 'c8'), ch('a'), g.mixed([g.ln(20)]), g.nested([4], 1)]), 3))
    # infinities and exact 2^53 neighbourhood
    for op in ['add', 'sub', 'mul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'floor', 'ceil', 'and', 'or', 'not', 'stile']:
        for _ in range(n(4)):
            js.append(J(P(op), g.numarr([6], r.choice(['inf', 'big'])), g.numarr([6], r.choice(['inf', 'big', 'small'])), 3))
    return js

def sarr(g, sh):
    """array of given shape over random element kinds, cheap for the specification"""
    r = g.r; k = r.random()
    if k < .7: return g.flat(sh, r.choice(['bit', 'i8', 'i8e', 'i16', 'i16e', 'i32', 'frac', 'big', 'c8', 'c16', 'c32', 'abc']))
    if k < .85: return g.mixed(sh)
    return g.nested(sh, 1) if math.prod(sh) <= 12 else g.mixed(sh)
def pick_shape(g, mx=257):
    r = g.r; k = r.random()
    if k < .5: return [g.ln(mx)]
    if k < .75:
        a = r.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65]); b = r.choice([0, 1, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33])
        return [a, b] if a*b <= mx*2 else [r.randint(0, 9), b]
    if k < .93: return g.shape(3, 6)
    return g.shape(r.choice([0, 4, 5]), 3)
def clip(g, n): # count near a length n
    r = g.r
    return r.choice([0, 1, -1, n, -n, n-1, n+1, -n-1, 1-n, r.randint(-n-3, n+3), n//2, -(n//2)])
def gen_C04(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    mon = ['shape', 'take', 'drop', 'rev', 'shb', 'sha', 'transp', 'couple', 'pair', 'lt', 'eq', 'ne', 'nmatch', 'match', 'gt', 'join', 'ltack', 'rtack']
    for op in mon:
        for _ in n(24):
            sh = pick_shape(g, 129 if op not in ('take', 'drop') else 20)
            if op in ('take', 'drop'): sh = [min(sh[0], 17)]+[min(x, 4) for x in sh[1:]] if sh else []
            x = sarr(g, sh) if r.random() < .93 else g.atom()
            js.append(J(P(op), NOW, x, 8, h=0 if op in ('shb', 'sha') else 1))
    for _ in n(70): # merge / join of lists of arrays
        k = r.randint(1, 6); sh = g.shape(r.randint(0, 3), 4); same = r.random() < .6
        el = lambda s: sarr(g, s) if s or r.random() < .7 else g.atom()
        c = r.choice(['bit', 'i8', 'i16', 'frac', 'abc', 'c16', None])
        elc = (lambda s: g.flat(s, c)) if c else el
        osh = [k] if r.random() < .7 else [k, r.randint(1, 3)]
        es = [elc(sh if r.random() < .95 else g.shape(r.randint(0, 3), 4)) for _ in range(math.prod(osh))]
        js.append(J(P('gt'), NOW, arr(osh, es), 4))
        base = g.shape(r.randint(0, 2), 4); es = []
        for _ in range(r.randint(1, 8)):
            q = r.random()
            if q < .72: s2 = [r.choice([0, 1, 2, 3, 5, 9, 17, 33])]+base
            elif q < .96: s2 = base
            else: s2 = g.shape(r.randint(0, 3), 3)
            es.append((g.flat(s2, c) if c and r.random() < .9 else el(s2)) if s2 or r.random() < .5 else g.atom())
        js.append(J(P('join'), NOW, lst(es), 5))
    for _ in n(10):
        R, Cc = r.randint(1, 3), r.randint(1, 3); rows = [r.randint(0, 4) for _ in range(R)]; cols = [r.randint(0, 4) for _ in range(Cc)]
        c = r.choice(['bit', 'i8', 'i16', 'abc', 'frac'])
        js.append(J(P('join'), NOW, arr([R, Cc], [g.flat([a if r.random() < .97 else a+1, b]+([2] if R == 3 and Cc == 1 else []), c) for a in rows for b in cols]), 3))
    for _ in n(160): # reshape
        x = sarr(g, pick_shape(g, 70)); m = len(x[2])
        k = r.random()
        if k < .5:
            sh = g.shape(r.randint(0, 3), 6); w = nums(sh) if r.random() < .8 or len(sh) != 1 else num(sh[0])
        elif k < .75: w = lst([num(a) for a in g.shape(r.randint(0, 2), 5)]); w[2].insert(r.randint(0, len(w[2])), [7, r.randint(1, 4)]); w[1] = [len(w[2])]
        elif k < .9:
            f = [d for d in range(1, m+1) if m % d == 0] or [0]; d = r.choice(f); w = nums([d, m//d if d else 0])
        else: w = r.choice([num(-1), nums([2, -1]), num(1.5), ch('a'), g.numarr([1, 2], 'bit'), num(r.choice([63, 64, 65, 100, 257]))])
        js.append(J(P('shape'), w, x, 5, h=0 if any(e[0] == 7 for e in (w[2] if w[0] == 2 else [])) else 1))
    for op in ['take', 'drop', 'rev', 'ud']:
        for _ in n(150):
            sh = pick_shape(g, 129 if op != 'ud' else 40); x = sarr(g, sh) if r.random() < .95 else g.atom()
            s = sh if x[0] == 2 else []
            q = r.random()
            k = 1 if q < .6 else r.randint(0, len(s)+ (1 if op in ('take', 'drop') else 0))
            ax = [clip(g, (s[i] if i < len(s) else 1)) for i in range(k)] if op != 'ud' else [r.choice([0, 1, 2, 3, (s[i] if i < len(s) else 1), (s[i] if i < len(s) else 1)+1, r.randint(0, 8)]) for i in range(k)]
            if op == 'rev' and r.random() < .2: ax = [a*7-3 for a in ax]
            w = num(ax[0]) if k == 1 and r.random() < .6 else nums(ax)
            if r.random() < .03: w = r.choice([num(.5), ch('a'), nums([1, 1, 1, 1, 1, 1]), g.numarr([1, 1], 'bit'), lst([ch('a')]), num(-1)])
            js.append(J(P(op), w, x, 6, h=0 if op == 'take' else 1))
    for _ in n(50): # windows along several axes
        sh = [r.randint(1, 5) for _ in range(r.choice([2, 2, 3, 3, 4]))]; k = r.randint(2, len(sh)); x = sarr(g, sh)
        ax = [r.randint(1, a) for a in sh[:k]]
        if r.random() < .1: ax[r.randrange(k)] = r.choice([0, sh[0]+1, sh[0]+2])
        js.append(J(P('ud'), nums(ax), x, 5))
    for _ in n(40):
        x = num(r.choice([0, 1, 2, 127, 128, 129, 200, 255, 300, -1, .5])) if r.random() < .6 else nums([r.choice([0, 1, 2, 3, 4, 7]) for _ in range(r.randint(0, 3))])
        if r.random() < .05: x = r.choice([ch('a'), st("ab"), g.numarr([1, 1], 'bit'), nums([2, -1])])
        js.append(J(P('ud'), NOW, x, 2))
    for _ in n(130): # reorder axes
        rk = r.choice([1, 2, 2, 3, 3, 4, 5]); sh = [r.choice([0, 1, 2, 3, 4, 5]) if r.random() < .2 else r.randint(1, 4) for _ in range(rk)]
        if rk == 2: sh = [r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33]) for _ in 'ab']
        x = sarr(g, sh)
        k = r.randint(0, rk)
        w = r.sample(range(rk), k) if r.random() < .75 else [r.randint(-1 if r.random() < .1 else 0, rk-1) for _ in range(k)]
        w = num(w[0]) if k == 1 and r.random() < .5 else nums(w)
        if r.random() < .03: w = r.choice([num(.5), ch('a'), nums([0]*7), num(9)])
        js.append(J(P('transp'), w, x, 5))
        sh2 = [r.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65]), r.choice([1, 2, 3, 4, 7, 8, 9, 16, 17])]
        if r.random() < .5: sh2.reverse()
        if r.random() < .2: sh2.append(r.randint(1, 3))
        js.append(J(P('transp'), NOW, g.flat(sh2, r.choice(['bit', 'bit', 'i8', 'i16', 'i32', 'frac', 'c8', 'c32'])), 6))
    for op in ['join', 'shb', 'sha', 'couple', 'pair', 'match', 'nmatch']:
        for _ in n(70):
            c = r.choice(['bit', 'i8', 'i8e', 'i16e', 'i32e', 'frac', 'c8', 'c16', 'c32', None]); c2 = r.choice([c, c, c, 'bit', 'i16', 'frac', 'abc', None])
            mk = lambda s, c: (g.flat(s, c) if c else sarr(g, s)) if s or r.random() < .6 else (g.num(c) if c and c not in g.CCLS else g.atom())
            base = pick_shape(g, 129); w, x = base, base
            q = r.random()
            if op in ('join', 'shb', 'sha'):
                if base:
                    if q < .6: w = [g.ln(65)]+base[1:]
                    elif q < .8: w = base[1:]
                    elif q < .88: x = base[1:]
                    elif q < .93: x = base+[2]
            elif op == 'couple':
                if q < .15: x = g.shape(len(base), 4)
            elif q < .2: x = base[:-1]
            a, b = mk(w, c), mk(x, c2)
            if op in ('match', 'nmatch') and r.random() < .6:
                b = json_copy(a)
                if b[0] == 2 and b[2] and r.random() < .5:
                    i = r.choice([0, len(b[2])-1, r.randrange(len(b[2]))]); b[2][i] = r.choice([g.atom(), g.num('bit'), b[2][0]])
            js.append(J(P(op), a, b, 6))
    return js
def json_copy(v): return [json_copy(e) if isinstance(e, list) else e for e in v]

def idxs(g, L, n, bad=.0):
    r = g.r; o = []
    for _ in range(n):
        if r.random() < bad: o.append(r.choice([L, -L-1, L+1, L*2+3, 2**31, 0.5])); continue
        o.append(r.randint(-L, L-1) if L else 0)
    return o
def gen_C05(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    for _ in n(420): # select
        sh = pick_shape(g, 257)
        if not sh and r.random() < .8: sh = [3]
        x = sarr(g, sh) if r.random() < .97 else g.atom()
        L = sh[0] if sh else 1
        k = r.random()
        ish = [g.ln(129)] if k < .55 else g.shape(r.choice([0, 2, 3]), 4)
        if math.prod(ish)*math.prod(sh[1:] or [1]) > 1500: ish = [3]
        bad = .3/max(1, math.prod(ish)) if r.random() < .5 else 0
        iv = idxs(g, L, math.prod(ish), bad)
        if k < .2 and L: iv = [v % L if isinstance(v, int) and abs(v) < 2*L else v for v in iv]
        w = num(iv[0]) if k > .97 and iv else arr(ish, [num(v) for v in iv])
        if r.random() < .03: w = r.choice([ch('a'), st("ab"), lst([num(0), ch('a')])])
        js.append(J(P('select'), w, x, 6))
    for L, c in [(256, 'i16'), (300, 'i8'), (128, 'bit'), (1000, 'c8'), (257, 'frac')]*max(1, int(2*scale)):
        x = g.flat([L], c); js.append(J(P('select'), nums(idxs(g, L, 200)), x, 6))
        js.append(J(P('select'), nums([abs(i) % L for i in idxs(g, L, 260)]), x, 6))
    for _ in n(120): # multi-axis select
        sh = [r.choice([1, 2, 3, 4, 6, 9]) for _ in range(r.randint(1, 4))]; x = sarr(g, sh); k = r.randint(1, len(sh)+(r.random() < .05))
        w = []
        for i in range(k):
            a = sh[i] if i < len(sh) else 1; s2 = r.choice([[], [2], [3], [a], [2, 2], [0], [1]]); bad = .15 if r.random() < .15 else 0
            iv = idxs(g, a, math.prod(s2), bad)
            w.append(arr(s2, [num(v) for v in (iv if r.random() < .6 else sorted(iv, key=lambda z: z))]))
        if r.random() < .3 and sh: # contiguous
            a = sh[0]; b = r.randint(0, a-1); w[0] = nums(range(b, r.randint(b, a)))
        js.append(J(P('select'), lst(w), x, 5))
    for _ in n(150): # pick
        sh = pick_shape(g, 60); x = sarr(g, sh)
        if r.random() < .5: w = nums([(r.randint(-a, a-1) if a and r.random() < .93 else r.choice([a, -a-1])) for a in sh])
        elif r.random() < .6:
            sh = [g.ln(60)]; x = sarr(g, sh); w = num(clip(g, sh[0]))
        else: w = arr(g.shape(r.choice([1, 2]), 3), [])
        if w[2:] == [[]]:
            w[2] = [nums([(r.randint(-a, a-1) if a and r.random() < .97 else a) for a in sh]) for _ in range(math.prod(w[1]))]
            if not w[2]: continue
        js.append(J(P('pick'), w, x, 4))
        js.append(J(r.choice([P('pick'), P('select')]), NOW, sarr(g, pick_shape(g, 40)), 4))
    # structural Under
    for _ in n(700):
        x = None; q = r.random()
        sh = pick_shape(g, 65)
        if not sh: sh = [4]
        L = sh[0]
        x = sarr(g, sh)
        def func(): return r.choice([T2(P('rtack'), P('rtack')), P('rev'), M2('before', K(g.num(r.choice(['bit', 'i8', 'i16e', 'i32e', 'frac']))), P('add')), M1('const', K(g.atom())), P('not'), M1('swap', P('sub')),
                                 M2('before', K(g.atom()), P('pair')), P('lt'), M2('before', K(num(2)), P('take')), M1('each', M2('before', K(num(10)), P('mul'))), M2('before', K(num(1)), P('rev'))])
        def sel(sh):
            L = sh[0] if sh else 1; k = r.randrange(12)
            if k == 0: return P('pick')
            if k == 1 and len(sh) == 1: return M2('before', K(num(r.randint(-L, L-1) if L and r.random() < .9 else L)), P('pick'))
            if k == 2: return M2('before', K(nums(idxs(g, L, r.choice([1, 2, 3, 9, 17]), .02))), P('select'))
            if k == 3:
                iv = list(range(L)); r.shuffle(iv); return M2('before', K(nums(iv[:r.randint(0, L)] or ([0] if L else []))), P('select'))
            if k == 4: return M2('before', K(nums([r.randint(0, 1) for _ in range(L)] or [0])), P('slash'))
            if k == 5: return M2('before', K(num(r.randint(-L, L))), P('take'))
            if k == 6: return M2('before', K(num(clip(g, L))), P('drop'))
            if k == 7: return P('shape')
            if k == 8: return P('transp')
            if k == 9: return P('rev')
            if k == 10: return M2('before', K(num(r.randint(-L-1, L+1))), P('rev'))
            return M2('before', K(nums([r.randint(0, a-1) if a else 0 for a in sh])), P('pick'))
        G1 = sel(sh)
        if r.random() < .25: G1 = r.choice([lambda a, b: T2(a, b), lambda a, b: M2('atop', a, b)])(sel([r.randint(1, 4)]), G1)
        F = func()
        if r.random() < .4: # replacement of exactly the addressed part, so that it usually conforms
            F = r.choice([P('rev'), P('not'), P('rtack'), M2('before', K(num(r.choice([1, 100, 30000, .5]))), P('add')), M2('before', K(num(r.choice([0, 1]))), M1('swap', P('rev')))])
        js.append(J(M2('under', F, G1), NOW, x, 5, h=0 if F == M2('before', K(num(2)), P('take')) else 1))
    for _ in n(200): # replacement by a constant part of the right shape
        L = g.ln(129) or 5; c = r.choice(['bit', 'i8', 'i16', 'i32', 'frac', 'c8', 'c16']); c2 = r.choice([c, c, c, 'frac', 'i16', 'c16', 'bit'])
        sh = [L] if r.random() < .7 else [L, r.randint(1, 4)]
        x = g.flat(sh, c); k = r.random()
        if k < .3: iv = idxs(g, L, r.randint(1, L)); iv = list({v % L: v for v in iv}.values()); t = M2('before', K(nums(iv)), P('select')); m = len(iv)
        elif k < .5: m = r.randint(0, L); t = M2('before', K(num(r.choice([m, -m]) if m else 0)), P('take'))
        elif k < .7: m = r.randint(0, L); t = M2('before', K(num(r.choice([L-m, m-L]) if m != L else 0)), P('drop'))
        elif k < .9: b = [r.randint(0, 1) for _ in range(L)]; m = sum(b); t = M2('before', K(nums(b)), P('slash'))
        else: i = r.randint(-L, L-1); js.append(J(M2('under', M1('const', K(g.num(c2) if c2[0] != 'c' else ch(g.chv(c2)))), M2('before', K(num(i)), P('pick'))), NOW, g.flat([L], c), 5)); continue
        m2 = m if r.random() < .95 else m+1
        js.append(J(M2('under', M1('const', K(g.flat([m2]+sh[1:], c2))), t), NOW, x, 6))
    for _ in n(60): # nested picks
        sh = [r.randint(2, 6)]; x = g.nested(sh, 1) if r.random() < .5 else g.flat(sh)
        ps = [num(i) for i in r.sample(range(sh[0]), r.randint(1, sh[0]))]
        w = lst([lst([p]) for p in ps])
        v = lst([g.atom() for _ in ps])
        js.append(J(M2('under', r.choice([M1('const', K(v)), P('rev')]), M2('before', K(w), P('pick'))), NOW, x, 4))
    return js

def fewvals(g, sh, kind=None):
    """array over few distinct values, so cells repeat"""
    r = g.r; kind = kind or r.choice(['bit', 'i8', 'i8', 'i16', 'i16', 'i32', 'frac', 'c8', 'c16', 'c32', 'mixed', 'nest', 'big'])
    k = r.choice([1, 2, 3, 5, 10, 40, 200])
    if kind == 'mixed': pool = [g.atom() for _ in range(min(k, 10))]
    elif kind == 'nest': pool = [g.nested([r.randint(0, 2)], 1) if r.random() < .5 else g.flat([r.randint(0, 3)], r.choice(['bit', 'i8', 'abc'])) for _ in range(min(k, 6))]
    elif kind in g.CCLS: pool = [ch(g.chv(kind)) for _ in range(k)]
    else: pool = [g.num(r.choice([kind, kind+'e']) if kind in ('i8', 'i16', 'i32') else kind) for _ in range(k)]
    return arr(sh, [r.choice(pool) for _ in range(math.prod(sh))])
def share(g, w, x, p=.6):
    """make elements of x come from w often"""
    if w[2]:
        for i in range(len(x[2])):
            if g.r.random() < p: x[2][i] = json_copy(g.r.choice(w[2]))
    return x
def cellshape(g, mx=129):
    r = g.r; k = r.random()
    if k < .72: return [g.ln(mx)]
    if k < .92: return [g.ln(33), r.choice([0, 1, 2, 2, 3, 4, 8])]
    return g.shape(3, 4)
def gen_C06(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    for op in ['indexOf', 'memberOf', 'count']:
        for _ in n(170):
            sh = cellshape(g, 129 if op != 'count' else 65); w = fewvals(g, sh)
            q = r.random()
            if q < .6: xs = [g.ln(129)]+sh[1:]
            elif q < .7: xs = sh[1:]
            elif q < .85: xs = g.shape(2, 6)+sh[1:]
            elif q < .95: xs = [g.ln(65)]+[r.randint(1, 3) for _ in sh[1:]]
            else: xs = g.shape(r.randint(0, 3), 3)
            x = fewvals(g, xs) if r.random() < .4 else share(g, w, fewvals(g, xs), .7)
            if r.random() < .2: x = share(g, w, g.mixed(xs), .6)
            if not xs and r.random() < .6: x = x[2][0]
            a, b = (w, x) if op != 'memberOf' else (x, w)
            if r.random() < .02: a = g.atom()
            js.append(J(P(op), a, b, 6))
    for op in ['indexOf', 'count', 'memberOf', 'find']:
        for _ in n(120):
            sh = cellshape(g, 257); x = fewvals(g, sh) if r.random() < .97 else g.atom()
            js.append(J(P(op), NOW, x, 7))
    for _ in n(90): # find
        kind = r.choice(['bit', 'i8', 'i16', 'i32', 'frac', 'c8', 'c16', 'c32', 'mixed', 'nest'])
        xs = [g.ln(129)] if r.random() < .75 else [r.randint(1, 5), g.ln(17)]
        x = fewvals(g, xs, kind); m = r.choice([0, 1, 2, 3, 4, 8, 9, 17, 64, 65])
        L = xs[-1]
        if len(x[2]) >= m and r.random() < .7: i = r.randint(0, max(0, len(x[2])-m)); w = lst(json_copy(x[2][i:i+m]))
        else: w = fewvals(g, [m], kind)
        js.append(J(P('find'), w, x, 6))
    # strategy-sized inputs: long lists, small ranges
    for _ in n(10):
        for kind, mk in [('i8', lambda: g.numarr([300], 'i8')), ('i16', lambda: arr([700], [num(r.randint(0, 900)) for _ in range(700)])), ('i32', lambda: arr([520], [num(r.randint(0, 400)*100003) for _ in range(520)])), ('c', lambda: g.chrarr([400], 'abc')), ('b', lambda: g.numarr([400], 'bit'))]:
            w = mk(); x = share(g, w, mk(), .5)
            if r.random() < .5:
                op = r.choice(['indexOf', 'memberOf']); js.append(J(P(op), w, x, 5))
            else: js.append(J(P(r.choice(['indexOf', 'count', 'memberOf', 'find'])), NOW, x, 5))
    return js

def gen_C07(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    def data(sh):
        k = r.random()
        if k < .15: # nested, many ties and prefixes
            pool = [lst([num(r.randint(0, 2)) for _ in range(r.randint(0, 3))]) for _ in range(4)]+[num(r.randint(0, 2)), ch('a'), st('ab'), arr([1, 2], [num(0), num(1)]), arr([], [num(1)]), lst([lst([num(0)])])]
            return arr(sh, [json_copy(r.choice(pool)) for _ in range(math.prod(sh))])
        if k < .25: return arr(sh, [num(r.choice([math.inf, -math.inf, 0.0, 1, -1, 1e-300, -1e300, 2**53])) for _ in range(math.prod(sh))])
        return fewvals(g, sh, r.choice(['bit', 'i8', 'i8', 'i16', 'i32', 'frac', 'big', 'c8', 'c16', 'c32', 'mixed']))
    for op in ['gradeU', 'gradeD', 'and', 'or']:
        for _ in n(110):
            sh = cellshape(g, 129); x = data(sh) if r.random() < .98 else g.atom()
            if x[0] == 2 and r.random() < .25 and len(sh) == 1: # presorted or reversed
                try: x[2].sort(key=lambda v: (v[0] == 1, dec_num(v) if v[0] in (0, 3) else v[1]), reverse=r.random() < .5)
                except TypeError: pass
            js.append(J(P(op), NOW, x, 6))
        for L in (200, 300, 600):
            for c in ['i8', 'i16', 'i32', 'bit', 'c8', 'frac']:
                if r.random() < .7*scale or scale >= 1 and r.random() < .4: js.append(J(P(op), NOW, g.flat([L], c), 5))
    for op, so in [('gradeU', 'and'), ('gradeD', 'or')]:
        for _ in n(170):
            sh = cellshape(g, 65); w = data(sh); q = r.random()
            xs = [g.ln(65)]+sh[1:] if q < .7 else sh[1:] if q < .8 else g.shape(2, 5)+sh[1:] if q < .95 else g.shape(r.randint(0, 2), 3)
            x = share(g, w, data(xs), .5)
            # sorted left argument through the train (sort w) bins x
            t = T3(T2(P(so), P('ltack')), P(op), P('rtack'))
            js.append(J(t, w, x, 6))
            if r.random() < .25: js.append(J(P(op), w, x, 3))
        # sorted numeric left arguments of every storage class, found in one table or by search
        for _ in n(50):
            c = r.choice(['bit', 'i8', 'i16', 'i32', 'frac', 'c8', 'c32', 'big', 'i8e']); L = r.choice([0, 1, 2, 3, 7, 8, 17, 63, 64, 65, 130, 250])
            w = g.flat([L], c); w[2].sort(key=lambda v: (dec_num(v) if v[0] in (0, 3) else v[1]), reverse=op == 'gradeD')
            x = share(g, w, g.flat([g.ln(129)], r.choice([c, c, c, 'i16', 'frac', 'bit', 'c16'])), .5)
            if r.random() < .15 and L > 2: i = r.randrange(L); w[2][i] = json_copy(w[2][0])
            js.append(J(P(op), w, x, 6))
    # comparison of arbitrary values
    for _ in n(250):
        a, b = g.anyarr(6), g.anyarr(6)
        if r.random() < .5: b = json_copy(a); b[2] = b[2][:max(0, len(b[2])-1)] if len(b[1]) == 1 else b[2]; b[1] = [len(b[2])] if len(b[1]) == 1 else b[1]
        js.append(J(P(r.choice(['gradeU', 'gradeD'])), NOW, lst([a, b, g.atom(), lst([]), arr([0, 2], []), arr([2, 0], []), json_copy(a)]), 3))
    return js

def gen_C08(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    def counts(L, kind):
        if kind == 'bit': return [r.randint(0, 1) for _ in range(L)]
        if kind == 'sparse': return [int(r.random() < .05) for _ in range(L)]
        if kind == 'dense': return [int(r.random() < .95) for _ in range(L)]
        if kind == 'small': return [r.choice([0, 0, 1, 2, 3, 4]) for _ in range(L)]
        if kind == 'one': return [1]*L
        if kind == 'runs':
            o = []
            while len(o) < L: o += [r.randint(0, 1)]*r.choice([1, 3, 8, 9, 17, 64, 65])
            return o[:L]
        if kind == 'big': return [r.choice([0, 1, 130, 260]) if r.random() < .05 else 0 for _ in range(L)]
        return [0]*L
    KC = ['bit', 'sparse', 'dense', 'small', 'one', 'runs', 'big', 'zero']
    for _ in n(420):
        sh = cellshape(g, 257); x = sarr(g, sh); L = sh[0]
        c = counts(L, r.choice(KC))
        if r.random() < .06 and L: i = r.randrange(L); c[i] = r.choice([-1, .5, -128, -2**20])
        w = nums(c)
        if r.random() < .05: w = nums(c+[1])
        if r.random() < .02: w = r.choice([st("ab"), ch('a')])
        if math.prod(sh[1:] or [1])*sum(abs(v) for v in c if v > 0) > 3000: continue
        js.append(J(P('slash'), w, x, 7))
    for _ in n(120):
        sh = cellshape(g, 65); x = sarr(g, sh) if r.random() < .96 else g.atom(); js.append(J(P('slash'), num(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, -1, 2.5]) if math.prod(sh) > 10 else r.choice([1, 31, 63, 64, 65, 129])), x, 6))
    for _ in n(220):
        L = g.ln(257); c = counts(L, r.choice(KC))
        if r.random() < .06 and L: c[r.randrange(L)] = r.choice([-1, .5, -200])
        x = nums(c)
        if r.random() < .03: x = r.choice([st("ab"), num(3), g.numarr([2, 2], 'bit'), nums([1, 2, math.inf])])
        js.append(J(P('slash'), NOW, x, 7))
    for L in (1000, 4100): js.append(J(P('slash'), NOW, nums(counts(L, 'bit')), 3)); js.append(J(P('slash'), nums(counts(L, 'runs')), g.flat([L], r.choice(['i8', 'bit', 'i16', 'c8'])), 4))
    for _ in n(420):
        sh = cellshape(g, 129); L = sh[0]; k = r.choice([1, 2, 3, 8, 20, 60])
        q = r.random()
        if q < .6: c = [r.randint(-1, k) for _ in range(L)]
        elif q < .75: c = sorted(r.randint(-1, k) for _ in range(L))
        elif q < .9: c = [r.randint(0, k) for _ in range(L)]
        else: c = list(range(L)); r.shuffle(c)
        if r.random() < .2: c.append(r.choice([-1, 0, k, k+5, k//2]))
        if r.random() < .06 and c: c[r.randrange(len(c))] = r.choice([-2, .5, -100])
        if r.random() < .04: c.append(0); c.append(0)
        if r.random() < .6: js.append(J(P('group'), nums(c), sarr(g, sh), 6))
        else: js.append(J(P('group'), NOW, nums(c), 6))
    for _ in n(10): js.append(J(P('group'), r.choice([st("ab"), num(0), ch('a'), nums([0])]), r.choice([st("ab"), num(1)]), 3))
    for _ in n(12):
        L = r.choice([300, 520, 700]); k = r.choice([3, 200, 400]); js.append(J(P('group'), nums([r.randint(-1, k) for _ in range(L)]), g.flat([L], r.choice(['bit', 'i8', 'i16', 'i32', 'frac', 'c8'])), 4))
    return js

def nests(o): return o['k'] == 'p' and o['n'] == 'pair' or o['k'] == 't2' and nests(o['h']) or o['k'] in ('m1',) and nests(o['f'])
FOPS = ['add', 'sub', 'mul', 'floor', 'ceil', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or', 'not', 'ltack', 'rtack']
def gen_C09(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    def data(sh, op, c=None):
        c = c or r.choice(['bit', 'bit', 'bit', 'bits', 'i8', 'i8e', 'i16', 'i16e', 'i32', 'i32e', 'big', 'frac', 'late', 'small', 'const', 'near', 'c8', 'mixed'])
        m = math.prod(sh)
        if c == 'bits': v = r.choice([0, 0, 1, 1]); p = r.choice([0, .02, .1]); return arr(sh, [num(1-v if r.random() < p else v) for _ in range(m)])
        if c == 'near': return arr(sh, [num(r.choice([I53-2, 2, 1, -1, I53-1, -I53, 2**52, 2**31-1, 3]) if r.random() < .5 else r.randint(-3, 3)) for _ in range(m)])
        if c == 'c8': return g.chrarr(sh, 'c8') if op in ('ltack', 'rtack', 'floor', 'eq', 'lt', 'sub') else g.numarr(sh, 'small')
        if c == 'mixed': return g.mixed(sh) if r.random() < .5 and m < 20 else arr(sh, [g.numarr([2], 'small') if r.random() < .3 else g.num('small') for _ in range(m)])
        return g.numarr(sh, c)
    def operand():
        k = r.random()
        if k < .86: return P(r.choice(FOPS))
        if k < .9: return P(r.choice(['stile', 'div', 'join', 'couple', 'pair', 'match']))
        if k < .93: return M1('swap', P(r.choice(FOPS)))
        if k < .96: return T3(M2('before', K(num(r.choice([2, -1, 3]))), P('mul')), P(r.choice(['add', 'sub', 'ceil'])), P('rtack'))
        return r.choice([T2(P('rtack'), P('add')), M2('atop', P('rtack'), P('ne')), K(num(5)), M2('over', P('sub'), P('stile')), T2(P('join'), P('pair'))])
    def wv(op, like=None):
        k = r.random()
        if k < .45: return g.num('bit')
        if k < .9: return g.num(r.choice(['small', 'i8e', 'i16e', 'i32e', 'big', 'frac']))
        return r.choice([ch('a'), g.numarr([2], 'small'), g.numarr([], 'bit'), g.atom()])
    for _ in n(900): # fold and scan of lists
        o = operand(); op = o.get('n', '') if o['k'] == 'p' else ''
        cheap = op in FOPS and op not in ('mul', 'and', 'or', 'not')
        mx = 257 if cheap else 40 if op in ('mul', 'and', 'or', 'not') else 12
        L = g.ln(mx); c = None
        if op in ('mul', 'and', 'or'): c = r.choice(['bit', 'bits', 'small', 'i8e', 'i16e', 'i32e', 'big', 'const', 'late', 'frac'])
        if op in ('mul', 'and', 'or') and c == 'bit' : L = g.ln(257)
        x = data([L], op, c)
        if op in ('stile', 'div'): x = g.numarr([r.randint(0, 5)], r.choice(['small', 'i8']))
        if nests(o): x = data([r.randint(0, 20)], op, c)
        w = NOW if r.random() < .55 else wv(op)
        md = r.choice(['fold', 'fold', 'scan', 'scan', 'insert'])
        js.append(J(M1(md, o), w if md != 'scan' or r.random() < .97 else lst([num(1)]), x, 6))
    for op in FOPS: # every arithmetic operand on every class at word boundaries
        for md in ['fold', 'scan']:
            for c in ['bit', 'bits', 'i8', 'i16', 'i32', 'frac']:
                for _ in n(1):
                    L = r.choice([1, 2, 3, 63, 64, 65, 127, 128, 129, 192, 200]) if c in ('bit', 'bits') or op not in ('mul', 'and', 'or', 'not') else r.choice([1, 2, 3, 9, 17])
                    js.append(J(M1(md, P(op)), NOW if r.random() < .5 else wv(op), data([L], op, c), 5))
    for _ in n(500): # insert and scan on higher ranks, with and without initial cells
        o = operand(); op = o.get('n', '') if o['k'] == 'p' else ''
        q = r.random()
        if q < .5: sh = [r.choice([0, 1, 2, 3, 4, 5, 8, 17, 33]), r.choice([0, 1, 1, 2, 3, 5, 6, 7, 8, 16, 33])]
        elif q < .8: sh = g.shape(3, 5)
        else: sh = [r.choice([3, 9, 65]), 1]+([1] if r.random() < .3 else [])
        if nests(o): sh = [r.randint(0, 20), r.randint(1, 3)]
        if math.prod(sh) > (300 if op not in ('mul', 'and', 'or', 'not') else 60): sh = [3, 5]
        if op in ('stile', 'div'): sh = [r.randint(1, 3), 2]
        x = data(sh, op, r.choice(['small', 'bit', 'i8', 'i8e', 'i16e']) if op in ('stile', 'div', 'mul', 'and', 'or', 'not') else None)
        md = r.choice(['insert', 'insert', 'scan'])
        if r.random() < .5: w = NOW
        elif r.random() < .75: w = data(sh[1:], op, r.choice(['bit', 'small', 'i8e', 'i16e'])) if sh[1:] else wv(op)
        else: w = r.choice([wv(op), data(sh[1:]+[2], op, 'small'), data(sh[1:-1], op, 'small'), num(0), num(1)])
        js.append(J(M1(md, o), w, x, 6))
    for _ in n(420): # reductions of rows and of columns
        o = operand(); op = o.get('n', '') if o['k'] == 'p' else ''
        q = r.random()
        sh = [r.choice([1, 2, 3, 5, 8, 9, 17, 33, 65, 70]), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 31, 32, 33, 59, 60, 61, 63, 64, 65, 96, 127, 128, 129])]
        if q < .15: sh = [r.randint(1, 3)]+[r.randint(1, 4), r.choice([1, 2, 3, 8, 9])]
        if nests(o): sh = [r.randint(1, 5), r.randint(1, 20)]
        lim = 700 if op not in ('mul', 'and', 'or', 'not', 'div', 'stile') else 90
        while math.prod(sh) > lim: sh[0] = max(1, sh[0]//2) if sh[0] > 1 else 1; sh[-1] = sh[-1] if sh[0] > 1 else min(sh[-1], lim)
        x = data(sh, op, r.choice(['bit', 'bit', 'bits', 'bits', 'i8', 'i16e', 'small', 'i32e', 'frac']) if op not in ('stile', 'div', 'not') else 'small')
        if op in ('mul', 'and', 'or', 'div', 'stile') and x[2] and any(e[0] == 3 for e in x[2]): x = data(sh, op, 'bit')
        f = M1(r.choice(['fold', 'fold', 'insert', 'scan', 'scan']), o)
        t = r.choice([M1('cells', f), M2('rank', f, K(num(r.choice([1, 1, -1]))))])
        if r.random() < .08: js.append(J(M1('cells', f), wv(op), x, 4))
        else: js.append(J(t, NOW, x, 6))
    for _ in n(110): # empty arguments
        o = operand(); sh = r.choice([[0], [0, 3], [0, 0], [0, 2, 2], [3, 0], [1, 0], [0, 0, 2]])
        if r.random() < .2: o = r.choice([K(num(5)), K(ch('a')), K(lst([num(1)])), K(lst([])), M1('const', K(num(2))), M2('before', K(num(2)), P('add')), T2(P('sub'), P('add')), M1('each', P('add')), M1('swap', P('add'))])
        if r.random() < .4: o = M1('tbl', o)
        if r.random() < .1: o = M1(r.choice(['tbl', 'each', 'cells', 'swap']), o)
        js.append(J(M1(r.choice(['fold', 'insert', 'scan']), o), NOW if r.random() < .7 else wv(''), arr(sh, []), 3))
        js.append(J(M1('cells', M1(r.choice(['fold', 'insert', 'scan']), o)), NOW, arr(r.choice([[2, 0], [3, 0], [2, 0, 2]]), []), 2))
    for _ in n(14): # long: several words and blocks, overflow of narrow accumulators
        c = r.choice(['bit', 'i8', 'i8e', 'i16e', 'i32e', 'near', 'bits']); op = r.choice(['add', 'add', 'sub', 'ne', 'eq', 'floor', 'ceil', 'lt'])
        js.append(J(M1(r.choice(['fold', 'scan']), P(op)), NOW if r.random() < .6 else wv(op), data([r.choice([500, 1030])], op, c), 4))
    return js

# ---------------------------------------------------------------- mapping modifiers, combinators, trains
M1MON = ['ltack', 'rtack', 'lt', 'select', 'pick', 'couple', 'shape', 'shb', 'sha', 'transp', 'rev', 'and', 'or', 'find', 'gradeU', 'gradeD', 'indexOf', 'memberOf', 'count', 'eq', 'ne', 'match', 'nmatch', 'pair', 'join', 'gt', 'sub', 'not', 'floor', 'stile', 'mul', 'slash', 'ud', 'take', 'drop']
M1DY = ['match', 'nmatch', 'couple', 'pair', 'join', 'ltack', 'rtack', 'add', 'sub', 'mul', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'floor', 'ceil', 'and', 'or', 'not', 'stile', 'select', 'pick', 'take', 'drop', 'rev', 'transp', 'shb', 'sha', 'shape', 'indexOf', 'memberOf', 'count', 'find', 'gradeU', 'slash']
BOUND = [('rev', lambda r: num(r.randint(-5, 5))), ('take', lambda r: num(r.randint(-3, 3))), ('drop', lambda r: num(r.randint(-3, 3))), ('select', lambda r: num(r.choice([0, 0, -1, 1, 2]))), ('select', lambda r: nums([r.choice([0, -1, 0]) for _ in range(r.randint(0, 3))])),
         ('pick', lambda r: num(r.choice([0, -1, 1, 0]))), ('couple', lambda r: num(r.randint(0, 3))), ('shb', lambda r: num(r.randint(0, 3))), ('sha', lambda r: num(r.randint(0, 3))), ('shape', lambda r: nums([r.randint(0, 3) for _ in range(r.randint(0, 2))])),
         ('join', lambda r: num(7)), ('pair', lambda r: ch('x')), ('transp', lambda r: num(0)), ('eq', lambda r: num(1)), ('add', lambda r: num(r.choice([1, 100, 40000, .5]))), ('lt', lambda r: num(2)), ('match', lambda r: num(1)), ('slash', lambda r: num(2)), ('ud', lambda r: num(2)), ('indexOf', lambda r: nums([1, 0, 2])), ('memberOf', lambda r: nums([1, 3]))]
def monop(g):
    """monadic operand"""
    r = g.r; k = r.random()
    if k < .55: return P(r.choice(M1MON))
    if k < .72:
        n, f = r.choice(BOUND); return M2('before', K(f(r)), P(n))
    if k < .8:
        n, f = r.choice([b for b in BOUND if b[0] in ('rev', 'take', 'drop', 'sub', 'add', 'eq', 'join', 'pair', 'lt', 'match', 'shb', 'sha')]); return M2('after', P(n), K(f(r)))
    if k < .88: return M1(r.choice(['fold', 'insert', 'scan', 'each', 'cells', 'swap']), P(r.choice(['add', 'floor', 'rtack', 'ltack', 'join', 'pair', 'eq', 'couple'])))
    if k < .91: return M1('const', K(g.atom() if r.random() < .5 else nums([1, 2])))
    if k < .93: return K(g.num('i8'))
    if k < .97: return T2(P(r.choice(M1MON)), P(r.choice(M1MON)))
    return T3(P(r.choice(M1MON)), P(r.choice(['pair', 'join', 'add', 'eq', 'match', 'ltack'])), P(r.choice(M1MON)))
def dyop(g):
    r = g.r; k = r.random()
    if k < .75: return P(r.choice(M1DY))
    if k < .83: return M1('swap', P(r.choice(M1DY)))
    if k < .87: return M1('const', K(g.atom()))
    if k < .9: return K(g.num('i8'))
    if k < .95: return M2(r.choice(['after', 'over']), P(r.choice(M1DY)), P(r.choice(['rtack', 'ne', 'sub', 'rev', 'lt'])))
    return T3(P('ltack'), P(r.choice(M1DY)), P('rtack'))
def marr(g, sh):
    """argument for mapping: flat, or with array elements"""
    r = g.r
    k = r.random()
    if k < .6: return g.flat(sh, r.choice(['bit', 'small', 'i8', 'i8e', 'i16', 'i16e', 'i32', 'frac', 'c8', 'c16', 'abc']))
    if math.prod(sh) > 30: return g.mixed(sh)
    c = r.choice(['bit', 'small', 'abc', 'i16']); l = r.randint(0, 3)
    if k < .75: return arr(sh, [g.flat([l], c) for _ in range(math.prod(sh))])
    return g.nested(sh, 1) if r.random() < .5 else g.mixed(sh)
def agree_shapes(g, mx=40):
    r = g.r; sh = [g.ln(mx)] if r.random() < .55 else g.shape(r.choice([0, 2, 2, 3]), 5)
    k = r.randint(0, len(sh)); s2 = sh[:k]
    if r.random() < .12 and k: s2 = list(s2); s2[r.randrange(k)] += 1
    return (sh, s2) if r.random() < .5 else (s2, sh)
def gen_C10(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    def atomise(v): return v[2][0] if v[0] == 2 and not v[1] and r.random() < .7 else v
    for md in ['each', 'tbl']:
        for _ in n(260):
            x = marr(g, [g.ln(65)] if r.random() < .6 else g.shape(r.choice([0, 2, 3]), 5)); js.append(J(M1(md, monop(g)), NOW, atomise(x), 3, h=0))
        for _ in n(260):
            if md == 'each': a, b = agree_shapes(g)
            else: a, b = ([r.choice([0, 1, 2, 3, 4, 5, 9])] if r.random() < .7 else g.shape(r.choice([0, 2]), 3)), ([r.choice([0, 1, 2, 3, 4, 5, 8, 17, 33, 65])] if r.random() < .7 else g.shape(r.choice([0, 2]), 4))
            js.append(J(M1(md, dyop(g)), atomise(marr(g, a)), atomise(marr(g, b)), 3, h=0))
    for f in ['add', 'sub', 'mul', 'eq', 'lt', 'ge', 'floor', 'ltack', 'rtack', 'stile', 'and', 'or']: # table thresholds by type
        for c in ['bit', 'i8', 'i8e', 'i16e', 'i32e', 'frac', 'c8']:
            for _ in n(1.5):
                a, b = r.choice([1, 2, 3, 4, 7]), r.choice([3, 4, 5, 39, 40, 41, 79, 80, 81, 159, 160, 161, 319, 320, 321])
                if f in ('stile', 'mul', 'and', 'or') or c == 'frac': b = min(b, 41)
                c2 = 'small' if c == 'c8' else r.choice([c, 'bit', 'i8'])
                if f in ('stile', 'mul', 'and', 'or') and c == 'c8': continue
                w, x = g.flat([a] if r.random() < .8 else [a, 2], c if f != 'stile' else 'small'), g.flat([b] if r.random() < .8 else [3, b//3], c2)
                js.append(J(M1('tbl', P(f)), w, x, 4))
    def rks(): return r.choice([num(r.choice([0, 1, 1, 2, -1, -1, -2, 3])), nums([r.choice([0, 1, 2, -1]) for _ in range(r.choice([1, 2, 2, 3]))])])
    def shp(): return r.choice([[g.ln(40)], [r.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, 33]), r.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33])], [r.choice([1, 2, 3, 5, 9]), r.choice([1, 2, 3, 4, 7, 8])], g.shape(3, 4), g.shape(r.choice([0, 4]), 3)])
    for _ in n(900): # cells and rank, one argument
        sh = shp(); x = marr(g, sh)
        if math.prod(sh) > 130 and r.random() < .7: x = marr(g, [3, 5])
        t = M1('cells', monop(g)) if r.random() < .6 else M2('rank', monop(g), K(rks()) if r.random() < .95 else K(r.choice([num(.5), ch('a'), nums([]), nums([1, 1, 1, 1]), g.numarr([1, 1], 'bit')])))
        if r.random() < .08: t = M1('cells', t)
        js.append(J(t, NOW, atomise(x), 4, h=0))
    for _ in n(700): # cells and rank, two arguments
        c = r.choice(['bit', 'i8', 'i16', 'i32', 'frac', 'c8', 'c16', None]); c2 = r.choice([c, c, 'bit', 'i16', None])
        mk = lambda s, c: g.flat(s, c) if c else marr(g, s)
        k = r.random(); f = dyop(g)
        m = r.choice([1, 2, 3, 5, 9, 17]); l = r.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 31, 33])
        if k < .3: # rows by rows
            w, x = mk([m, l], c), mk([m, l if r.random() < .8 else 2], c2); t = M1('cells', f) if r.random() < .7 else M2('rank', f, K(num(1)))
            if r.random() < .4: x = json_copy(w); i = r.randrange(len(x[2])) if x[2] else 0; x[2][i:i+1] = [x[2][0]] if x[2] else []
        elif k < .55: # rows with one cell
            w, x = mk([l] if r.random() < .6 else [], c), mk([m, l], c2); t = M2('rank', f, K(nums([r.choice([1, 1, 0]), 1])))
            if r.random() < .5: w, x = x, w; t = M2('rank', f, K(nums([1, r.choice([1, 1, 0])])))
            if w[1] == [] or x[1] == []: t = M2('rank', f, K(num(1)))
        elif k < .7: w, x = mk([m], c), mk([m, l], c2); t = M2('rank', f, K(nums([0, 1]))) if r.random() < .7 else M1('cells', f)
        elif k < .8: w, x = mk([m], c), mk([r.randint(1, 4), min(l, 9)], c2); t = M2('rank', f, K(nums([0, -9])))if r.random() < .5 else M2('rank', M2('rank', f, K(nums([-9, 1]))), K(nums([0, -9])))
        else:
            a, b = agree_shapes(g, 12); w, x = marr(g, a), marr(g, b); t = M1('cells', f) if r.random() < .4 else M2('rank', f, K(rks()))
        js.append(J(t, atomise(w), atomise(x), 4, h=0))
    FOLDS = ['add', 'sub', 'mul', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'floor', 'ceil', 'and', 'or', 'not', 'ltack', 'rtack', 'join']
    for _ in n(110): # shifted rows
        m = r.choice([63, 64, 65, 66, 67, 70, 71, 99, 101, 129, 131]); l = r.choice([1, 2, 3, 3, 5, 6, 7, 9, 11, 13, 33]) if m < 72 else r.choice([2, 3, 5, 7, 9])
        c = r.choice(['bit', 'bit', 'bit', 'i8', 'c8', 'i16', 'frac']); x = g.flat([m, l], c); f = P(r.choice(['shb', 'sha'])); w = g.num('bit') if c == 'bit' else g.flat([1], c)[2][0]
        js.append(J(M1('cells', f), NOW, x, 3, h=0) if r.random() < .4 else J(M2('rank', M2('before', K(w), f), K(num(1))), NOW, x, 3, h=0) if r.random() < .6 else J(M2('rank', f, K(nums([0, 1]))), w, x, 3, h=0))
    for _ in n(560): # many short rows
        m = r.choice([7, 8, 9, 31, 33, 63, 64, 65, 66, 70, 101, 127, 128, 129, 200, 257, 300]); l = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 31, 33])
        while m*l > 1200: m = r.choice([7, 9, 33, 63, 64, 65, 101, 129]); l = r.choice([1, 2, 3, 4, 5, 7, 8, 9])
        sh = [m, l]
        if r.random() < .12: sh = r.choice([[m, l, 1], [m, 1, l], [m//3+1, 3, l], [m, 2, 2] if m < 200 else [m, 1, 1]])
        c = r.choice(['bit', 'bit', 'bit', 'i8', 'i8e', 'i16e', 'i32e', 'frac', 'c8', 'c16']); x = g.flat(sh, c); last = sh[-1]
        wr = lambda f: M1('cells', f) if len(sh) == 2 and r.random() < .6 else M2('rank', f, K(num(r.choice([1, 1, 1, -1]) if len(sh) > 2 else 1)))
        q = r.random()
        def one():
            k = r.random(); v = g.num('bit') if c == 'bit' or r.random() < .3 else g.flat([1], c)[2][0]
            if k < .25: return num(r.randint(-last, last-1))
            if k < .5: return v
            if k < .6: return g.flat([r.choice([last, last, max(1, last-1), 1, 2])], r.choice([c, 'bit']))
            return nums(idxs(g, last, r.choice([1, 2, 3, last, last, last+1, 8, 9])))
        if q < .2: t = wr(M1(r.choice(['fold', 'insert']), P(r.choice(FOLDS if c not in ('c8', 'c16') else ['floor', 'ltack', 'rtack', 'eq', 'join']))))
        elif q < .35: t = wr(M1('scan', P(r.choice(FOLDS if c not in ('c8', 'c16') else ['floor', 'ltack', 'rtack', 'eq']))))
        elif q < .55: t = wr(P(r.choice(['shb', 'sha', 'shb', 'sha', 'rev', 'select', 'pick', 'couple', 'shape', 'transp', 'and', 'or', 'find', 'gradeU', 'gradeD', 'indexOf', 'memberOf', 'count', 'lt', 'join'])))
        elif q < .8:
            f = r.choice(['select', 'select', 'select', 'pick', 'couple', 'shb', 'sha', 'shb', 'sha', 'take', 'drop', 'rev', 'transp', 'ltack', 'eq', 'lt', 'floor', 'shape', 'join'])
            w = nums(idxs(g, last, r.choice([1, 2, 3, last, last+1, 8, 9]))) if f == 'select' and r.random() < .7 else num(r.randint(-last, last-1)) if f in ('select', 'pick', 'take', 'drop', 'rev') else num(0) if f == 'transp' else num(r.randint(0, 3)) if f == 'shape' else one()
            t = wr(M2('before', K(w), P(f))) if r.random() < .7 or f in ('shape', 'transp') else None
            if t is None: t = M2('rank', P(f), K(nums([r.choice([0, 1]) if w[0] == 2 and w[1] else 0, 1]))); js.append(J(t, w, x, 4, h=0)); continue
        elif q < .9: # a cell with a cell
            d = r.choice([c, 'bit', 'i8']); f = r.choice(['couple', 'match', 'nmatch', 'ltack', 'join', 'eq', 'add' if c not in ('c8', 'c16') else 'lt', 'select'])
            w = g.flat([m] if len(sh) == 2 and r.random() < .35 else sh, d if f != 'select' else 'bit')
            if r.random() < .3 and w[1] == x[1] and f != 'select': w = json_copy(x); i = r.randrange(len(w[2])); w[2][i] = w[2][0]
            js.append(J(wr(P(f)), w, x, 4, h=0)); continue
        else: t = wr(M1('const', K(g.flat(r.choice([[], [1], [2], [3], [7], [8], [9]]), c)))) if r.random() < .5 else wr(M2(r.choice(['after', 'before']), P(r.choice(['eq', 'lt', 'couple'])), K(g.flat([last], c))) if r.random() < .5 else P(r.choice(['ne', 'eq', 'gt', 'lt', 'match'])))
        js.append(J(t, NOW, x, 4, h=0))
    for _ in n(60): js.append(J(M2('depth', monop(g), K(num(0))), NOW, marr(g, g.shape(r.choice([1, 1, 2]), 4)), 2, h=0)); js.append(J(M2('depth', dyop(g), K(num(0))), *(lambda a, b: (atomise(marr(g, a)), atomise(marr(g, b))))(*agree_shapes(g, 5)), 2, h=0))
    def small(): return atomise(marr(g, r.choice([[], [3], [1], [0], [5], [2, 3], [9], [4]])))
    for _ in n(170): # repeat
        c = r.choice([num(r.randint(0, 9)), num(r.randint(0, 40)), nums([r.randint(0, 5) for _ in range(r.randint(0, 4))]), lst([num(1), nums([2, 0])]), num(.5), ch('a'), g.numarr([2, 2], 'nat'), num(1), num(0)])
        if r.random() < .25: js.append(J(M2('repeat', monop(g), K(r.choice([num(r.randint(0, 3)), nums([2, 0, 1])]))), NOW, small(), 2, h=0))
        elif r.random() < .6: js.append(J(M2('repeat', r.choice([P('rtack'), P('sub'), M2('before', K(num(1)), P('add')), M2('before', K(num(2)), P('mul')), P('not'), P('rev'), M2('before', K(num(1)), P('rev'))]), K(c)), NOW, small(), 2, h=0))
        else: js.append(J(M2('repeat', r.choice([P('add'), P('join'), P('sub'), P('eq'), P('rtack')]), K(c)), small(), small(), 2, h=0))
        if r.random() < .3: js.append(J(M2('repeat', r.choice([P('rev'), P('not'), P('sub')]), P(r.choice(['eq', 'ne', 'ltack', 'pick', 'nmatch']))), NOW, small(), 2, h=0))
    def fn(d):
        """a function of any kind"""
        k = r.random()
        if d == 0 or k < .3: return P(r.choice(M1DY+['rev', 'sub', 'not', 'ne', 'eq', 'lt', 'pair', 'rtack', 'ltack']))
        if k < .36: return K(g.atom() if r.random() < .6 else nums([r.randint(0, 3)]*2))
        if k < .46: return M1('swap', fn(d-1))
        if k < .52: return M1(r.choice(['each', 'tbl', 'cells', 'fold', 'scan', 'insert']), fn(d-1))
        if k < .55: return M1('const', K(g.atom()))
        if k < .82: return M2(r.choice(['atop', 'over', 'before', 'after', 'val', 'catch']), fn(d-1), fn(d-1))
        if k < .87: return M2('cond', r.choice([fv(d-1), P('eq'), P('ne'), K(num(r.choice([0, 1, -1, 2])))]), {'k': 'fl', 'fs': [fn(d-1) for _ in range(r.randint(1, 3))]})
        if k < .93: return T2(fv(d-1), fv(d-1))
        return T3(fn(d-1), fv(d-1), fv(d-1))
    def fv(d): t = fn(d); return M1('const', t) if t['k'] == 'c' else t
    for _ in n(1100):
        js.append(J(fv(r.choice([1, 2, 2, 3, 3, 4])), NOW if r.random() < .5 else small(), small(), 2, h=0))
    return [tamed(j) for j in js]
def tnames(t): return {t.get('n')} | set().union(*[tnames(t[k]) for k in 'fgh' if isinstance(t.get(k), dict)], *[tnames(x) for x in t.get('fs', [])])
def tame(v, m=9):
    """numbers that are safe as sizes"""
    if v[0] == 2: return [2, v[1], [tame(e, m) for e in v[2]]]
    if v[0] == 0 and abs(v[1]) > m: return [0, v[1] % (m+1)]
    return [0, 3] if v[0] == 3 and abs(dec_num(v)) > m else v
SIZERS = {'ud', 'slash', 'take', 'shape', 'group', 'repeat'}
def homog(v): return v[0] != 2 or len({min(e[0], 2) if e[0] != 3 else 0 for e in v[2]}) <= 1 and not any(e[0] == 2 for e in v[2])
FILLERS = {'take', 'shb', 'sha'}
def renamed(t, m):
    if isinstance(t, dict): return {k: (m.get(v, v) if k == 'n' else renamed(v, m)) for k, v in t.items()}
    return [renamed(e, m) for e in t] if isinstance(t, list) and t and isinstance(t[0], dict) else t
def nofillers(t):
    """the same term without functions that look at fills"""
    if isinstance(t, dict): return {k: ({'take': 'drop', 'shb': 'rev', 'sha': 'rev'}.get(v, v) if k == 'n' else nofillers(v)) for k, v in t.items()}
    return [nofillers(e) for e in t] if isinstance(t, list) and t and isinstance(t[0], dict) else t
def tamed(j):
    if tnames(j['t']) & FILLERS and not (homog(j['x']) and (j['w'] == NOW or homog(j['w'])) and tsize(j['t']) <= 5): j['t'] = nofillers(j['t'])
    nm = tnames(j['t'])
    if 'catch' in nm: j['t'] = renamed(j['t'], {'find': 'match', 'group': 'memberOf'})     # not always native
    if nm & SIZERS:
        l = max([max(v[1], default=0) for v in (j['w'], j['x']) if v[0] == 2], default=0)
        direct = j['t']['k'] == 'm1' and j['t']['n'] in ('each', 'tbl') and j['t']['f']['k'] == 'p' and j['w'] == NOW
        m = 9 if l <= 3 or not nm & {'ud', 'take', 'shape'} or direct else 3 if l <= 6 else 1
        j['w'], j['x'] = (tame(j['w'], m) if j['w'] != NOW else NOW), tame(j['x'], m)
    return j
def tsize(t): return 1 + sum(tsize(t[k]) for k in 'fgh' if isinstance(t.get(k), dict)) + sum(tsize(x) for x in t.get('fs', []))

# ---------------------------------------------------------------- representation independence
def gen_C02(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    for i, (gf, k) in enumerate([(gen_C01, 260), (gen_C04, 330), (gen_C05, 260), (gen_C06, 170), (gen_C07, 150), (gen_C08, 190), (gen_C09, 200), (gen_C10, 300)]):
        a = gf(seed*31+7+i, .5)
        a = [j for j in a if j['x'][0] == 2 and j['x'][2] or j['w'][0] == 2 and j['w'][2]]
        for j in r.sample(a, min(len(a), int(k*scale))): js.append(dict(j, n=12, op=1))
    for _ in n(260): # nested values: match, order, search, deduplication
        base = g.nested([r.randint(1, 4)], 2); oth = json_copy(base)
        if r.random() < .5: mutate(g, oth)
        pool = [base, oth, g.anyarr(5), json_copy(base), g.atom(), g.nested([2], 2)]
        l = lst([json_copy(r.choice(pool)) for _ in range(r.randint(2, 9))])
        k = r.randrange(4)
        if k == 0: js.append(J(P(r.choice(['match', 'nmatch', 'eq', 'ne'])), base, oth, 8))
        elif k == 1: js.append(J(P(r.choice(['indexOf', 'count', 'memberOf', 'find', 'gradeU', 'gradeD', 'and', 'or'])), NOW, l, 8))
        elif k == 2: js.append(J(P(r.choice(['indexOf', 'memberOf', 'count'])), l, lst([json_copy(r.choice(pool)) for _ in range(4)]), 8))
        else: js.append(J(P(r.choice(['le', 'lt', 'ge'])), base, oth, 4)) if r.random() < .3 else js.append(J(P('find'), lst(l[2][:1]), l, 6))
    un = ['sub', 'not', 'floor', 'ceil', 'stile', 'mul', 'rev', 'transp', 'shape', 'gradeU', 'gradeD', 'and', 'or', 'find', 'memberOf', 'indexOf', 'count', 'ne', 'eq', 'nmatch', 'match', 'lt', 'couple', 'pair', 'rtack', 'slash', 'join', 'select', 'pick', 'take', 'drop', 'root', 'div', 'pow']
    bi = ['add', 'sub', 'mul', 'floor', 'ceil', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or', 'not', 'match', 'nmatch', 'join', 'couple', 'pair', 'shb', 'sha', 'indexOf', 'memberOf', 'count', 'find', 'select', 'rev', 'drop', 'slash', 'stile', 'div', 'ltack', 'rtack', 'gradeU', 'transp', 'shape']
    def fn(d):
        k = r.random()
        if d == 0: return P(r.choice(un))
        if k < .45: return T2(P(r.choice(un)), fn(d-1))
        if k < .75: return T3(fn(d-1), P(r.choice(bi)), r.choice([fn(d-1), P('rtack'), P('rtack')]))
        if k < .85: return T2(M1(r.choice(['each', 'cells', 'fold', 'scan', 'insert']), P(r.choice(bi[:14]+['rtack', 'ltack', 'rev', 'ne']))), fn(d-1))
        return T2(M2('before', K(r.choice([num(r.randint(-3, 3)), num(1), nums([0, 1])])), P(r.choice(bi))), fn(d-1))
    for _ in n(700):
        sh = [r.choice([1, 2, 3, 5, 8, 9, 16, 17, 33])] if r.random() < .75 else g.shape(2, 5)
        x = g.flat(sh, r.choice(['bit', 'small', 'i8e', 'nat', 'i16e', 'i32e', 'frac', 'abc', 'c8', 'c16', 'const', 'late']))
        js.append(J(fn(r.choice([1, 2, 3])), NOW, x, 9, h=0, op=1))
    for _ in n(300): # no claim about the value, only that it does not depend on the representation
        x = g.flat([r.choice([3, 8, 17])], r.choice(['bit', 'nat', 'small', 'i8', 'frac', 'i16e']))
        w = r.choice([num(2), num(.5), num(3), g.flat([len(x[2])], 'nat')])
        js.append(J(P(r.choice(['pow', 'root'])), r.choice([NOW, w, w]), x, 6, op=1))
    return js
def mutate(g, v):
    r = g.r
    if v[0] == 2 and v[2]:
        i = r.randrange(len(v[2]))
        if v[2][i][0] == 2 and v[2][i][2] and r.random() < .7: mutate(g, v[2][i])
        else: v[2][i] = r.choice([g.atom(), v[2][i], lst([v[2][i]])])

# ---------------------------------------------------------------- user functions: values and calls
def hasr(t): return '"k": "r"' in __import__('json').dumps(t)
def res_list(g):
    """results of the successive calls of the user functions"""
    r = g.r; k = r.random()
    if k < .4: return []
    n = r.randint(1, 7)
    if k < .65: v = [g.num('i16e') for _ in range(n)]
    elif k < .8: v = [r.choice([g.atom(), g.flat([2], 'i8'), st('ab'), arr([], [num(1)])]) for _ in range(n)]
    elif k < .9: sh = r.choice([[2], [0], [2, 2], [1]]); v = [g.flat(sh, 'small') for _ in range(n)]
    else: v = [g.num('bit') for _ in range(n)]
    if r.random() < .3: v[r.randrange(n)] = ERR
    return v
def gen_calls09(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    for _ in range(int(700*scale)):
        op = R(0) if r.random() < .75 else r.choice([M1('swap', R(0)), T3(R(0), R(1), R(0)), T2(R(1), R(0)), M2('before', R(1), R(0)), T2(P('rtack'), R(0)), M2('after', P('add'), R(0)), M2('val', P('sub'), R(0))])
        md = r.choice(['fold', 'scan', 'insert']); rs = res_list(g)
        if tsize(op) > 2 and not rs: rs = [g.num('i8')]
        L = g.ln(40) if rs else r.randint(0, 12)
        sh = [L] if r.random() < .55 else g.shape(r.choice([0, 2, 2, 3]), 4)
        if not rs: sh = [min(a, 5) for a in sh] if len(sh) > 1 else sh
        x = marr(g, sh)
        if md == 'scan' and len(sh) > 0 and r.random() < .4: w = marr(g, sh[1:] if r.random() < .9 else sh)
        else: w = NOW if r.random() < .5 else r.choice([g.atom(), g.flat([2], 'i8'), marr(g, sh[1:])])
        t = M1(md, op)
        if len(sh) > 1 and r.random() < .25: t = M1('cells', t) if r.random() < .5 else M2('rank', t, K(num(1))); w = NOW
        js.append(dict(t=t, w=w, x=x, r=rs, n=3))
    return js
def gen_calls10(seed, scale=1.0):
    g = G(seed); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    def small(): v = marr(g, r.choice([[], [3], [1], [0], [5], [2, 3], [9], [4]])); return v[2][0] if not v[1] and v[0] == 2 and r.random() < .7 else v
    def op(d):
        k = r.random()
        if d == 0 or k < .5: return R(r.randrange(3))
        if k < .6: return P(r.choice(['rtack', 'ltack', 'pair', 'lt', 'rev', 'add', 'not', 'match', 'ne', 'join']))
        if k < .66: return M1('const', K(g.atom())) if r.random() < .5 else M1('swap', op(d-1))
        if k < .72: return M1(r.choice(['each', 'tbl', 'cells']), op(d-1))
        if k < .86: return M2(r.choice(['atop', 'over', 'before', 'after', 'val', 'catch']), op(d-1), op(d-1))
        if k < .9: return M2('cond', op(d-1), {'k': 'fl', 'fs': [op(d-1) for _ in range(r.randint(1, 3))]})
        if k < .94: return T2(op(d-1), op(d-1))
        return T3(op(d-1), op(d-1), op(d-1))
    def lim(t, rs): return rs if tsize(t) <= 3 else rs or [g.num('i8'), g.num('bit')]
    for _ in n(330):
        md = r.choice(['each', 'tbl', 'cells', 'rank', 'depth']); t0 = op(r.choice([0, 0, 0, 1, 2])); rs = lim(t0, res_list(g))
        t = M1(md, t0) if md in ('each', 'tbl', 'cells') else M2('depth', t0, K(num(0))) if md == 'depth' else M2('rank', t0, K(r.choice([num(r.choice([0, 1, -1, 2])), nums([r.choice([0, 1, -1]) for _ in range(r.randint(1, 3))])])))
        if r.random() < .45: w, x = NOW, marr(g, [g.ln(20)] if r.random() < .5 else g.shape(r.choice([0, 2, 3]), 4))
        elif md == 'tbl': w, x = marr(g, r.choice([[3], [1], [0], [2, 2], []])), marr(g, r.choice([[3], [1], [0], [2, 2], [], [5]]))
        else: a, b = agree_shapes(g, 9); w, x = marr(g, a), marr(g, b)
        js.append(dict(t=t, w=w, x=x, r=rs, n=3))
    for _ in n(110):
        c = r.choice([num(r.randint(0, 9)), nums([r.randint(0, 5) for _ in range(r.randint(0, 4))]), lst([num(1), nums([2, 0])]), num(.5), g.numarr([2, 2], 'nat')])
        t = M2('repeat', op(r.choice([0, 1])), K(c)) if r.random() < .8 else M2('repeat', op(0), M2('before', R(2), P('ltack')))
        if 'tbl' in tnames(t) and t['g']['k'] == 'c': t['g'] = K(num(r.randint(0, 2)))
        rs = lim(t, res_list(g)) if r.random() < .7 else [num(r.randint(0, 3 if 'tbl' not in tnames(t) else 1)) for _ in range(3)]
        js.append(dict(t=t, w=NOW if r.random() < .6 else small(), x=small(), r=rs, n=3))
    for _ in n(160):
        c = r.choice([R(0), op(1), K(num(r.choice([0, 1, -1, 2, 5]))), P('eq'), P('ne')])
        t = M2('cond', c, {'k': 'fl', 'fs': [op(r.choice([0, 1])) for _ in range(r.randint(1, 3))]})
        js.append(dict(t=t, w=NOW if r.random() < .5 else small(), x=small(), r=[num(r.choice([0, 1, 0, 1, -1, 2, .5])) for _ in range(r.randint(1, 4))] if r.random() < .8 else lim(t, res_list(g)), n=3))
    for _ in n(160): # catch: errors at some call
        t = M2('catch', op(r.choice([0, 1, 2])), op(r.choice([0, 1]))); rs = [g.num('i8') for _ in range(r.randint(1, 5))]
        if r.random() < .85: rs[r.randrange(len(rs))] = ERR
        if r.random() < .4: t = M1(r.choice(['each', 'fold', 'scan', 'cells']), t)
        js.append(dict(t=t, w=NOW if r.random() < .5 else small(), x=small(), r=rs, n=3))
    for _ in n(330): # combinators and trains
        t = op(r.choice([1, 2, 2, 3])); js.append(dict(t=t, w=NOW if r.random() < .5 else small(), x=small(), r=lim(t, res_list(g)), n=3))
    for _ in n(60): # under: the function is called once, on the selected part
        t = M2('under', R(0), r.choice([P('rev'), P('shape'), M2('before', K(num(0)), P('pick')), M2('before', K(nums([0, -1])), P('select')), M2('before', K(num(1)), P('drop')), P('rtack'), P('pick'), P('lt'), T2(P('rev'), M2('before', K(num(1)), P('drop')))]))
        x = marr(g, [r.randint(1, 6)]); js.append(dict(t=t, w=NOW, x=x, r=[] if r.random() < .4 else [r.choice([g.atom(), g.flat([2], 'i8'), json_copy(x)])], n=3))
    return [j for j in js if hasr(j['t']) and top_is_fn(j['t'])]
def top_is_fn(t): return t['k'] != 'c'

# ---------------------------------------------------------------- undo
def gen_C11(seed, scale=1.0):
    g = G(seed*31+7); r = g.r; js = []
    def n(k): return range(max(1, int(k*scale)))
    U = lambda f: M1('undo', f)
    def swaps(f, k):
        for _ in range(k): f = M1('swap', f)
        return f
    def ctx(t, w, x, reps=4):
        """the undone function on its own, or mapped over parts"""
        q = r.random()
        if q < .75: js.append(J(t, w, x, reps)); return
        if w == NOW:
            y = arr([r.choice([1, 2, 3])], []); y[2] = [json_copy(x) for _ in range(y[1][0])]
            if q < .85: js.append(J(M1('each', t), NOW, y, reps)); return
            if q < .9: js.append(J(M1('each', T2(P('lt'), t)), NOW, y, reps)); return
            if q < .95: js.append(J(M2('catch', t, P('pair')), NOW, x, reps)); return
        js.append(J(M2('atop', P('pair'), t), w, x, reps))
    bad = lambda: r.choice([num(5), num(.5), ch('a'), g.flat([3], 'i8'), g.flat([2, 3], 'bit'), arr([], [num(3)]), lst([]), arr([0, 3], []), st('ab'), lst([num(1)]), arr([], [g.flat([2], 'i8')]), lst([g.flat([2], 'i8')])])
    for _ in n(70): # negation
        x = g.flat(g.shape(r.choice([0, 1, 1, 2]), 9), r.choice(['bit', 'i8', 'i8e', 'i16e', 'i32e', 'frac'])) if r.random() < .8 else g.nested([r.randint(1, 4)], 1) if r.random() < .5 else bad()
        if x[0] == 2 and r.random() < .1: x = x[2][0] if x[2] else x
        ctx(U(P('sub')), NOW, x)
    for _ in n(120): # enclose, pair, couple
        f = r.choice(['lt', 'pair', 'couple']); v = sarr(g, pick_shape(g, 40)) if r.random() < .7 else g.atom()
        x = arr([], [v]) if f == 'lt' else lst([v]) if f == 'pair' else arr([1]+(v[1] if v[0] == 2 else []), v[2] if v[0] == 2 else [v])
        if r.random() < .25: x = bad() if r.random() < .6 else v
        ctx(U(P(f)), NOW, x)
    for _ in n(60): # cells of one row
        sh = r.choice([[3, 1], [5, 1, 2], [1, 1], [2, 1, 1], [0, 1], [2, 2], [3, 1, 0], [64, 1], [3]]); x = marr(g, sh)
        js.append(J(M1('cells', U(P('couple'))) if r.random() < .7 else M2('rank', U(P('couple')), K(num(r.choice([1, 2, -1, 0])))), NOW, x, 4, h=0))
    for _ in n(150): # reverse, rotate
        x = sarr(g, pick_shape(g, 129)) if r.random() < .93 else bad()
        q = r.random(); rk = len(x[1]) if x[0] == 2 else 0
        if q < .2: ctx(U(P('rev')), NOW, x); continue
        w = num(r.choice([0, 1, -1, 2, -2, 3, 5, 64, 65, 127, 1000, -1000])) if r.random() < .5 else nums([r.randint(-9, 9) for _ in range(r.randint(0, rk))])
        if r.random() < .06: w = r.choice([ch('a'), num(.5), nums([1]*(rk+1)), lst([ch('a')]), g.numarr([1, 1], 'bit'), arr([], [num(2)])])
        k = r.choice([0, 0, 1, 2, 3])
        if k in (0, 2): js.append(J(M2('before', K(w), U(swaps(P('rev'), k))), NOW, x, 4) if r.random() < .3 else J(U(swaps(P('rev'), k)), w, x, 4) if r.random() < .5 else J(U(M2('before', K(w), swaps(P('rev'), k))), NOW, x, 4))
        else: js.append(J(U(M2('after', swaps(P('rev'), k), K(w))), NOW, x, 4))
    for _ in n(200): # transpose, reorder
        rk = r.choice([1, 2, 2, 3, 3, 4, 5]); sh = [r.choice([0, 1, 2, 3, 4, 5]) if r.random() < .2 else r.randint(1, 4) for _ in range(rk)]
        if rk == 2 and r.random() < .7: sh = [r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33]) for _ in 'ab']
        if rk == 3 and r.random() < .3: sh = [r.randint(1, 3), r.choice([1, 5, 8, 9]), r.choice([1, 8, 16, 17])]
        x = sarr(g, sh) if r.random() < .94 else bad(); rk = len(x[1]) if x[0] == 2 else 0
        if r.random() < .4: ctx(U(P('transp')), NOW, x); continue
        k = r.randint(0, rk); p = list(range(rk)); r.shuffle(p); w = nums(p[:k])
        if r.random() < .25 and rk: w = num(r.randrange(rk))
        if r.random() < .15: w = r.choice([nums([0]*max(1, min(rk, 2))), nums([rk]), num(rk), num(-1), ch('a'), num(.5), nums(list(range(rk+1))), nums([-1]), arr([1, 1], [num(0)])])
        q = r.random(); t = P('transp')
        js.append(J(U(t), w, x, 4) if q < .5 else J(U(M2('before', K(w), t)), NOW, x, 4) if q < .7 else J(U(M2('after', M1('swap', t), K(w))), NOW, x, 4) if q < .85 else J(U(swaps(t, 2)), w, x, 4))
    for _ in n(190): # indices
        L = r.choice([0, 1, 2, 3, 7, 8, 9, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]); m = r.choice([1, 2, 3, 8, 9, 63, 64, 127, 128, 129, 255, 256, 300, 1000])
        q = r.random()
        if q < .35: v = sorted(r.randrange(m) for _ in range(L))
        elif q < .55: v = sorted(r.sample(range(max(m, L)), L))
        elif q < .75: v = [r.randrange(m) for _ in range(L)]
        elif q < .85: v = [r.choice([m-1, 0, m//2])]*L
        else: v = sorted(r.choices([0, 1, m-1, m//2], k=L))
        x = nums(v)
        if r.random() < .1 and L: i = r.randrange(L); x[2][i] = r.choice([num(-1), num(.5), ch('a'), num(-128), num(-129), num(2**20+.5), lst([num(1)]), num(-1e10)])
        if r.random() < .04: x = r.choice([num(1), ch('a'), g.numarr([2, 2], 'bit'), arr([], [num(1)]), st('a'), lst([ch('a')]), arr([0, 2], [])])
        ctx(U(P('slash')), NOW, x, 5)
    for m, L in [(40000, 5), (32767, 40), (32768, 300), (33000, 3), (50000, 400)]: # a wide range of indices
        x = nums(sorted(r.randrange(m) for _ in range(L)) if r.random() < .6 else [r.randrange(m) for _ in range(L)]); x[2][0 if m == 33000 else -1] = num(m-1 if L != 3 else 33000)
        if L != 3 or scale > 1: js.append(J(U(P('slash')), NOW, x, 2))
    for L, m in [(600, 3), (700, 300), (1500, 2), (1300, 1), (40000, 3), (33000, 200), (70000, 2)]: # long ones, mostly the same number
        x = nums([m-1]*L); 
        for _ in range(5): x[2][r.randrange(L)] = num(r.randrange(m))
        if r.random() < .5: x[2].sort(key=lambda e: e[1])
        if L < 2000 or scale > 1: js.append(J(U(P('slash')), NOW, x, 3))
    for _ in n(50): # exact powers, rounded
        def pw(b): return num(b**r.randint(0, {2: 29, 3: 18, 4: 14, 5: 12, 7: 10, 10: 9}[b]))
        rd = lambda t: M2('atop', T2(P('floor'), M2('before', K(num(.5)), P('add'))), t)
        b = r.choice([2, 3, 4, 5, 7, 10]); q = r.random()
        x = pw(b) if q < .3 else lst([pw(b) for _ in range(r.randint(0, 9))]); w = num(b)
        if q > .7 and len(x[2]): x = lst([pw(2), pw(3), pw(10)]); w = nums([2, 3, 10])
        if r.random() < .08: x = r.choice([ch('a'), lst([ch('b')]), lst([num(1), ch('c')])])
        js.append(J(rd(U(P('pow'))), w, x, 3) if r.random() < .6 else J(rd(U(M2('before', K(w), P('pow')))), NOW, x, 3))
    for _ in n(170): # F F⁼ x, up to rounding
        rd = lambda t: M2('atop', M2('atop', T2(P('floor'), M2('before', K(num(.5)), P('add'))), M2('before', K(num(10**6)), P('mul'))), t)
        f, lo, hi = r.choice([('sin', -1, 1), ('cos', -1, 1), ('tan', -50, 50), ('sinh', -50, 50), ('cosh', 1, 50), ('tanh', -.9, .9), ('asin', -1.5, 1.5), ('acos', 0, 3), ('atan', -1.5, 1.5), ('asinh', -9, 9), ('acosh', 0, 9), ('atanh', -5, 5), ('log1p', -5, 20), ('expm1', -.9, 900), ('fact', 1, 900), ('logfact', .1, 180), ('pow', .1, 900), ('atan2', 0, 0), ('atan2s', 0, 0), ('pow2', 0, 0)])
        v = lambda lo, hi: num(r.randint(math.ceil(lo*64), int(hi*64))/64)
        def vals(lo, hi, k): return v(lo, hi) if k == 0 else lst([v(lo, hi) for _ in range(k)])
        k = r.choice([0, 0, 1, 3, 7]); B = lambda t, d=False: {'k': 'm1', 'n': 'back', 'f': t, **({'d': True} if d else {})}
        if f == 'atan2': js.append(J(rd(B(Y('atan2'), True)), vals(.2, 90, k), vals(-1.5, 1.5, k), 2))
        elif f == 'atan2s': js.append(J(rd(B(M1('swap', Y('atan2')), True)), vals(.2, 90, k), vals(.1, 2.8, k), 2))
        elif f == 'pow2': js.append(J(rd(B(P('pow'), True)), vals(1.3, 90, k), vals(.1, 900, r.choice([0, k])), 2))
        else: js.append(J(rd(B(P('pow') if f == 'pow' else Y(f))), NOW, vals(lo, hi, k) if r.random() < .95 else r.choice([ch('a'), lst([ch('a')])]), 2))
    return js
