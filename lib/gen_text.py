"""operations on text encodings, numerals and bits"""
import random, struct, math, json, gen
from bq import *
CPS = [0, 1, 65, 127, 128, 129, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10001, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 8734, 175, 120169]
def cp(r):
    return r.choice([lambda: r.choice(CPS), lambda: r.randint(0, 127), lambda: r.randint(128, 0x7ff), lambda: r.randint(0x800, 0xffff), lambda: r.randint(0x10000, 0x10ffff)])()
def enc(c):
    return bytes([c]) if c < 128 else bytes([192+(c >> 6), 128+(c & 63)]) if c < 2048 else bytes([224+(c >> 12), 128+((c >> 6) & 63), 128+(c & 63)]) if c < 65536 else bytes([240+(c >> 18), 128+((c >> 12) & 63), 128+((c >> 6) & 63), 128+(c & 63)])
def utf(g):
    r = g.r; n = r.choice([0, 1, 1, 2, 3, 5, 8, 17, 40])
    k = r.random()
    hi = r.choice([127, 255, 0x7ff, 0xffff, 0x10ffff])
    cs = [min(cp(r), hi) for _ in range(n)]
    if k < .35:
        x = lst([ch(c) for c in cs])
        if r.random() < .06: x = r.choice([arr([1, n], x[2]), arr([], [ch(cs[0] if cs else 97)]), ch(97), num(3), lst(x[2]+[num(1)]), lst([x])])
        return ['toutf8', x]
    bs = b''.join(map(enc, cs))
    if k > .6:
        bs = bytearray(bs)
        m = r.random()
        if m < .25 and bs: del bs[r.randrange(len(bs))]
        elif m < .5 and bs: bs[r.randrange(len(bs))] = r.choice([0, 65, 127, 128, 191, 192, 193, 194, 223, 224, 239, 240, 244, 245, 247, 248, 255, r.randrange(256)])
        elif m < .6: bs = bs[:r.randint(0, len(bs))]
        elif m < .75: bs[r.randint(0, len(bs)):0] = b''; p = r.randint(0, len(bs)); bs[p:p] = bytes([r.choice([0x80, 0xbf, 0xc0, 0xc1, 0xe0, 0xf0, 0xf4, 0xf5, 0xf8, 0xff])])
        elif m < .88: # overlong
            c = cp(r); p = r.randint(0, len(bs)); l = r.choice([2, 3, 4])
            if c >= [0, 0, 1 << 11, 1 << 16, 1 << 21][l]: c &= [0, 0, 63, 2047, 65535][l]
            bs[p:p] = bytes([[0, 0, 192, 224, 240][l] | c >> (6*(l-1)) & 63]+[128 | c >> 6*i & 63 for i in range(l-2, -1, -1)])
        else: bs += enc(r.choice([0x110000, 0x13ffff, 0x1fffff]))
    t = r.random()
    x = lst([ch(c) for c in bs]) if t < .4 else nums(bs) if t < .9 else lst([r.choice([ch, num])(c) for c in bs])
    if r.random() < .05: x = r.choice([arr([1, len(bs)], x[2]), arr([], [ch(97)]), lst(x[2]+[ch(256)]), lst(x[2]+[num(256)]), lst(x[2]+[num(.5)]), num(65)])
    return ['fromutf8', x]
def dbl(g):
    r = g.r; k = r.random()
    if k < .3: return struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
    if k < .4: return r.choice([5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 9007199254740992., 9007199254740993., 1e21, 1e22, 1e23, 1e15, 1e16, 1e17, .1, .3, 1e-5, 1e-7, 123456.789, 4.5, 1/3, math.inf, -math.inf, math.nan, 0., 1., 2**31., 2.**63, -2.**-1074, 100., 1000000., 1e10])
    if k < .6: return g.nv(r.choice(g.CLS[:9]))
    if k < .75: return math.ldexp(r.randint(1, 2**r.randint(1, 53)), r.randint(-1074, 970))
    if k < .9: return r.choice([1, -1])*round(r.random()*10**r.randint(0, 6), r.randint(0, 8))
    return float('%d' % r.randint(1, 9)+'e%d' % r.randint(-323, 308))
def numeral(g):
    r = g.r; k = r.random()
    if k < .25: s = repr(dbl(g)) if r.random() < .7 else '%.17e' % dbl(g)
    elif k < .5: # near a midpoint between two doubles
        d = abs(dbl(g))
        if not d < 1e308 or d == 0: d = r.random()
        u = math.ulp(d)
        from fractions import Fraction as F
        m = F(d)+F(u)/2; e = math.floor(math.log10(float(m))) if float(m) > 0 else -324
        p = 17-e; q = m*F(10)**p; v = int(q)+r.choice([0, 0, 1]); s = '%de%d' % (v, -p)
        if len(str(v)) > 18: s = '%de%d' % (int(str(v)[:18]), len(str(v))-18-p)
    elif k < .8:
        ip = ''.join(r.choice('0123456789') for _ in range(r.choice([0, 1, 1, 2, 5, 9, 17])))
        if r.random() < .2: ip = '0'*r.randint(1, 25)+ip
        fp = ''.join(r.choice('0123456789') for _ in range(r.choice([0, 1, 2, 6])))
        if r.random() < .15: fp = '0'*r.randint(1, 30)+fp
        s = r.choice(['', '', '-'])+ip+(r.choice(['.', ''])+fp if r.random() < .6 else '')
        if r.random() < .5: s += r.choice('eE')+r.choice(['', '-', '+'])+str(r.choice([0, 1, 5, 22, 23, 300, 308, 309, 323, 324, 325, 400, 99999, 10**12, r.randint(0, 340)]))
    else: s = r.choice(['1e5', '12.5', '-3', '0', '-0', '0.0', '1e308', '5.', '.5', '4e-324', '2e-324', '3e-324', '1.7976931348623157e308', '1.7976931348623159e308', '1e309', '0e99999999999'])
    s = s.replace('inf', '1e999').replace('nan', '0')
    if r.random() < .25: # malformed
        p = r.randint(0, len(s)); s = s[:p]+r.choice(['.', 'e', '-', '+', ' ', 'x', '_', '¯', 'E', ','])+s[p:]
        if r.random() < .3: s = r.choice(['', '-', '.', 'e', '-.', '.e1', '-e', '1e', '1e+', '1e-', '1.e', '1..2', '--1', '+1', '1e5.', '1e1e1', '¯1', '∞', 'NaN', '1_0', ' 1', '1 '])
    x = st(s)
    if r.random() < .05: x = r.choice([num(3), ch(49), arr([1, len(s)], x[2]), lst(x[2]+[num(1)]), lst([x]), nums([1, 2])])
    return ['parse', x]
def width(t): return t[0]
TYS = [(1, 'u'), (8, 'i'), (16, 'i'), (32, 'i'), (8, 'c'), (16, 'c'), (32, 'c'), (64, 'f')]
def elem(g, t):
    r = g.r
    if t[1] == 'u': return num(r.randint(0, 1))
    if t[1] == 'c': return ch(r.choice([0, 1, 97, 127, 128, 255, r.randint(0, 255)]) if t[0] == 8 else r.choice([0, 255, 256, 0xd800, 65535, r.randint(0, 65535)]) if t[0] == 16 else r.choice([0, 65535, 65536, 0x10ffff, r.randint(0, 0x10ffff)]))
    if t[1] == 'i': w = t[0]; return num(r.choice([0, 1, -1, 2**(w-1)-1, -2**(w-1), r.randint(-2**(w-1), 2**(w-1)-1)]))
    while 1:
        d = r.choice([lambda: struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0], lambda: float(r.randint(-5, 5)), lambda: r.random(), lambda: math.inf, lambda: 5e-324, lambda: 2.**53])()
        if d == d: return num(d+0.0)
def vbits(v, t):
    w, k = t
    if k == 'f':
        d = dec_num(v); return struct.unpack('<Q', struct.pack('<d', d+0.0))[0]
    return (v[1] if k == 'c' or v[0] == 0 else int(dec_num(v))) & ((1 << w)-1)
def tobits(vs, t):
    o = []
    for v in vs: x = vbits(v, t); o += [x >> i & 1 for i in range(t[0])]
    return o
def isnan64(bits): # some 64-bit chunk is a NaN (whose bits a float does not keep) or could be
    for i in range(0, len(bits)-63, 64):
        if all(bits[i+52:i+63]) and any(bits[i:i+52]): return True
    return False
def desc(r, t, left):
    """width or ⟨width, type⟩ denoting t"""
    bare = (t[1] != 'c') or left
    if bare and r.random() < .6: return num(t[0])
    return lst([num(t[0]), ch(t[1])])
def shaped(g, n, mult):
    """shape of n-ish elements whose last axis is a multiple of mult"""
    r = g.r; rk = r.choice([1, 1, 1, 2, 3]); last = mult*max(0, round(n/mult)) if r.random() > .04 else 0
    return [r.randint(0, 3) if r.random() < .1 else r.randint(1, 3) for _ in range(rk-1)]+[last]
def cast(g):
    r = g.r
    while 1:
        a, c = r.choice(TYS), r.choice(TYS)
        m = max(1, c[0]//a[0])
        sh = shaped(g, r.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 128]) if a[0] < 32 else r.choice([1, 2, 3, 4, 8, 9, 17]), m)
        n = math.prod(sh)
        if n*a[0] > 3000: continue
        bad = r.random() < .06
        if bad: sh[-1] += 1; n = math.prod(sh)
        if c == (32, 'c'): # only characters in range
            import itertools
            cs = [r.choice([0, 97, 65535, 65536, 0x10ffff, r.randint(0, 0x10ffff)]) for _ in range(n*a[0]//32+1)]
            bits = [x >> i & 1 for x in cs for i in range(32)][:n*a[0]]
            vs = frombits(bits, a)
            if vs is None: continue
            if len(vs) < n: vs += [vs[0]]*(n-len(vs)) if vs else [elem(g, a)]*n
        else: vs = [elem(g, a) for _ in range(n)]
        if not bad and c[1] == 'f' and isnan64(tobits(vs, a)): vs = [e if r.random() < .3 else z for e, z in zip(vs, [num(0) if a[1] != 'c' else ch(0)]*n)]
        if not bad and c[1] == 'f' and isnan64(tobits(vs, a)): continue
        x = arr(sh, vs)
        da, dc = desc(r, a, True), desc(r, c, False)
        if a[1] != 'c' and n == 0 and r.random() < .5: pass
        p = lst([da, dc])
        o = 'cast'
        if r.random() < .3: # the inverse: widths exchanged; then a bare right width of a character type is not written
            p = lst([dc, da]); o = 'uncast'
        if r.random() < .06:
            p = r.choice([lst([num(7), dc]), lst([da, num(24)]), num(8), lst([da]), lst([da, dc, dc]), lst([lst([num(64), ch('i')]), dc]), lst([lst([num(8), ch('x')]), dc]), lst([da, lst([num(16), ch('f')])]), lst([ch('c'), dc]), lst([da, lst([num(8)])]), lst([da, num(-8)]), lst([da, num(8.5)]), arr([1, 2], [num(8), num(8)])])
        if r.random() < .03: x = r.choice([num(3), arr([], [num(1)]), ch(97)])
        return [o, p, x]
def frombits(bits, t):
    o = []
    for i in range(0, len(bits)-t[0]+1, t[0]):
        x = sum(bt << k for k, bt in enumerate(bits[i:i+t[0]]))
        if t[1] == 'c':
            if x > 0x10ffff: return None
            o.append(ch(x))
        elif t[1] == 'u': o.append(num(x))
        elif t[1] == 'i': o.append(num(x-(1 << t[0]) if x >> (t[0]-1) else x))
        else:
            d = struct.unpack('<d', struct.pack('<Q', x))[0]
            if d != d: return None
            if x == 1 << 63: return None
            o.append(num(d))
    return o
def bitop(g):
    r = g.r
    while 1:
        o = r.choice(['not', 'neg', 'and', 'or', 'xor', 'add', 'sub', 'mul'])
        two = o not in ('not', 'neg'); ar = o in ('neg', 'add', 'sub', 'mul')
        ow = r.choice([8, 16, 32, 64]) if ar and r.random() > .03 else r.choice([1, 1, 2, 4, 8, 8, 16, 32, 64, 128])
        W = [1, 8, 16, 32, 64]
        k = r.choice([1, 1, 1, 2, 3, 4] if two else [1, 1, 2, 3])
        ws = [ow]+[r.choice(W) for _ in range(k-1)]
        full = ws+[ws[-1]]*(4-k)
        rw, xw, ww = full[1:4]
        if any(w not in W for w in (rw, xw)+((ww,) if two else ())) and r.random() < .8: continue
        def ty(w): return (w, 'c') if w in (8, 16, 32) and r.random() < .15 else (1, 'u') if w == 1 else (64, 'f') if w == 64 else (w, 'i')
        if xw not in W or two and ww not in W: xw = xw if xw in W else 8; ww = ww if ww in W else 8
        xt, wt = ty(xw), ty(ww)
        lcm = max(ow, rw, xw, ww if two else 1)
        total = lcm*r.choice([1, 1, 2, 3, 4, 5, 8]) if lcm < 64 else lcm*r.choice([1, 2, 3, 4])
        if lcm == 1: total = r.choice([0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200])
        if r.random() < .03: total = 0
        lead = [r.randint(0, 3) if r.random() < .1 else r.randint(1, 3) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        def mk(t, lead, total):
            sh = lead+[total//t[0]]; n = math.prod(sh); return arr(sh, [elem(g, t) for _ in range(n)])
        x = mk(xt, lead, total); f = num(ow) if k == 1 and r.random() < .8 else nums(ws)
        if not two: args = [x]
        else:
            m = r.random()
            if m < .5: w = mk(wt, lead, total)
            else:
                if ow < ww or ow < xw: 
                    if r.random() < .9: continue
                if m < .75: w = mk(wt, [], ow); 
                else: w, x = mk(wt, lead, total), mk(xt, [], ow)
                if r.random() < .5:
                    if m < .75 and len(w[2]) == 1: w = w[2][0] if r.random() < .7 else arr([], w[2])
                    elif m >= .75 and len(x[2]) == 1: x = x[2][0] if r.random() < .7 else arr([], x[2])
            if r.random() < .05 and w[0] == 2 and w[1]: w = mk(wt, [2]+lead, total) if r.random() < .5 else mk(wt, lead, total+ww)
            args = [w, x]
        if r.random() < .03: f = r.choice([num(0), num(3), num(12), num(-8), nums([]), nums([8, 8, 8, 8, 8]), num(.5), ch(8), arr([1, 1], [num(8)]), nums([8, 2]), nums([8, 24])])
        if sum(len(v[2])*t[0] for v, t in zip(args, [wt, xt] if two else [xt]) if v[0] == 2) > 2500: continue
        # results read as floats may not be NaNs
        if 64 in (rw, xw, ww):
            bx = tobits(x[2] if x[0] == 2 else [x], xt); bw = tobits(w[2] if w[0] == 2 else [w], wt) if two else None
            if any(v == [0, 0] for v in (x[2] if x[0] == 2 else [x])) and False: continue
            if rw == 64 and bad64(o, ow, bw, bx): continue
        return [o, f]+args
def bad64(o, ow, bw, bx):
    B = lambda bits: sum(b << i for i, b in enumerate(bits))
    ch_ = lambda bits: [B(bits[i:i+ow]) for i in range(0, len(bits), ow)]
    if o == 'not': res = [1-b for b in bx]
    else:
        M = (1 << ow)-1; X = ch_(bx); Wc = ch_(bw) if bw is not None else None
        if Wc is not None and len(Wc) != len(X):
            if len(Wc) == 1: Wc = Wc*len(X)
            elif len(X) == 1: X = X*len(Wc)
            else: return False
        R = [(-x) & M for x in X] if o == 'neg' else [dict(and_=w & x, or_=w | x, xor=w ^ x, add=w+x, sub=w-x, mul=w*x)[{'and': 'and_', 'or': 'or_'}.get(o, o)] & M for w, x in zip(Wc, X)]
        res = [v >> i & 1 for v in R for i in range(ow)]
    return isnan64(res) or any(not any(res[i:i+63]) and res[i+63] for i in range(0, len(res)-63, 64)) and False
def gen_C20(seed, scale=1.0):
    g = gen.G(seed); r = g.r; js = []
    for _ in range(int(260*scale)):
        k = r.random()
        f = utf if k < .25 else numeral if k < .42 else (lambda g: ['repr', num(dbl(g))]) if k < .55 else cast if k < .78 else bitop
        h = [f(g) for _ in range(r.randint(6, 14))]
        js.append(dict(mod='text', h=h, n=3))
    return js
def show(h, o):
    s = []
    for op, q in zip(h, o+[[4]]*len(h)): s.append('%s %s → %s' % (op[0], '  '.join(vshow(v)[:160] for v in op[1:]), 'error' if q == [9] else vshow(q)[:160]))
    return '; '.join(s)
