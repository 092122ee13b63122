"""native function signatures, their C source, and histories of definitions, calls and pointer operations"""
import random
from bq import *
INTS = [[k, w] for k in 'iu' for w in (8, 16, 32, 64)]; SC = INTS+[['f', 32], ['f', 64]]
RES = [['i', 8], ['i', 16], ['i', 32], ['c', 8], ['c', 16], ['c', 32], ['u', 1], ['f', 64]]
VP = ['*', ['v'], False]
def rup(n, a): return (n+a-1)//a*a
def szal(t):
    k = t[0]
    if k == 's': return t[2]//8, t[2]//8
    if k == ':': return szal(t[1]) if t[1][0] == 's' else (8, 8)
    if k == '[': s, a = szal(t[2]); return t[1]*s, a
    if k == '{':
        p = 0; m = 1
        for u in t[1]: s, a = szal(u); p = rup(p, a)+s; m = max(m, a)
        return rup(p, m), m
    return (0, 1) if k == 'v' else (8, 8)
def size(t): return szal(t)[0]
def fields(t):
    """⟨type, offset⟩ of the parts of an aggregate"""
    if t[0] == '[': return [(t[2], i*size(t[2])) for i in range(t[1])]
    p = 0; o = []
    for u in t[1]: s, a = szal(u); p = rup(p, a); o.append((u, p)); p += s
    return o
def text(t):
    k = t[0]
    if k == 's': return t[1]+(str(t[2]) if t[1] != 'a' else '')
    if k == 'v': return ''
    if k == '*': return ('&' if t[2] else '*')+text(t[1])
    if k in '[t': return '[%d]%s' % (t[1], text(t[2]))
    if k == '{': return '{'+','.join(map(text, t[1]))+'}'
    return '%s:%s%d' % (text(t[1]), t[2], t[3])
def scalar(r, n=None): return ['s']+r.choice(SC if n is None else [x for x in SC if not (x[1] == 64 and x[0] != 'f')])
def rety(r, w): return r.choice([x for x in RES if x[1] <= w])
def re_(r, t, w): return [':', t]+rety(r, w)
def rescalar(r): s = scalar(r); return re_(r, s, s[2])
def ptrre(r, mut=False):
    if r.random() < .25: return re_(r, ['*', VP, mut], 64)
    s = scalar(r); return re_(r, ['*', s, mut], s[2])
def field(r, d, ptrs):
    """a part of a struct; ptrs: 2 any, 1 only opaque pointers"""
    z = r.random()
    if z < .45 or d > 2: return scalar(r)
    if z < .6: return rescalar(r)
    if z < .72: return ['{', [field(r, d+1, ptrs) for _ in range(r.choice([1, 1, 2, 3]))]]
    if z < .84: return ['[', r.choice([1, 2, 3, 5]), field(r, d+1, ptrs)]
    if z < .89: return re_(r, VP, 64)
    if z < .93: return VP
    if ptrs < 2: return ['*', scalar(r, 1), False] if z < .96 else scalar(r)
    return r.choice([['*', scalar(r, 1), False], ptrre(r), ['*', struct(r, d+1, 1), False], ['s', 'a', 64]])
def struct(r, d=0, ptrs=2): return ['{', [field(r, d+1, ptrs) for _ in range(r.choice([1, 2, 2, 3, 4, 6]))]]
def argty(r):
    z = r.random()
    if z < .26: return scalar(r)
    if z < .36: return rescalar(r)
    if z < .44: return ['*', scalar(r, 1), False]
    if z < .54: return ['*', scalar(r, 1), True]
    if z < .60: return ptrre(r)
    if z < .66: return ptrre(r, True)
    if z < .69: return re_(r, VP, 64)
    if z < .71: return VP
    if z < .80: return struct(r)
    if z < .84: return ['*', struct(r, 1, 1), False]
    if z < .90: return ['*', struct(r, 1, 1), True]
    if z < .94: return ['t', r.choice([1, 2, 3, 7]), r.choice([scalar(r, 1), struct(r, 1, 1), ['[', 2, scalar(r)]])]
    if z < .96: return ['*', ['[', r.choice([1, 2, 3]), field(r, 2, 1)], r.random() < .5]
    return ['s', 'a', 64]
def hasa(t): return t[0] == 's' and t[1] == 'a' or t[0] in '*:' and hasa(t[1]) or t[0] in '[t' and hasa(t[2]) or t[0] == '{' and any(map(hasa, t[1]))
def resty(r):
    z = r.random()
    if z < .2: return ['v']
    if z < .5: return scalar(r)
    if z < .62: return rescalar(r)
    if z < .68: return re_(r, VP, 64)
    if z < .72: return ['s', 'a', 64]
    if z < .80: return r.choice([['*', scalar(r), False], ['*', ['{', [scalar(r), scalar(r)]], False], VP])
    while 1:
        t = struct(r, 0, 1)
        if not hasa(t): return t
def sigs(seed, n=160):
    """⟨result, [⟨type, side, whole⟩], single⟩ of the compiled functions"""
    r = random.Random(seed*31+5); out = []
    for _ in range(n):
        k = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9, 14]); a = [argty(r) for _ in range(k)]; sd = [2 if r.random() < .3 else 1 for _ in range(k)]
        mut = sum(1 for t in a if ismut(t)); res = resty(r); single = mut == 1 and r.random() < .5
        if single: res = ['v']
        wh = [sd.count(s) == 1 and r.random() < .5 for s in sd]
        out.append([res, [[t, s, int(w)] for t, s, w in zip(a, sd, wh)], int(single)])
    return out
def ismut(t): return t[0] == '*' and t[2] or t[0] == ':' and t[1][0] == '*' and t[1][2]
CN = {'i8': 'signed char', 'u8': 'unsigned char', 'i16': 'short', 'u16': 'unsigned short', 'i32': 'int', 'u32': 'unsigned', 'i64': 'long', 'u64': 'unsigned long', 'f32': 'float', 'f64': 'double', 'a64': 'unsigned long'}
def csource(sg):
    """every function notes the bytes of its arguments, has the caller of vcb look at them, and gives the bytes it is told to"""
    defs = []; names = {}
    def cty(t):
        if t[0] == ':': return cty(t[1])
        if t[0] == 's': return CN['%s%d' % (t[1], t[2])]
        if t[0] in '*t': return 'void*'
        if t[0] == 'v': return 'void'
        k = text(t)
        if k not in names:
            if t[0] == '[': n = 'T%d' % len(names); e = cty(t[2]); names[k] = n = 'T%d' % len(names); defs.append('typedef %s %s[%d];' % (e, n, t[1]))
            else: fs = [cty(u) for u in t[1]]; names[k] = n = 'T%d' % len(names); defs.append('typedef struct { %s } %s;' % (' '.join('%s f%d;' % (f, i) for i, f in enumerate(fs)), n))
        return names[k]
    fns = []
    for k, (res, args, _) in enumerate(sg):
        a = [cty(t) for t, _, _ in args]; rt = cty(res)
        fns.append('%s f%d(%s) { long o=0; %s vcb(%d); %s }' % (rt, k, ', '.join('%s a%d' % (t, i) for i, t in enumerate(a)) or 'void', ' '.join('memcpy(vlog+o,&a%d,sizeof a%d); o+=sizeof a%d;' % (i, i, i) for i in range(len(a))), k,
            '' if rt == 'void' else '%s r; memcpy(&r,vres,sizeof r); return r;' % rt))
    return '#include <string.h>\nunsigned char vlog[1<<16], vres[1<<12]; void (*vcb)(int);\nvoid* mkp(unsigned long o) { return (void*)o; }\n'+'\n'.join(defs+fns)+'\n'
# ---- values
def ival(r, k, w, ok=1.0):
    if w == 64: lo, hi = (-(1 << 53)+1 if k == 'i' else 0), (1 << 53)-1
    else: lo, hi = (-(1 << w-1), (1 << w-1)-1) if k == 'i' else (0, (1 << w)-1)
    z = r.random()
    if r.random() > ok: return r.choice([num(hi+1), num(lo-1), num(0.5), ch('a'), num(float('inf')), num(1e300), num(-1 if k == 'u' else 2.5), num(float(1 << 63)), num(float('nan')), nums([3]), num(float(1 << 64))])
    if z < .35: return num(r.choice([lo, hi, lo+1, hi-1, 0, 1]))
    if z < .6: return num(max(lo, min(hi, r.randint(-100, 100))))
    return num(r.randint(lo, hi))
def sval(r, t, ok=1.0):
    _, k, w = t
    if k == 'a': return r.choice([num(r.randint(-99, 99)), nums([r.randint(-500, 500) for _ in range(r.choice([0, 1, 4]))]), st('ab\U00012345'), lst([nums([1, 2]), st('x')]), ch(0x1f600), num(.5)])
    if k == 'f':
        if r.random() > ok: return r.choice([ch('b'), nums([1]), st('')])
        if w == 32: return num(r.choice([0.0, 1.5, -2.25, float(r.randint(-2**24, 2**24)), r.randint(-2**24, 2**24)*2.0**r.randint(-100, 80), 2.0**127, 2.0**-126, float('inf'), -float('inf'), .1, 3.4028234663852886e38]))
        return num(r.choice([.1, 1e300, 5e-324, -2.5, float(r.randint(-10**9, 10**9)), 2.0**r.randint(-1000, 1000), float('inf'), float(1 << 53)]))
    return ival(r, k, w, ok)
def rval(r, k, w, ok):
    if k == 'c':
        if r.random() > ok: return r.choice([num(65), ch(min((1 << w)+5, 0x10ffff)) if w < 32 else num(3)])
        return ch(r.choice([0, 65, min((1 << w)-1, 0x10ffff), r.randint(0, min((1 << w)-1, 0x10ffff)), r.randint(0, 127)]))
    if k == 'u': return num(r.randint(0, 1)) if r.random() <= ok else r.choice([num(2), num(-1), num(.5), ch('x')])
    if k == 'f': return sval(r, ['s', 'f', 64], ok)
    return ival(r, 'i', w, ok)
def hd(r, hs, t, ok):
    """a pointer object usable as t, or any"""
    c = [i for i, h in enumerate(hs) if h[0] == t or t == ['v'] or h[0] == ['v']]
    if r.random() > ok or not c: return [7, 1001+r.randrange(len(hs))] if hs else num(4)
    return [7, 1001+r.choice(c)]
def shaped(r, l, p=.12):
    n = len(l)
    if r.random() < p and n: return arr(r.choice([[n, 1], [1, n]]+([[2, n//2]] if n % 2 == 0 else [])+([[]] if n == 1 else [])), l)
    return lst(l)
def value(r, t, hs, ok=1.0, src=True):
    """a value for type t; ok: how likely a part is right"""
    k = t[0]
    if r.random() > ok: return r.choice([num(5), ch('q'), nums([1, 2]), st(''), lst([]), hd(r, hs, None, 0)])
    if k == 's': return sval(r, t, ok)
    if k == ':':
        o, rk, w = t[1:]
        if o[0] == 's': n = o[2]//w
        elif o == VP:
            if hs and r.random() < .5: return hd(r, hs, ['v'], ok)
            n = 64//w
        else:
            if hs and r.random() < .2 or not src: return hd(r, hs, o[1], ok)
            n = max(1, (size(o[1])*8)//w)*r.choice([0, 1, 1, 2, 3, 17])
            if o[2]: return lst([rval(r, rk, w, ok) for _ in range(n+(r.random() > ok))])
        return shaped(r, [rval(r, rk, w, ok) for _ in range(max(0, n+(r.choice([-1, 1]) if r.random() > ok else 0)))])
    if k in '*t':
        e = t[1] if k == '*' else t[2]
        if e == ['v'] or not src or (hs and r.random() < .2) or k == '*' and e[0] not in 's[{': return hd(r, hs, e, ok)
        n = t[1] if k == 't' else r.choice([0, 1, 1, 2, 3, 20])
        if r.random() > ok: n += 1
        l = [value(r, e, hs, ok, False) for _ in range(n)]
        return lst(l) if k == '*' and t[2] else shaped(r, l)
    if k == '{': l = [value(r, u, hs, ok, src) for u in t[1]]
    else: l = [value(r, t[2], hs, ok, src) for _ in range(t[1])]
    if r.random() > ok: l = l[:-1]
    return shaped(r, l, .05)
def cells(r, t):
    """bytes a native function may leave for t; addresses as 1000+8×position+byte"""
    k = t[0]
    if k in '{[':
        o = []
        for u, p in fields(t): o += [r.randrange(256) for _ in range(p-len(o))]+cells(r, u)
        return o+[r.randrange(256) for _ in range(size(t)-len(o))]
    if k == '*': p = r.randrange(64, 190); return [1000+8*p+i for i in range(8)]
    if k == 'v': return []
    if k == 's':
        n = t[2]//8
        if t[1] == 'a': return sval(r, t)
        if t[1] == 'f': return list(struct_.pack('<f' if n == 4 else '<d', r.choice([0.0, 1.5, -3.25, r.uniform(-1e6, 1e6), float('inf'), 2.0**-100, 2.0**-140 if n == 4 else 5e-324, 1e30])))
        if n == 8 and r.random() < .8: return list((r.choice([0, 1, -1 if t[1] == 'i' else 2, (1 << 53)-1, (1 << 53)-1, 1 << 53, -(1 << 53) if t[1] == 'i' else 7, -(1 << 53)+1 if t[1] == 'i' else 7, r.randint(0, 1 << 52), 1 << 31, (1 << 32)-1]) & (1 << 64)-1).to_bytes(8, 'little'))
        return r.choice([[255]*n, [0]*(n-1)+[128], [255]*(n-1)+[127], [0]*n, [r.randrange(256) for _ in range(n)], [r.randrange(256) for _ in range(n)]])
    n = size(t[1]) if t[1][0] == 's' else 8
    o = [r.randrange(256) for _ in range(n)]
    return rcells(o, t)
def rcells(o, t):
    if t[2] == 'c' and t[3] == 32:
        for i in range(0, len(o), 4): o[i+2:i+4] = [o[i+2] & 15, 0][:len(o)-i-2]
    if t[2] == 'f':
        for i in range(7, len(o), 8): o[i] = o[i] & 63
    return o
def answer(r, t, v):
    """bytes left behind mutated pointer argument v of type t"""
    if v[0] != 2: return []
    n = len(v[2])
    if t[0] == ':': return rcells([r.randrange(256) for _ in range((n*t[3]+7)//8)], t)
    e = t[1]; return [c for _ in range(n) for c in cells(r, e)] if e[0] in 's[{' else []
import struct as struct_
def deco(r, t, side, whole):
    p = (['𝕨'] if side == 2 else ['𝕩'] if r.random() < .15 else [])+(['>'] if whole else []); r.shuffle(p); return ''.join(p)+text(t)
def cps(s): return [ord(c) for c in s]
ALPHA = list('iiuuffa**&&{{}}[],,::1234680c> 𝕨𝕩xv') + ['16', '32', '64', 'i8', 'u8:i8', 'f64', ':c8', '[2]', '*', '{', '}', '𝕨', '>']
def garble(r, s):
    s = list(s)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        z = r.random(); i = r.randrange(len(s)+1)
        if z < .4: s.insert(i, r.choice(ALPHA))
        elif z < .7 and s: s.pop(min(i, len(s)-1))
        elif s: s[min(i, len(s)-1)] = r.choice(ALPHA)
    t = ''.join(s); import re
    return t if not re.search(r'\[\d{3,}|\d{5,}', t) and t.count('[') < 4 else 'i8'
def ptrty(r):
    z = r.random()
    if z < .4: return scalar(r)
    if z < .5: return rescalar(r)
    if z < .56: return re_(r, VP, 64)
    if z < .62: return VP
    if z < .7: return ['*', scalar(r), False]
    if z < .73: return ptrre(r)
    if z < .8: return ['[', r.choice([1, 2, 3]), field(r, 2, 1)]
    return struct(r, 1, 1)
def pops(r, h, hs, n):
    """pointer operations that stay in memory; hs: ⟨type, position, stride⟩ of each pointer"""
    idx = lambda q: r.choice([0, 0, 0, 1, -1, 2, 3])
    def fit(q, i): p = q[1]+i*q[2]; return 0 <= p and p+size(q[0]) <= 256
    bad = lambda: r.choice([num(.5), ch('a'), nums([1]), num(float('inf')), st('ab')])
    for _ in range(n):
        k = r.randrange(len(hs)); q = hs[k]; z = r.random(); t = q[0]; i = idx(q)
        if not fit(q, i): i = 0
        if not fit(q, i): continue
        if z < .25:
            h.append(['read', k+1, num(i) if r.random() < .95 else bad()])
            if h[-1][2] == num(i) and t[0] == '*': h.pop()        # its result is only known with the memory
        elif z < .55: h.append(['write', k+1, NOW if i == 0 and r.random() < .5 else num(i) if r.random() < .96 else bad(), value(r, t, hs, r.choice([1.0, 1.0, .8]), r.random() < .1) if t != ['v'] else num(1)])
        elif z < .72:
            if r.random() < .8:
                u = ptrty(r)
                if size(u)+q[1] > 256: continue
                h.append(['cast', k+1, cps(text(u))]); hs.append([u, q[1], size(u)])
            elif r.random() < .3: h.append(['cast', k+1, []]); hs.append([['v'], q[1], 0])
            else: h.append(['cast', k+1, r.choice([cps(garble(r, '}')+'x'), cps('&i8'), cps('i7'), cps('i8,'), cps('{i8'), cps('i8:'), cps('[0]i8'), cps('[2]'), cps(' i8'), cps('*&i8')])])
        elif z < .84:
            if t[0] not in '{[' and r.random() < .85:
                c = [a for a, p in enumerate(hs) if p[0][0] in '{[']
                if not c: continue
                k = r.choice(c); q = hs[k]; t = q[0]
            if t[0] in '{[' and r.random() < .9:
                f = fields(t); j = r.randrange(len(f)); h.append(['field', k+1, num(j)]); hs.append([f[j][0], q[1]+f[j][1], q[2]])
            else: h.append(['field', k+1, r.choice([num(-1), num(99), num(.5), ch('a')])])
        elif z < .92:
            if t == ['v']: h.append([r.choice(['add', 'sub']), k+1, num(0)]); continue
            if r.random() < .1: h.append([r.choice(['add', 'sub']), k+1, bad()]); continue
            o = r.choice(['add', 'sub']); h.append([o, k+1, num(i if o == 'add' else -i)]); hs.append([t, q[1]+i*q[2], q[2]])
        else:
            c = [a for a, p in enumerate(hs) if p[2] == q[2]] if r.random() < .8 else range(len(hs)); h.append(['sub', k+1, [7, 1001+r.choice(list(c))]])
def gen_C22(seed, scale, sg):
    r = random.Random(seed*67+9); jobs = []
    for n in range(int(260*scale)):
        mem = [r.choice([0, 0, 1, 255, 128, r.randrange(256)]) for _ in range(256)]; h = [['init', mem]]; hs = []; fs = []
        for _ in range(r.choice([0, 1, 2, 3])):
            t = ptrty(r) if r.random() < .8 else ['s']+r.choice(SC)
            if t[0] == ':': t = t[1]
            if r.random() < .1: t = ['v']
            o = r.randrange(64, 190); h.append(['new', cps('*'+text(t)), o]); hs.append([t, o, size(t)])
        if n % 3 == 0 and hs:
            pops(r, h, hs, r.choice([6, 15, 30])); h.append(['mem'])
        for _ in range(r.choice([1, 1, 2]) if n % 3 else r.choice([0, 0, 1])):
            z = r.random(); k = r.randrange(len(sg)); res, args, single = sg[k]
            texts = [deco(r, *a) for a in args]; rt = '&' if single else ('>' if r.random() < .04 and res != ['v'] else '')+text(res)
            if z < .3: # possibly no definition
                y = r.random(); sym = 0
                if y < .1: sym = r.choice([-1, -2])
                elif y < .3: rt = r.choice(['&', '', '&i8', '[2]i8', '𝕩i8', '*i8:i8', '**', '{*i8:i8}', '*:i8', 'i8:u1', '>>i8', 'i8:c16', garble(r, rt)])
                elif texts and y < .9: i = r.randrange(len(texts)); texts[i] = garble(r, texts[i])
                elif texts: texts[r.randrange(len(texts))] = r.choice(['', '\x01', '\x02', '>𝕨𝕩i8', '𝕨>𝕨i8', '&', '*', '&*', '[2]i8:i8', '*[2]i8', '[2][3]i8', '[2]*i8', '&&i8', '{}', '{i8,}', '*{i8'])
                enc = lambda t: [-1] if t == '\x01' else [-2] if t == '\x02' else cps(t)
                h.append(['def', enc(rt), [enc(t) for t in texts], sym]); fs.append(None); continue
            h.append(['def', cps(rt), [cps(t) for t in texts], k]); fs.append(k); f = len(fs)
            for _ in range(r.choice([1, 2, 3])):
                ok = r.choice([1.0, 1.0, 1.0, .97, .9]); vs = [value(r, t, hs, ok) for t, _, _ in args]
                def side(s):
                    q = [i for i, a in enumerate(args) if a[1] == s]
                    if not q: return lst([]) if s == 1 or r.random() < .3 else NOW
                    if args[q[0]][2]: return vs[q[0]]
                    return lst([vs[i] for i in q])
                w, x = side(2), side(1)
                if r.random() > ok: w = r.choice([NOW, num(1), w, lst([num(1)])])
                if r.random() > ok: x = r.choice([num(1), x, lst([]), lst([num(1)])])
                mb = [answer(r, t, v) for (t, _, _), v in zip(args, vs) if ismut(t)]
                h.append(['call', f, w, x, cells(r, res), mb])
        jobs.append(dict(mod='ffi', h=h, n=2, sg={str(k): sg[k] for k in fs if k is not None}))
    return jobs
def show(h, o):
    t = lambda l: ''.join(chr(c) if c > 31 else '?' for c in l)
    out = []
    for op, e in zip(h, o):
        k = op[0]
        if k == 'init': continue
        if k == 'def': s = '%s•FFI⟨"%s",f%d%s⟩' % ('', t(op[1]), op[3], ''.join(',"%s"' % t(a) for a in op[2]))
        elif k == 'call': s = 'F%d: %s F %s, answering %s %s' % (op[1], vshow(op[2]), vshow(op[3]), op[4], op[5])
        elif k == 'new': s = 'new "%s" at %d' % (t(op[1]), op[2])
        elif k == 'mem': s = 'mem'
        elif k == 'cast': s = 'p%d.Cast "%s"' % (op[1], t(op[2]))
        else: s = 'p%d.%s %s' % (op[1], k, ' '.join(vshow(v) for v in op[2:]))
        out.append('%s → %s' % (s[:600], str(e)[:500]))
    return '; '.join(out)
