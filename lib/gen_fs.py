"""histories of file operations"""
import random, gen
from bq import *
def codes(t): return [ord(c) for c in t]
NAMES = ['a', 'a', 'b', 'b', 'd0', 's', 'é', '😀x', '.h', '..b', 'x y', 'n'*40]
def path(r, ups=2):
    n = r.choice([1, 1, 1, 2, 2, 3]); cs = []
    for i in range(n):
        if r.random() < .08: cs.append('.')
        if r.random() < .05: cs.append('')
        if ups and r.random() < .1: cs.append('..'); ups -= 1
        cs.append(r.choice(NAMES))
    t = '/'.join(cs)
    if t[:1] == '/': t = 'a'+t
    q = r.random()
    if q < .4: t = '/R/'+t
    elif q < .5: t = '/R/d0/'+t
    elif q < .52: t = ''
    elif q < .53: t = '/R'
    if r.random() < .07: t += '/'
    if r.random() < .02: t += '/.'
    if r.random() < .015: k = r.randint(0, len(t)); t = t[:k]+'\0'+t[k:]
    return codes(t)
def data(r, g, k):
    n = r.choice([0, 0, 1, 2, 5, 20, 60]) if r.random() < .97 else r.choice([900, 4095, 4096, 4097])
    bad = r.random() < .06
    cl = lambda n: [ch(r.choice([32, 65, 97, 10, 13, 10, 233, 255, 256, 0x2200, 0xffff, 0x10000, 0x1d54f, 0x10ffff, 0, 127, 128])) for _ in range(n)]
    if bad: return r.choice([num(3), ch(65), arr([1, 2], [ch(65), ch(66)]), arr([], [ch(65)])]+([lst([ch(65), num(1)]), nums([1, 2])] if k == 'wchars' else [lst([lst([ch(65)]), num(2)]), lst([lst([num(1)])]), lst([ch(65)]), lst([lst([ch(65)]), arr([1, 1], [ch(65)])])] if k == 'wlines' else []))
    if k == 'wchars': return lst(cl(n)) if r.random() < .7 else lst([ch(r.randint(32, 126)) for _ in range(n)])
    if k == 'wbytes':
        q = r.random()
        return lst([ch(r.randrange(256)) for _ in range(n)]) if q < .4 else lst([num(r.randrange(128)) for _ in range(n)]) if q < .6 else lst([num(r.randrange(256)) for _ in range(n)]) if q < .8 else lst([r.choice([ch, num])(r.randrange(256)) for _ in range(n)])
    return lst([lst([c for c in cl(r.choice([0, 1, 3, 9])) if r.random() < .3 or c[1] not in (10, 13)]) for _ in range(min(n, 8))])
def raw(r):
    q = r.random()
    if q < .5: return [r.choice([10, 13, 10, 13, 65, 66, 0xc3, 0xa9]) if r.random() < .9 else r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 6, 12]))]
    s = ''.join(chr(r.choice([65, 97, 10, 13, 233, 0x2200, 0x1d54f, 0x10ffff])) for _ in range(r.randint(0, 12))).encode()
    s = list(s)
    if s and q > .8: i = r.randrange(len(s)); s[i] = r.choice([0x80, 0xff, 0xc0, 0xf5, 65])
    return s
def hist(r, g):
    h = []
    n = r.choice([25, 60, 60, 120])
    recent = []
    def P():
        p = r.choice(recent[-8:]) if recent and r.random() < .45 else path(r)
        recent.append(p); return p
    while len(h) < n:
        q = r.random()
        if q < .22: k = r.choice(['wchars', 'wbytes', 'wlines']); o = [k, P(), data(r, g, k)]
        elif q < .25: k = r.choice(['wchars', 'wbytes', 'wlines']); o = ['lim', P(), data(r, g, k), k, r.choice([0, 1, 3, 10, 4096])]
        elif q < .42: o = [r.choice(['rchars', 'rbytes', 'rlines', 'mbytes']), P()]
        elif q < .55: o = [r.choice(['exists', 'type', 'size']), P()]
        elif q < .60: o = ['list', P()]
        elif q < .68: o = ['mkdir', P()]
        elif q < .76: o = ['rename', P(), P()]
        elif q < .81: o = ['remove', P()]
        elif q < .84: o = ['real', P()]
        elif q < .87: o = [r.choice(['at', 'name', 'parent']), P()]
        elif q < .88: o = ['at2', P(), r.choice([path(r), codes('/R'), codes('/R/'), codes(''), codes('zz')])]
        elif q < .885: o = ['path']
        elif q < .90: o = ['times', P(), r.choice([0, 1, 10**9, 1073741823]), r.choice([5, 10**9+7])]
        elif q < .905: o = ['badpath', r.choice(['chars', 'bytes', 'lines', 'mapbytes', 'exists', 'type', 'size', 'list', 'createdir', 'remove', 'rename', 'realpath', 'at', 'name', 'parent', 'modified']), r.choice([num(3), ch(97), arr([1, 1], [ch(97)]), lst([ch(97), num(3)]), lst([lst([ch(97)])])])]
        elif q < .95: o = ['ext', P(), ['f', raw(r)]]
        elif q < .975: o = ['ext', P(), ['l', r.choice([path(r, 1), path(r, 0), codes('a'), codes('b'), codes('/R/d0')])]]
        else: o = ['ls']
        if o[0] == 'ext' and (not o[1] or 0 in o[1] or o[1][-1:] in ([47], [46]) or o[2][0] == 'l' and (not o[2][1] or 0 in o[2][1])): continue
        if o[0] == 'at2' and 0 in o[1]+o[2]: continue
        h.append(o)
    if r.random() < .05: h.append(['fifo', r.choice([0, 1, 8191, 8192, 8193, 30000])])
    h.append(['ls'])
    return h
def gen_C18(seed, scale=1.0):
    r = random.Random(seed*19+1); g = gen.G(seed)
    return [{'mod': 'fs', 'h': hist(r, g), 'n': 1} for _ in range(int(100*scale))]
def show(h, o):
    def p(x): return '"%s"' % ''.join(map(chr, x)) if isinstance(x, list) and all(isinstance(e, int) for e in x) else str(x)
    t = []
    for a, b in zip(h, o):
        t.append('%s %s -> %s' % (a[0], ' '.join(vshow(x)[:80] if isinstance(x, list) and x and x[0] in (0, 1, 2, 3) and i == 1 and a[0][0] in 'wl' else p(x)[:80] for i, x in enumerate(a[1:])), (vshow(b)[:120] if b and isinstance(b[0], int) else str(b)[:300])))
    return '; '.join(t)
