"""histories of •SH calls"""
import random
EDGE = [0, 4, 8, 100, 1020, 1024, 1028, 2048, 4092, 4096, 4100, 8192, 65532, 65536, 65540, 131072, 131076, 200000, 262144, 300004]
def amount(r, big=1.0):
    z = r.random()
    if z < .3: return 4*r.randint(1, 40)
    if z < .9 or big < r.random(): return r.choice(EDGE[:12] if r.random() < .5 else EDGE)
    return 4*r.randint(1, 240000)
def script(r, mode, n):
    """a process's steps; several streams only in whole units"""
    out = []; tot = 0
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        z = r.random(); k = amount(r, .3)
        if tot > 900000: k = 4
        if z < .14: out.append(['r', r.choice([k, n, max(0, n-4), n+4, 1, n//8*4])])
        elif z < .24: out.append(['R', 0])
        elif z < .38: out.append(['E', r.choice([k, n, n//8*4, n+8, 10**7])])
        elif z < .54: out.append(['o', k]); tot += k
        elif z < .68: out.append(['e', k]); tot += k
        elif z < .82: out.append(['c', r.choice([0, 0, 1, 2])])
        else: out.append(['s', r.choice([0, 1, 2, 5, 15])])
    # a copy of whole characters only
    p = 0
    for s in out:
        if s[0] in 'rE':
            if s[1] % 4: s[1] -= s[1] % 4
    if r.random() < .07: out.append(['g', r.choice([4, 400, 70000])])
    z = r.random()
    if z < .3: out.append(['x', r.choice([0, 1, 2, 7, 100, 126, 127, 128, 200, 255])])
    elif z < .42: out.append(['k', r.choice([1, 2, 3, 6, 8, 9, 11, 13, 14, 15, 10, 12])])
    return out
# the orders of closing and using that matter to the caller's loop, at every size
def fixed(r):
    n = r.choice([0, 4, 1024, 65536, 65540, 131072, 500000]); m = r.choice([4, 1024, 65536, 65540, 200000])
    return n, r.choice([
        [['c', 1], ['c', 2], ['s', 3], ['R', 0]], [['c', 0], ['o', m]], [['c', 0], ['s', 3], ['o', m], ['e', m]], [['o', m], ['R', 0]], [['e', m], ['R', 0], ['o', m]],
        [['E', 10**7]], [['r', n//8*4], ['c', 0], ['o', m], ['x', 3]], [['r', n//8*4], ['s', 2], ['x', 3]], [['s', 5], ['R', 0], ['c', 1], ['e', m]], [['c', 2], ['R', 0], ['o', m]], [['c', 1], ['R', 0], ['e', m]],
        [['c', 1], ['e', m], ['c', 2], ['E', 10**7]], [['R', 0], ['g', m]], [['c', 2], ['g', m]], [['c', 1], ['c', 2], ['r', n//8*4], ['s', 5], ['R', 0], ['x', 9]], [['o', m], ['e', m], ['o', m], ['E', 10**7], ['e', m]], [['k', 9]], [['o', m], ['k', 15]],
        [['c', 0], ['c', 1], ['c', 2], ['s', 5], ['x', 4]], [['o', m], ['c', 1], ['s', 4], ['e', m], ['c', 2], ['s', 4], ['x', 5]], [['s', 2], ['c', 1], ['s', 2], ['R', 0], ['e', m], ['k', 13]]])
WID = [[97, 122], [0xe4, 0x7ff], [0x800, 0xd7ff], [0x10000, 0x10ffff]]
BAD = ['nested', 'atom', 'rawval', 'nonchar', 'opt', 'argatom', 'argrank', 'argnum', 'empty', 'atomx']
def op(r):
    z = r.random()
    if z < .4:
        mode = r.choice('bbuua'); raw = 1 if mode == 'b' else r.choice([0, 0, 1]) if mode == 'a' else r.choice([0, 0, 0, 1]); n = amount(r); return ['sh', script(r, mode, n), mode, n, raw, []]
    if z < .68:
        n, s = fixed(r); mode = r.choice('bua'); return ['sh', s, mode, n, 1 if mode == 'b' else 0, []]
    if z < .76: # any number of bytes
        n = r.choice(EDGE[1:])+r.choice([-3, -2, -1, 1, 2, 3]); mode = r.choice('ba'); raw = 1 if mode == 'b' else r.choice([0, 1])
        return ['sh', r.choice([[['E', 10**7]], [['R', 0], ['o', n]], [['e', n], ['R', 0]], [['s', 1], ['E', 10**7], ['x', 1]]]), mode, n, raw, []]
    if z < .84: # characters of all widths
        t = [r.randint(*r.choice(WID)) for _ in range(r.choice([1, 3, 30, 300, 1000]))]; return ['sh', r.choice([[['E', 10**7]], [['R', 0]], [['s', 1], ['E', 10**7], ['x', 6]]]), 'u', 0, 0, t]
    if z < .9: return ['args', [[r.randint(*r.choice(WID+[[1, 126], [1, 126]])) for _ in range(r.choice([0, 0, 1, 2, 5, 30, 300]))] for _ in range(r.choice([0, 1, 2, 5, 40]))]]
    if z < .93:
        a, e = r.choice([(['echo', 'a  b'], [0, list(b'a  b\n'), []]), (['sh', '-c', 'echo hi; echo no >&2; exit 5'], [5, list(b'hi\n'), list(b'no\n')]), (['true'], [0, [], []]), (['false'], [1, [], []]), (['sh', '-c', 'cat; echo x'], [0, list(b'x\n'), []]), (['sh', '-c', 'kill -9 $$'], [137, [], []])])
        return ['path', a, e]
    if z < .96: return ['fail', r.choice(['none', 'name', 'dir', 'file', 'empty']), r.choice([1, 1, 3, 20])]
    return ['bad', r.choice(BAD)]
def gen_C23(seed, scale):
    r = random.Random(seed*91+3)
    al = [['bad', b] for b in BAD]+[['fail', f, n] for f in ('none', 'name', 'dir', 'file', 'empty') for n in (1, 9)]; r.shuffle(al)
    return [{'mod': 'sh', 'h': al, 'n': 1}]+[{'mod': 'sh', 'h': [op(r) for _ in range(r.choice([4, 6, 8]))], 'n': 1} for _ in range(int(60*scale))]
def show(h, o):
    f = lambda e: ' '.join(s[0]+str(s[1]) for s in e) if e and isinstance(e, list) and isinstance(e[0], list) and len(e[0]) == 2 and isinstance(e[0][0], str) else str(e)[:80]
    return '; '.join(' '.join(f(e) for e in p)+' -> '+str(q)[:300] for p, q in zip(h, o))
