"""memory of single applications: what stays allocated after repeating one, and what happens when an allocation fails"""
import json, random, subprocess
from bq import *
TOK = 1114000
class Mem:
    def __init__(s, R):
        b = s.b = R.b; s.R = R
        s.gcf = b.ev('•internal.GC'); s.hs = b.ev('•internal.HeapStats')
        s.fillf = b.ev('(↕⎊(@˙))'); s.prot = b.ev('{f←0⊑𝕩⋄(f⊘f)⎊((@+1114000)˙)}')
        sy = {l.split()[2]: int(l.split()[0], 16) for l in subprocess.check_output(['nm', b.L._name], text=True).splitlines() if len(l.split()) == 3}
        s.limit = 'mm_heapMax' in sy and 'mm_heapAlloc' in sy
        if s.limit:
            base = C.cast(b.L.bqn_init, C.c_void_p).value-sy['bqn_init']
            s.hm = C.c_uint64.from_address(base+sy['mm_heapMax']); s.ha = C.c_uint64.from_address(base+sy['mm_heapAlloc']); s.inf = s.hm.value
    def used(s):
        b = s.b; x = b.call1(s.gcf, b.makeF64(0)); b.free(x)
        r = b.call1(s.hs, b.makeChar(64)); p = b.pick(r, 1); v = b.readF64(p); b.free(p); b.free(r); return int(v)
    def al(s, n): return s.b.call1(s.fillf, s.b.makeF64(n))
    def fill(s):
        """no room but for small things: everything bigger is taken"""
        b = s.b; res = [s.al(n) for n in (4, 20, 90, 200) for _ in range(400)]; out = []
        held = res[1::2]
        for v in res[::2]: b.free(v)
        s.hm.value = s.ha.value
        for sz in range(19, 8, -1):
            while 1:
                r = s.al((1 << sz)-60)
                if b.type(r) != 0: break
                out.append(r)
        return held, out
    def call(s, f, w, x): return s.b.call1(f, x) if w is None else s.b.call2(f, w, x)
    def leak(s, t, wv, xv, rng):
        b = s.b; R = s.R; rs = rng.randrange(1 << 30)
        g = R.wrapper(t, None if wv == NOW else (False, ''), None); us = []; os = []
        for i in range(4): # new arguments each time: a reference that is never given back keeps them
            q = random.Random(rs); x = R.mkdeep(xv, q); w = None if wv == NOW else R.mkdeep(wv, q)
            r = s.call(g, w, x); os.append(R.outcome(r)); b.free(r); b.free(x); w is None or b.free(w); us.append(s.used())
        return [os[0], os[-1]]+[[0, u-us[1]] for u in us[2:]]
    def oom(s, t, wv, xv, rng):
        b = s.b; R = s.R; f = R.fn(t); g = R.call(s.prot, [b.copy(f)]); g1 = R.wrapper(t, None if wv == NOW else (False, ''), None)
        can = [lst([num(rng.randrange(1000)) for _ in range(rng.choice([3, 50, 400]))]) for _ in range(4)]; cv = [b.mk(c) for c in can]
        res = []
        for rep in range(3):
            x = R.mkdeep(xv, rng); w = None if wv == NOW else R.mkdeep(wv, rng)
            keep, h = s.fill(); rng.shuffle(h)
            for _ in range(min((0, rng.choice([1, 2, 3]), rng.choice([5, 10, 20]))[rep], len(h))): b.free(h.pop())
            r = s.call(g, w, x); s.hm.value = s.inf
            for v in h+keep: b.free(v)
            res.append(b.rd(r)); b.free(r)
            ok = b.rd(x) == xv and (w is None or b.rd(w) == wv) and all(b.rd(a) == c for a, c in zip(cv, can))
            res.append([0, int(ok)])
            r = s.call(g1, w, x); res.append(R.outcome(r)); b.free(r)
            b.free(x); w is None or b.free(w)
        for v in cv: b.free(v)
        b.free(g)
        return res
def job(R, j, seed):
    if not hasattr(R, 'mem'): R.mem = Mem(R)
    t, w, x, mode = j['h']; rng = random.Random(seed)
    if mode == 'oom' and not R.mem.limit: return {json.dumps([]): [0]}
    return {json.dumps(getattr(R.mem, mode)(t, w, x, rng)): [0]}
