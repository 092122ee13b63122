"""call histories on random generators"""
import ctypes as C, json, random, zlib
from bq import *
FN = {'r': 'range', 'd': 'deal', 's': 'subset'}
def job(R, j, seed):
    b = R.b
    if not hasattr(R, 'mkrand'):
        R.mkrand = b.ev('((1˙)⋈•MakeRand)⎊((0˙)⋈(•CurrentError⊢))')
        R.rand0 = b.ev('•rand')
        R.prot = b.ev('{f←0⊑𝕩⋄((1˙)⋈F)⎊((0˙)⋈(•CurrentError⊢))}')
        R.rfld = {k: b.sv(v) for k, v in FN.items()}
        R.other = [b.ev(t) for t in ('{(⍋𝕩)⊏𝕩}', '{⍷𝕩⊐𝕩}', '{+´×˜𝕩}')]
    def big(v, n):
        rk = b.rank(v); sh = (C.c_size_t*max(rk, 1))(); b.shape(v, sh)
        buf = (C.c_double*n)(); b.readF64Arr(v, buf); l = list(buf)
        mn, mx = min(l), max(l); li = all(x == int(x) for x in l); k = [int(x) for x in l] if li else [int(x*2**52) for x in l]; o = 0
        for x in k: o |= x ^ k[0]
        return [10, list(sh)[:rk], len(set(l)), enc_num(mn), enc_num(mx), int(li), int(all(x < y for x, y in zip(l, l[1:]))), o & (2**27-1), o >> 27, zlib.crc32(bytes(buf)) & (2**30-1)]
    def obs(v):
        n = b.bound(v) if b.type(v) == 0 else 0
        if n > 300:
            p = b.pick(v, 0); q = b.type(p); b.free(p)
            if q == 1: return big(v, n)
        return b.rd(v)
    outs = {}
    for rep in range(j.get('n', 2)):
        rng = random.Random(seed*7+rep); gens = [b.copy(R.rand0)]; resp = []; b.budget = 1 << 20
        def out(r, f=obs):
            p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r)
            o = f(p) if ok else [9]; b.free(p); return o
        def val(v):
            if v == [0, 0] and rng.random() < .4: return b.makeF64(-0.0)
            return R.mkdeep(v, rng)
        for op in j['h']:
            k = op[0]
            if k == 'mk':
                x = R.mkdeep(op[1], rng); r = b.call1(R.mkrand, x); b.free(x)
                def keep(p): gens.append(b.copy(p)); return [7, 1]
                q = out(r, keep)
                if q == [9]: gens.append(None)
            elif k == 'other':
                x = R.mkdeep([2, [300], [[0, rng.randint(-9, 99)] for _ in range(300)]], rng); r = b.call1(R.other[op[1]], x); b.free(x); b.free(r); q = [7, 1]
            else:
                g = gens[op[1]]; f0 = b.getField(g, R.rfld[op[2]]); f = R.call(R.prot, [f0])
                def one(g=obs):
                    x = val(op[4])
                    if op[3] == NOW: r = b.call1(f, x)
                    else: w = val(op[3]); r = b.call2(f, w, x); b.free(w)
                    b.free(x); return out(r, g)
                if k == 'call': q = one()
                else: # 'rep' fn w x times mode
                    s = {}
                    for _ in range(op[5]):
                        o = one()
                        if op[6] == 0: s.setdefault(json.dumps(o), o)
                        else:
                            if o == [9] or o[0] == 10: s = None; break
                            for i, e in enumerate(o[2]): s.setdefault((i, json.dumps(e)), e)
                    if s is None: q = [9]
                    elif op[6] == 0: q = [11, sorted(s.values())]
                    else: n = 1+max(i for i, _ in s); q = [12, [sorted(e for (i, _), e in s.items() if i == p) for p in range(n)]]
                b.free(f)
            resp.append(q)
        for g in gens:
            if g is not None: b.free(g)
        outs.setdefault(json.dumps(resp), []).append(rep)
    return outs
