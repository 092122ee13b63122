"""map histories on the real •HashMap"""
import json, random
from bq import *
def job(R, j, seed):
    b = R.b
    if not hasattr(R, 'hm'):
        R.hm = b.ev('{((1˙)⋈(•HashMap))⎊((0˙)⋈(•CurrentError⊢))}' if 0 else '((1˙)⋈•HashMap)⎊((0˙)⋈(•CurrentError⊢))')
        R.prot = b.ev('{f←0⊑𝕩⋄((1˙)⋈F)⎊((0˙)⋈(•CurrentError⊢))}')
        R.fld = {k: b.sv(k) for k in ('get', 'has', 'set', 'delete', 'count', 'keys', 'values')}
    outs = {}
    for rep in range(j.get('n', 2)):
        rng = random.Random(seed*7+rep)
        def val(v, key=0):
            if v == [0, 0] and rng.random() < .4: return b.makeF64(-0.0)
            q = R.mkdeep(v, rng)
            if v[0] == 2 and v[2] and rep:
                vs = __import__('worker').variations(v, 1); var = rng.choice(vs); off = len(v[1]) > 0 and rng.random() < .2
                if var or off: q2 = b.call1(R.prep((off, var)), q); b.free(q); q = q2
            return q
        maps = []; resp = []; held = []
        def out(r):
            p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r)
            if not ok: e = b.rd(p); R.lasterr = ''.join(chr(c[1]) for c in e[2]) if e[0] == 2 else ''; b.free(p); held.append(None); return [9]
            held.append(p); o = b.rd(p); return o
        def fld(m, n): return R.call(R.prot, [b.getField(m, R.fld[n])])
        def c1(m, n, x):
            f = fld(m, n); r = b.call1(f, x); b.free(f); b.free(x); return out(r)
        def c2(m, n, w, x):
            f = fld(m, n); r = b.call2(f, w, x); b.free(f); b.free(w); b.free(x); return out(r)
        for op in j['h']:
            o = op[0]
            if o == 'new':
                w, x = val(op[1]), val(op[2]); r = b.call2(R.hm, w, x); b.free(w); b.free(x); q = out(r)
                maps.append(b.copy(held[-1]) if q != [9] else None)
            elif o == 're': q = b.rd(held[op[1]-1]); held.append(b.copy(held[op[1]-1]))
            else:
                m = maps[op[1]-1]
                if o == 'set': q = c2(m, 'set', val(op[2]), val(op[3]))
                elif o == 'setr': q = c2(m, 'set', val(op[2]), b.copy(held[op[3]-1]))
                elif o == 'del': q = c1(m, 'delete', val(op[2]))
                elif o == 'get': q = c1(m, 'get', val(op[2]))
                elif o == 'getd': q = c2(m, 'get', val(op[3]), val(op[2]))
                elif o == 'has': q = c1(m, 'has', val(op[2]))
                elif o in ('count', 'keys', 'vals'): q = c1(m, {'vals': 'values'}.get(o, o), val(op[2]))
                elif o == 'bad':
                    if op[2] == 'set': q = c1(m, 'set', val(op[3]))
                    else: q = c2(m, op[2], val(op[3]), val(op[3]))
            resp.append(q)
        for v in held+maps:
            if v is not None: b.free(v)
        outs.setdefault(json.dumps(resp), []).append(rep)
    return outs
