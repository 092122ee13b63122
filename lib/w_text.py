"""conversions between characters and bytes, numbers and text, and widths of bits, on the real functions"""
import json, random
from bq import *
NAMES = ('cast', 'not', 'neg', 'and', 'or', 'xor', 'add', 'sub', 'mul')
def setup(R):
    b = R.b
    R.tx = {k: b.ev(s) for k, s in dict(toutf8='•ToUTF8', fromutf8='•FromUTF8', parse='•ParseFloat', repr='•Repr').items()}
    bit = b.ev('•bit'); R.bitm = {n: b.getField(bit, b.sv(n)) for n in NAMES}
    R.pre1 = b.ev('1⊸↑∾⊢'); R.drop1 = b.ev('1⊸↓')
    R.compo = b.ev('•CompObj')
    R.und = b.ev('{f←0⊑𝕩⋄F⁼}')
    # a modifier value cannot be spelled natively: 𝕗 is supplied by a block of one application
def derive(R, m, f):
    b = R.b; nl = lambda *n: b.makeF64Vec(len(n), (C.c_double*len(n))(*n))
    lo = lambda *a: b.makeObjVec(len(a), (V*len(a))(*a))
    x = lo(nl(0, 0, 0, 1, 0x1A, 7), lo(b.copy(m), f), lo(nl(0, 1, 0)), lo(nl(0, 0)))
    r = b.call1(R.compo, x); b.free(x); return r
def job(R, j, seed):
    b = R.b
    if not hasattr(R, 'tx'): setup(R)
    from worker import variations
    outs = {}
    for rep in range(j.get('n', 2)):
        rng = random.Random(seed*7+rep); resp = []
        def val(v):
            """the value, and the function making the argument from it inside the protected call (fresh, not shared)"""
            q = R.mkdeep(v, rng); pf = R.ident
            if v[0] == 2 and v[2] and rep:
                var = rng.choice(variations(v, 1)); off = len(v[1]) > 0 and rng.random() < .3
                if off: # a slice, whose parent stays in use
                    if var: q2 = b.call1(R.prep((False, var)), q); b.free(q); q = q2
                    q2 = b.call1(R.pre1, q); b.free(q); q = q2; pf = R.drop1
                else: pf = R.prep((False, var))
            return q, b.rd(q), pf
        def prot(f, args):
            u = R.call(R.mk3, [f]+[b.copy(a[2]) for a in (args if len(args) == 2 else args*2)])
            r = b.call1(u, args[0][0]) if len(args) == 1 else b.call2(u, args[0][0], args[1][0])
            b.free(u); q = out(r)
            for v, c, _ in args:
                if b.rd(v) != c: q = [5, 2]
                b.free(v)
            return q
        def out(r):
            p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r)
            o = b.rd(p); b.free(p)
            if not ok: R.lasterr = ''.join(chr(c[1]) for c in o[2]) if o[0] == 2 else ''; return [9]
            return o
        for op in j['h']:
            o = op[0]
            if o in R.tx: q = prot(b.copy(R.tx[o]), [val(op[1])])
            else:
                p = R.mkdeep(op[1], rng); f = derive(R, R.bitm['cast' if o == 'uncast' else o], p)
                if o == 'uncast': f = R.call(R.und, [f])
                q = prot(f, [val(a) for a in op[2:]])
            resp.append(q)
        outs.setdefault(json.dumps(resp), []).append(rep)
    return outs
