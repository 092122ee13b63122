"""texts run by the native compiler, with what they print"""
import ctypes as C, json, os, random
from bq import *
def job(R, j, seed):
    b = R.b
    if not hasattr(R, 'srcrun'):
        import w_capi
        R.srcrun = b.ev('((1˙)⋈•BQN)⎊((0˙)⋈(•CurrentError∘(0˙)))')
        R.prot = b.ev('{f←0⊑𝕩⋄((1˙)⋈F)⎊((0˙)⋈(•CurrentError∘(0˙)))}')
        R.capi = w_capi.Capi(R) if not hasattr(R, 'capi') else R.capi
        R.libc = C.CDLL(None); R.mfd = os.memfd_create('out')
    def rd(v):
        t = b.type(v)
        if t not in (0, 1, 2): return [7, 100+t]
        b.budget = 1 << 18
        try: return b.rd(v)
        except RecursionError: return [4] # nested too deeply to be looked at
    def out(r, keep=False):
        p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r)
        if not ok: b.free(p); return [9], None
        if keep: return None, p
        o = rd(p); b.free(p); return o, None
    def arg(v, rng):
        if v[0] == 7: return R.capi.ns([''.join(map(chr, n)) for n, _ in v[2]], [arg(q, rng) for _, q in v[2]])
        return R.mkdeep(v, rng)
    outs = {}
    for rep in range(j.get('n', 2)):
        rng = random.Random(seed*13+rep); resp = []
        for op in j['h']:
            R.libc.fflush(None); os.ftruncate(R.mfd, 0); os.lseek(R.mfd, 0, 0)
            sv = os.dup(1); os.dup2(R.mfd, 1)
            try:
                t = R.mkdeep([2, [len(op[1])], [[1, c] for c in op[1]]], rng) if op[1] else b.makeC32Vec(0, (C.c_uint32*1)())
                e, v = out(b.call1(R.srcrun, t), True); b.free(t)
                if e: k, res = 9, []
                else:
                    ty = b.type(v)
                    if ty in (0, 1, 2): k, res = 0, [rd(v)]
                    elif ty == 3:
                        f = R.call(R.prot, [b.copy(v)]); x = arg(op[3], rng); w = arg(op[2], rng)
                        k, res = 7, [out(b.call1(f, x))[0], out(b.call2(f, w, x))[0]]
                        b.free(x); b.free(w); b.free(f)
                    else: k, res = 10 if ty in (4, 5) else 11, []
                    b.free(v)
            finally: R.libc.fflush(None); os.dup2(sv, 1); os.close(sv)
            n = os.lseek(R.mfd, 0, 1); os.lseek(R.mfd, 0, 0); d = os.read(R.mfd, n)
            resp.append([k, [ord(c) for c in d.decode(errors='replace')], res])
        outs.setdefault(json.dumps(resp), []).append(rep)
    return outs
