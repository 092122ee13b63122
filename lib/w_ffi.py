"""histories of native function definitions, calls and pointer operations"""
import ctypes as C, json, os, random
from bq import *
from gen_ffi import size, fields, ismut, VP
MEM = 256
class Ffi:
    def __init__(s, R, so):
        b = s.b = R.b; s.R = R; s.so = so; L = s.L = C.CDLL(so); s.CB = C.CFUNCTYPE(None, C.c_int); s.cb = s.CB(s.seen)
        C.c_void_p.in_dll(L, 'vcb').value = C.cast(s.cb, C.c_void_p).value
        s.log = (C.c_ubyte*(1 << 16)).in_dll(L, 'vlog'); s.res = (C.c_ubyte*(1 << 12)).in_dll(L, 'vres')
        s.ffi = b.ev('((1˙)⋈•FFI)⎊((0˙)⋈(•CurrentError∘(0˙)))'); s.prot = b.ev('{f←0⊑𝕩⋄((1˙)⋈(f⊘f))⎊((0˙)⋈(•CurrentError∘(0˙)))}')
        s.buf = (C.c_ubyte*(MEM+2048+16))(); s.base = (C.addressof(s.buf)+1024+15) & ~15
        s.name = {k: b.sv(k) for k in ('read', 'write', 'cast', 'add', 'sub', 'field')}; s.hs = []
        s.orig = b.fnatom; b.fnatom = lambda i: b.copy(s.hs[i-1001]) if i > 1000 else s.orig(i)
        x = s.texts([[ord(c) for c in '*u8'], [ord(c) for c in 'mkp'], [ord(c) for c in '>u64']])
        s.mkp = {}; s.u8 = s.ptr('*u8', s.base)
    def texts(s, l): return s.R.list_([s.text(t) for t in l])
    def text(s, t):
        b = s.b
        if t == [-1]: return b.makeF64(5)
        if t == [-2]: return b.makeC8Arr(2, (C.c_size_t*2)(1, 2), (C.c_ubyte*2)(105, 56))
        return b.makeC32Vec(len(t), (C.c_uint32*max(1, len(t)))(*t)) if any(c > 255 for c in t) or not t else b.makeC8Vec(len(t), (C.c_ubyte*len(t))(*t))
    def load(s, res, args, sym):
        b = s.b; w = b.sv(s.so if sym != -2 else '/nonexistent/lib.so'); x = s.texts([res, [ord(c) for c in ('mkp' if sym == 'mkp' else 'nosuchfn' if sym == -1 else 'f%d' % max(sym, 0))]]+args)
        r = b.call2(s.ffi, w, x); b.free(w); b.free(x); p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r)
        if ok: return p
        b.free(p)
    def ptr(s, t, a):
        """a pointer object from a native function; None when there is no such definition"""
        b = s.b
        if t not in s.mkp: s.mkp[t] = s.load([ord(c) for c in t], [[ord(c) for c in '>u64']], 'mkp')
        if s.mkp[t] is None: return None
        x = b.makeF64(float(a)); r = b.call1(s.mkp[t], x); b.free(x); return r
    def pos(s, v):
        """position of a pointer object"""
        b = s.b; f = b.getField(v, s.name['cast']); x = b.sv('u8'); q = b.call1(f, x); b.free(x); b.free(f)
        f = b.getField(q, s.name['sub']); r = b.call1(f, s.u8); b.free(f); b.free(q); d = b.readF64(r); b.free(r); return int(d)
    def rd(s, v):
        b = s.b; t = b.type(v)
        if t == 2: c = b.readChar(v); return [1, c] if c < 0x110000 else [8]
        if t == 6: p = s.pos(v); return [7, 2000+p] if -2000 < p < 10**6 else [8]
        if t != 0 or b.bound(v) == 0: return b.rd(v)
        if b.directArrType(v) in (5, 6, 7): q = b.rd(v); return [2, q[1], [e if e[1] < 0x110000 else [8] for e in q[2]]]
        if b.directArrType(v): return b.rd(v)
        n = b.rank(v); sh = (C.c_size_t*max(n, 1))(); b.shape(v, sh); o = []
        for i in range(b.bound(v)): p = b.pick(v, i); o.append(s.rd(p)); b.free(p)
        return [2, list(sh)[:n], o]
    def put(s, cells):
        o = bytearray(); i = 0
        while i < len(cells):
            if cells[i] >= 1000: o += (s.base+(cells[i]-1000)//8).to_bytes(8, 'little'); i += 8
            else: o.append(cells[i]); i += 1
        return bytes(o)
    def walk(s, t, raw, v, out):
        """what is behind the pointers of an argument; v is what was given for it"""
        k = t[0]
        if k in '{[':
            for (u, p), e in zip(fields(t), v[2]): s.walk(u, raw[p:p+size(u)], e, out)
        elif k == 's':
            if t[1] == 'a': a = int.from_bytes(raw, 'little'); out.append(['a', s.b.rd(a)]); s.b.free(a)
        else:
            if k == ':' and t[1][0] == 's': return
            a = int.from_bytes(raw, 'little')
            if s.base-1024 <= a <= s.base+MEM+1000: out.append(['m', a-s.base]); return
            if k == ':' and t[1] == VP: out.append(['n']); return
            n = len(v[2])
            if k == ':': out.append(['c', list(C.string_at(a, (n*t[3]+7)//8))]); s.where.append(a); return
            e = t[1] if k == '*' else t[2]; z = size(e); d = C.string_at(a, n*z); out.append(['c', list(d)]); s.where.append(a)
            if e[0] in '{[':
                for i in range(n): s.walk(e, d[i*z:(i+1)*z], v[2][i], out)
    def seen(s, k):
        try:
            s.calls += 1; log = bytes(s.log); o = 0; m = 0
            for (t, _, _), v in zip(s.args, s.vals):
                z = size(t); raw = log[o:o+z]; o += z; segs = []; s.where = []; s.walk(t, raw, v, segs); s.args_seen.append([list(raw), segs])
                if ismut(t):
                    if s.where and segs[0][0] == 'c' and len(s.put(s.mb[m])) == len(segs[0][1]): C.memmove(s.where[0], s.put(s.mb[m]), len(segs[0][1]))
                    m += 1
        except Exception as e: s.args_seen.append([[], [['?', str(e)]]])
    def outcome(s, r, keep=None):
        b = s.b; p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1); b.free(r)
        if not ok: b.free(p); return [9]
        o = s.rd(p)
        if keep is not None and b.type(p) == 6: keep.append(p)
        else: b.free(p)
        return o
    def run(s, j, rng):
        b = s.b; R = s.R; resp = []; s.hs = []; fs = []
        def mk(v): return R.mkdeep(v, rng) if v[0] != 7 else b.fnatom(v[1])
        def vary(v):
            """another representation of a list of characters or numbers"""
            q = mk(v)
            if v[0] == 2 and v[2] and all(e[0] < 2 or e[0] == 3 for e in v[2]) and rng.random() < .5:
                from worker import variations
                q2 = b.call1(R.prep((len(v[1]) > 0 and rng.random() < .3, rng.choice(variations(v, True)))), q); b.free(q); q = q2
            return q
        for op in j['h']:
            k = op[0]
            if k == 'init': C.memmove(s.base, bytes(op[1]), MEM); resp.append([0, 1])
            elif k == 'new':
                p = s.ptr(''.join(map(chr, op[1])), s.base+op[2])
                if p is None: resp.append([9])
                else: s.hs.append(p); resp.append([7, 2000+s.pos(p)])
            elif k == 'def':
                f = s.load(op[1], op[2], op[3]); fs.append((f, op[3])); resp.append([9] if f is None else [0, 1])
            elif k == 'call':
                f, sym = fs[op[1]-1]
                if f is None: resp.append([0, [], [4]]); continue
                res, args, single = j['sg'][str(sym)]; s.args = args; s.calls = 0; s.args_seen = []; s.mb = op[5]; w, x = op[2], op[3]
                side = lambda a: w if a[1] == 2 else x; n = {1: 0, 2: 0}; s.vals = []
                for a in args:
                    v = side(a)
                    if not a[2]: q = v[2][n[a[1]]] if v[0] == 2 and n[a[1]] < len(v[2]) else [6]; n[a[1]] += 1; v = q
                    s.vals.append(v)
                if res == ['s', 'a', 64]: C.memmove(s.res, mk(op[4]).to_bytes(8, 'little'), 8)
                else: q = s.put(op[4]); C.memmove(s.res, q, len(q))
                g = R.call(s.prot, [b.copy(f)]); xv = vary(x); wv = None if w == NOW else vary(w)
                r = b.call1(g, xv) if wv is None else b.call2(g, wv, xv); b.free(g)
                o = s.outcome(r)
                if res == ['s', 'a', 64] and s.calls == 0: b.free(int.from_bytes(bytes(s.res[:8]), 'little'))
                resp.append([s.calls, s.args_seen, o])
                for v, q in ((x, xv), (w, wv)):
                    if q is None: continue
                    if 'fn' not in str(v) and not any7(v) and b.rd(q) != v: resp[-1].append([5, 2])
                    b.free(q)
            elif k == 'mem':
                a = s.base.to_bytes(8, 'little').rstrip(b'\0'); resp.append([list(C.string_at(s.base, MEM)), list(a)])
            else:
                q = s.hs[op[1]-1]; f0 = b.getField(q, s.name[k]); f = R.call(s.prot, [f0]); w = None
                if k == 'cast': x = s.text(op[2])
                elif k == 'write':
                    x = vary(op[3]) if op[3][0] == 2 else mk(op[3])
                    if op[2] != NOW: w = mk(op[2])
                else: x = mk(op[2])
                r = b.call1(f, x) if w is None else b.call2(f, w, x)
                b.free(x); w is None or b.free(w); b.free(f); resp.append(s.outcome(r, s.hs))
        for p in s.hs: b.free(p)
        for f, _ in fs: f is None or b.free(f)
        s.hs = []
        return resp
def any7(v): return v[0] == 7 or v[0] == 2 and any(any7(e) for e in v[2])
def job(R, j, seed):
    if not hasattr(R, 'ffi'): R.ffi = Ffi(R, j['so'])
    outs = {}
    for rep in range(j.get('n', 2)): outs.setdefault(json.dumps(R.ffi.run(j, random.Random(seed*7+rep))), []).append(rep)
    return outs
