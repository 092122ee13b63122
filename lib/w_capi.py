"""histories of the embedding interface on the real library"""
import ctypes as C, json, random
from bq import *
CT = {1: ('I8', C.c_int8), 2: ('I16', C.c_int16), 3: ('I32', C.c_int32), 4: ('F64', C.c_double), 5: ('C8', C.c_uint8), 6: ('C16', C.c_uint16), 7: ('C32', C.c_uint32)}
FITS = {1: (-128, 127), 2: (-32768, 32767), 3: (-2**31, 2**31-1)}
def fits(e, t):
    if t < 5: return e[0] in (0, 3) and (t == 4 or dec_num(e) == int(dec_num(e)) and FITS[t][0] <= dec_num(e) <= FITS[t][1] if abs(dec_num(e)) != float('inf') or t == 4 else False)
    return e[0] == 1 and e[1] < {5: 256, 6: 65536, 7: 1 << 30}[t]
def raw(e, t): return e[1] if t > 4 else dec_num(e) if t == 4 else int(dec_num(e))
def rawback(v, t): return [1, v] if t > 4 else enc_num(float(v))
OPSA = ('rr', 'sel', 'each', 'resh', 'drop', 'pickpack', 'enc', 'tr', 'scanr')
class Capi:
    CB1 = C.CFUNCTYPE(V, V, V); CB2 = C.CFUNCTYPE(V, V, V, V)
    def __init__(s, R):
        b = s.b = R.b; s.R = R; L = b.L; s.lib = L
        s.gcf = b.ev('•internal.GC'); s.hs = b.ev('•internal.HeapStats')
        s.mk = {'each': b.ev('{f←0⊑𝕩⋄F¨}'), 'fold': b.ev('{f←0⊑𝕩⋄(F´)⎊("no"˙)}'), 'swap': b.ev('{f←0⊑𝕩⋄F˜}')}
        for t, n in enumerate(('I8', 'I16', 'I32', 'F64', 'C8', 'C16', 'C32')):
            f = getattr(L, 'bqn_direct'+n); f.restype = C.c_void_p; f.argtypes = [V]
        s.dir = lambda t, v: getattr(L, 'bqn_direct'+CT[t][0])(v)
        s.comp = b.ev('•CompObj'); s.cbs = {}
    def used(s):
        b = s.b; z = b.makeF64(0); r = b.call1(s.gcf, z); b.free(r)
        z = b.makeChar(64); r = b.call1(s.hs, z); p = b.pick(r, 1); v = b.readF64(p); b.free(p); b.free(r); return int(v)
    def callback(s, ar, beh, slot):
        """the C function of a bound function: it owns everything it is given"""
        b = s.b; key = json.dumps([ar, beh, slot])
        if key in s.cbs: return C.cast(s.cbs[key], C.c_void_p)
        def f(o, w, x):
            s.log.append([b.rd(o), [6] if w is None else b.rd(w), b.rd(x)]); k = beh[0]; r = None
            if k == 'x': r = x; x = None
            elif k == 'w':
                if w is None: r = x; x = None
                else: r = w; w = None
            elif k == 'obj': r = o; o = None
            elif k == 'k': r = b.mk(beh[1])
            elif k == 'pair':
                l = [o, x] if w is None else [o, w, x]; o = x = w0 = None; r = b.makeObjVec(len(l), (V*len(l))(*l)); w = None
            elif k == 'keep':
                if s.H[slot] is not None: b.free(s.H[slot])
                s.H[slot] = b.copy(x); r = x; x = None
            elif k == 'call':
                g = s.H[beh[1]-1]
                if g is None: r = x; x = None
                else: g = b.copy(g); r = b.call1(g, x); b.free(g)
            elif k == 'drop':
                if s.H[beh[1]-1] is not None: b.free(s.H[beh[1]-1]); s.H[beh[1]-1] = None
                r = x; x = None
            for v in (o, w, x):
                if v is not None: b.free(v)
            return r
        c = s.cbs[key] = s.CB1(lambda o, x: f(o, None, x)) if ar == 1 else s.CB2(f)
        return C.cast(c, C.c_void_p)
    def again(s, v, seed):
        """the same value made another way"""
        b = s.b; rng = random.Random(seed)
        if b.type(v) != 0: return b.copy(v)
        c = b.rd(v)
        if not c[2]: return b.copy(v)
        from worker import variations
        if c[1] and rng.random() < .4:
            k = rng.choice(OPSA)
            if k == 'tr' and len(c[1]) < 1: k = 'rr'
            return b.call1(s.R.prep((False, '='+k)), v)
        return b.call1(s.R.prep((bool(c[1]) and rng.random() < .3, rng.choice(variations(c, True)))), v)
    def ns(s, names, vals):
        b = s.b; L = s.R.list_; n = len(names)
        nl = lambda l: b.makeF64Vec(len(l), (C.c_double*max(1, len(l)))(*l)) if l else b.makeObjVec(0, (V*1)())
        code = [q for i in range(n) for q in (0, i, 0x21, 0, i, 0x30, 6)][:-1]+[6, 8]
        tok = L([nl([]), nl([]), L([L([b.sv(q) for q in ['unused']+names])])])
        arg = L([nl(code), L(vals), L([L([b.makeF64(0), b.makeF64(1), b.makeF64(0)])]), L([L([b.makeF64(0), b.makeF64(n), nl(list(range(1, n+1))), nl([1]*n)])]), nl([]), tok])
        r = b.call1(s.comp, arg); b.free(arg); return r
    def once(s, h, seed):
        b = s.b; H = s.H = []; out = []; Z = [0, 0]
        for op in h:
            k = op[0]; s.log = []; v = Z
            hv = H[op[1]-1] if k not in ('num', 'chr', 'arr', 'vec', 'objs', 'utf8', 'eval', 'ns', 'prim', 'all', 'gc', 'mem') else None
            isa = hv is not None and b.type(hv) == 0
            def push(q): H.append(q); return b.rd(q)
            if k == 'num': v = push(b.makeF64(dec_num(op[1])))
            elif k == 'chr': v = push(b.makeChar(op[1]))
            elif k in ('arr', 'vec'):
                t = op[1]; d = op[-1]; n, ct = CT[t]; buf = (ct*max(1, len(d)))(*[raw(e, t) for e in d])
                if k == 'vec': q = getattr(b, 'make%sVec' % n)(len(d), buf)
                else: sh = (C.c_size_t*max(1, len(op[2])))(*op[2]); q = getattr(b, 'make%sArr' % n)(len(op[2]), sh, buf); C.memset(sh, 85, C.sizeof(sh))
                C.memset(buf, 85, C.sizeof(buf)); v = push(q)
            elif k == 'objs':
                l = []
                for i in op[2]: l.append(b.makeF64(0) if H[i-1] is None else H[i-1]); H[i-1] = None
                a = (V*max(1, len(l)))(*l); v = push(b.makeObjArr(len(op[1]), (C.c_size_t*max(1, len(op[1])))(*op[1]), a) if op[1] != [len(l)] or seed % 2 else b.makeObjVec(len(l), a))
            elif k == 'utf8': d = bytes(op[1]); v = push(b.makeUTF8Str(len(d), d+b'zz'))
            elif k == 'eval':
                t = ''.join(map(chr, op[1]))
                if op[3]: q = b.evalCStr(t.encode())
                else: u = b.sv(t); u2 = s.again(u, seed+len(out)); b.free(u); q = b.eval(u2); b.free(u2)
                v = push(q)
            elif k == 'prim': v = push(b.copy(s.R.fn(op[1])))
            elif k == 'ns': v = push(s.ns([''.join(map(chr, n)) for n in op[1]], [b.makeF64(0) if H[i-1] is None else b.copy(H[i-1]) for i in op[2]]))
            elif k == 'bound':
                o = b.makeF64(0) if hv is None else b.copy(hv); H.append(None); H.append(None)
                H[-2] = (b.makeBoundFn1 if op[2] == 1 else b.makeBoundFn2)(s.callback(op[2], op[3], len(H)-1), o); b.free(o); v = b.rd(H[-2])
            elif k in s.mk: v = push(s.R.call(s.mk[k], [b.makeF64(0) if hv is None else b.copy(hv)]))
            elif k == 'copy': v = push(b.makeF64(0) if hv is None else b.copy(hv))
            elif k == 'again': v = push(b.makeF64(0) if hv is None else s.again(hv, op[2]+seed))
            elif k == 'free':
                if hv is not None: b.free(hv); H[op[1]-1] = None
                v = [0, 1]
            elif k == 'type': v = [0, 9 if hv is None else b.type(hv)]
            elif k == 'atom':
                t = -1 if hv is None else b.type(hv)
                if t == 1: v = enc_num((b.toF64 if op[2] else b.readF64)(hv))
                elif t == 2: v = [1, (b.toChar if op[2] else b.readChar)(hv)]
                if t in (1, 2) and op[2]: H[op[1]-1] = None
            elif k == 'shape':
                if isa: n = b.rank(hv); sh = (C.c_size_t*(n+1))(*([77]*(n+1))); b.shape(hv, sh); v = nums([n, b.bound(hv)]+list(sh)[:n]) if sh[n] == 77 else [9]
            elif k == 'pick':
                v = push(b.pick(hv, op[2] % b.bound(hv)) if isa and b.bound(hv) else b.makeF64(0))
            elif k == 'read':
                if isa:
                    c = b.rd(hv)[2]; ts = [t for t in range(1, 8) if all(fits(e, t) for e in c)]
                    if not ts: v = nums([0])
                    else:
                        t = ts[op[2] % len(ts)]; n, ct = CT[t]; N = len(c); z = C.sizeof(ct); buf = C.create_string_buffer(bytes([0xA5])*(N*z+16), N*z+16)
                        getattr(b, 'read%sArr' % n)(hv, buf); q = (ct*N).from_buffer_copy(buf.raw[:N*z]) if N else []
                        v = lst([num(t)]+[rawback(e, t) for e in q]) if buf.raw[N*z:] == bytes([0xA5])*16 else [9]
            elif k == 'robj':
                if isa:
                    n = b.bound(hv); a = (V*(n+1))(); b.readObjArr(hv, a); v = lst([b.rd(a[i]) for i in range(n)])
                    for i in range(n): b.free(a[i])
            elif k == 'direct':
                if isa:
                    t = b.directArrType(hv); n = b.bound(hv)
                    if t == 0: v = lst([num(0)])
                    else: p = s.dir(t, hv); q = (CT[t][1]*n).from_address(p) if n else []; v = lst([num(t)]+[rawback(e, t) for e in q])
            elif k in ('call1', 'call2'):
                a = [H[i-1] for i in op[2:]]
                if hv is None or None in a: v = push(b.makeF64(0))
                else:
                    # a callback may release handles: the caller keeps its own for the duration, as it must
                    a = [b.copy(q) for q in a]; f = b.copy(hv)
                    q = b.call1(f, a[0]) if k == 'call1' else b.call2(f, a[0], a[1])
                    for e in a+[f]: b.free(e)
                    v = push(q)
            elif k in ('has', 'get'):
                isn = hv is not None and b.type(hv) == 6; nm = b.sv(''.join(map(chr, op[2]))); nm2 = s.again(nm, seed+len(out)); b.free(nm)
                hf = isn and b.hasField(hv, nm2)
                if k == 'has': v = [0, int(hf)]
                else: v = push(b.getField(hv, nm2) if hf else b.makeF64(0))
                b.free(nm2)
            elif k == 'gc': s.used()
            elif k == 'all': v = lst([Z if q is None else b.rd(q) for q in H])
            elif k == 'mem': continue
            out.append([s.log, v])
        for q in H:
            if q is not None: b.free(q)
        s.H = None
        return out
def job(R, j, seed):
    if not hasattr(R, 'capi'): R.capi = Capi(R)
    s = R.capi; outs = {}
    for rep in range(j.get('n', 2)):
        o = s.once(j['h'], seed+rep)
        if j['h'][-1] == ['mem']: # a leak is one every time; compiling and caching stop at some point
            d = 1; u = s.used()
            for _ in range(8):
                s.once(j['h'], seed+rep); u2 = s.used(); d = u2-u; u = u2
                if d <= 0: break
            o.append([[], [0, d]])
        outs.setdefault(json.dumps(o), []).append(rep)
    return outs
