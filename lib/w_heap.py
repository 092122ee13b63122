"""heap histories on the real library"""
import json, random
from bq import *
from gen_heap import HELD, NREF
NSCODE = [1,1,7, # block 0: the function
 0x20,0,1, 0x21,0,4, 0x30, 6, 0x20,0,2, 0x21,0,3, 0x30, 6, 1,2, 0x21,0,5, 0x30, 6, 1,3, 0x21,0,6, 0x30, 6, 8,
 0x20,0,1, 0x21,1,3, 0x31, 7,
 0x20,0,1, 0x21,1,4, 0x31, 7]
class Heap:
    def __init__(s, R):
        b = s.b = R.b; s.R = R
        nl = lambda *n: b.makeF64Vec(len(n), (C.c_double*max(1, len(n)))(*n)) if n else b.makeObjVec(0, (V*1)())
        L = R.list_
        tok = L([nl(), nl(), L([L([b.sv(n) for n in ('unused', 'a', 'b', 'seta', 'setb')])])])
        o2 = 3; o3 = NSCODE.index(8, 3)+1; o4 = o3+8
        NSCODE_ = NSCODE
        bod = [L([b.makeF64(0), b.makeF64(0), nl(), nl()]), L([b.makeF64(o2), b.makeF64(7), nl(1, 2, 3, 4), nl(1, 1, 1, 1)]), L([b.makeF64(o3), b.makeF64(3), nl(), nl()]), L([b.makeF64(o4), b.makeF64(3), nl(), nl()])]
        blk = [L([b.makeF64(0), b.makeF64(1), b.makeF64(0)]), L([b.makeF64(0), b.makeF64(0), L([nl(), nl(1)])]), L([b.makeF64(0), b.makeF64(0), L([nl(2), nl()])]), L([b.makeF64(0), b.makeF64(0), L([nl(3), nl()])])]
        s.mkns = R.call(b.ev('•CompObj'), [nl(*NSCODE_), nl(), L(blk), L(bod), nl(), tok])
        # {(𝕩⋈𝕩) (! 𝕩)}: values on the stack when it throws
        c = [1,1,7, 0x20,0,1, 0x20,0,1, 0x0B,2, 0x20,0,1, 0,0, 0x10, 6, 7]
        t = R.call(b.ev('•CompObj'), [nl(*c), L([b.ev('!')]), L([L([b.makeF64(0), b.makeF64(1), b.makeF64(0)]), L([b.makeF64(0), b.makeF64(0), L([nl(1), nl()])])]), L([nl(0,0), nl(3,3)])])
        s.thrb = R.call(b.ev('{f←0⊑𝕩⋄F⎊(•CurrentError⊢)}'), [t]); s.throw = b.ev('(!⎊(•CurrentError⊢))')
        s.held_ = {k: b.ev('{a←0⊑𝕩⋄b←¯1⊑𝕩⋄'+t+'}') for k, t in dict(const='a˙', bind='a⊸⊣', forkfh='a⋈(b˙)', forkg='⊢(a⊸⊣)⊢', atopg='(a˙)⊢', atoph='⊢(a˙)', after='⊢⟜a').items()}
        def cobj(code, blk, bod, v=0): return R.call(b.ev('•CompObj'), [nl(*code), nl(), L([L([b.makeF64(0), b.makeF64(1), b.makeF64(0)])]+blk), L([nl(0,v)]+bod)])
        fb = lambda i: L([b.makeF64(0), b.makeF64(0), L([nl(i), nl(i)])])
        # _m←{𝕗⊣𝕩}⋄{𝕩 _m} and _m_←{⟨𝕗,𝕘⟩⊣𝕩}⋄{𝕩 _m_ 𝕨}
        top = [1,1, 0x21,0,0, 0x30, 6, 1,2, 7]
        s.mod1 = cobj(top+[0x20,0,4, 7,  0x20,1,0, 0x20,0,1, 0x1A, 7], [L([b.makeF64(1), b.makeF64(0), L([nl(1), nl(1)])]), fb(2)], [nl(10,5), nl(14,3)], 1)
        s.mod2 = cobj(top+[0x20,0,4, 0x20,0,5, 0x0B,2, 7,  0x20,0,2, 0x20,1,0, 0x20,0,1, 0x1B, 7], [L([b.makeF64(2), b.makeF64(0), L([nl(1), nl(1)])]), fb(2)], [nl(10,6), nl(19,3)], 1)
        # {a←𝕩⋄{a}}
        s.clos = cobj([1,1,7, 0x20,0,1, 0x21,0,3, 0x30, 6, 1,2, 7, 0x20,1,3, 7], [fb(1), fb(2)], [nl(3,4), nl(14,3)])
        s.cbf = C.CFUNCTYPE(V, V, V)(s.giveback)
        s.hm = b.ev('{k←0⊑𝕩⋄v←1⊑𝕩⋄k•HashMap v}')
        s.fl = {n: b.sv(n) for n in ('a', 'b', 'seta', 'setb', 'get', 'set', 'delete')}
        s.gcf = b.ev('•internal.GC'); s.hs = b.ev('•internal.HeapStats'); s.pk = b.ev('⊑')
        [s.cal() for _ in range(8)]
    def used(s, gc=True):
        b = s.b
        if gc: x = b.call1(s.gcf, b.makeF64(0)); b.free(x)
        r = b.call1(s.hs, b.makeChar(64)); p = b.pick(r, 1); v = b.readF64(p); b.free(p); b.free(r); return int(v)
    def leaf(s, t, k):
        b = s.b
        n = [5, 3, 100, 40, 700, 4000][t]
        if t in (0,): return b.makeI8Vec(n, (C.c_int8*n)(*[k]*n))
        if t in (1, 2, 5): return b.makeF64Vec(n, (C.c_double*n)(*[k+.5]*n))
        if t == 3: return b.sv(chr(70000+k)*n)
        return b.makeI16Vec(n, (C.c_int16*n)(*[k+1000]*n))
    def held(s, k, l):
        """an object of kind k with the values of l"""
        b = s.b
        if k in s.held_: return s.R.call(s.held_[k], l)
        if k == 'mat': return b.makeObjArr(2, (C.c_size_t*2)(1, 2), (V*2)(*l))
        if k == 'cb': r = b.makeBoundFn1(C.cast(s.cbf, C.c_void_p), l[0])
        elif k == 'mod2': r = b.call2(s.mod2, l[1], l[0])
        else: r = b.call1(s.mod1 if k == 'mod1' else s.clos, l[0])
        for v in l: b.free(v)
        return r
    def giveback(s, o, x): s.b.free(x); return o
    def ns(s, x, y):
        # the arguments of the call that makes it stay in its scope, so the fields are set afterwards
        o = s.b.makeF64(0); r = s.b.call2(s.mkns, o, o); s.setf(r, 'seta', x); s.setf(r, 'setb', y); return r
    def map(s, l): return s.R.call(s.hm, [s.b.makeF64Vec(len(l), (C.c_double*len(l))(*range(1, len(l)+1))), s.R.list_(l)])
    def setf(s, n, f, v): g = s.b.getField(n, s.fl[f]); r = s.b.call1(g, v); s.b.free(r); s.b.free(v); s.b.free(g)
    def cal(s):
        b = s.b; out = []
        def one(mk):
            u0 = s.used(); v = mk(); u1 = s.used(); b.free(v); u2 = s.used(); out.append([u1-u0, u2-u0])
        for t in range(6): one(lambda: s.leaf(t, 1))
        x = s.leaf(0, 1); y = s.leaf(1, 2)
        for n in range(1, 5): one(lambda: s.R.list_([b.copy(x) for _ in range(n)]))
        one(lambda: s.ns(b.copy(x), b.copy(y))); 
        for k in HELD: one(lambda: s.held(k, [b.copy(x), b.copy(y)][:NREF.get(k, 1)]))
        def warm():
            n = s.ns(b.copy(x), b.copy(y)); s.setf(n, 'seta', b.copy(y)); s.setf(n, 'setb', b.copy(x)); m = s.map([n]); b.free(s.step(m, 'map', 1))
            for k in HELD: z = s.held(k, [b.copy(x), b.copy(y)][:NREF.get(k, 1)]); b.free(s.step(z, k, 1)); b.free(z)
            b.free(b.call1(s.throw, x)); b.free(b.call1(s.thrb, x)); return m
        one(warm); out.pop()
        b.free(x); b.free(y)
        return out
    def step(s, v, k, i):
        b = s.b
        if k in ('list', 'mat'): return b.pick(v, i-1)
        if k == 'ns': return b.getField(v, s.fl['ab'[i-1]])
        if k == 'map': g = b.getField(v, s.fl['get']); n = b.makeF64(i); r = b.call1(g, n); b.free(g); b.free(n); return r
        n = b.makeF64(0); r = b.call1(v, n); b.free(n)
        if NREF.get(k): q = b.pick(r, i-1); b.free(r); r = q
        return r
    def summ(s, v, d=0):
        """leaves as <length, content>, whatever is not data as a function"""
        if v[0] != 2: return [7, 1]
        if v[2] and all(e == v[2][0] for e in v[2]) and v[2][0][0] in (0, 1, 3):
            e = v[2][0]; k = e[1]-70000 if e[0] == 1 else int(dec_num(e)) if e[0] == 3 else e[1]-1000 if len(v[2]) == 700 else e[1]
            return [0, len(v[2])*1000+k]
        if d > 3: return [0, 1]
        return [2, v[1], [s.summ(e, d+1) for e in v[2]]]
def job(R, j, seed):
    b = R.b
    if not hasattr(R, 'heap'): R.heap = Heap(R)
    H = R.heap; hd = []; resp = []; outs = {}
    base = 0
    rd = lambda v: H.summ(b.rd(v))
    kinds = []  # kind and refs of each object, only to know how to step
    ob = []
    for op in j['h']:
        o = op[0]; q = [7, 1]
        g = lambda i: b.copy(hd[i-1])
        if o == 'cal': q = H.cal(); base = H.used()
        elif o == 'leaf': hd.append(H.leaf(op[1], op[2])); ob.append(len(kinds)); kinds.append(['leaf', []])
        elif o == 'list': hd.append(R.list_([g(i) for i in op[1]])); ob.append(len(kinds)); kinds.append(['list', [ob[i-1] for i in op[1]]])
        elif o == 'ns': hd.append(H.ns(g(op[1]), g(op[2]))); ob.append(len(kinds)); kinds.append(['ns', [ob[op[1]-1], ob[op[2]-1]]])
        elif o == 'held': hd.append(H.held(op[1], [g(i) for i in op[2]])); ob.append(len(kinds)); kinds.append([op[1], [ob[i-1] for i in op[2]]])
        elif o == 'map': hd.append(H.map([g(i) for i in op[1]])); ob.append(len(kinds)); kinds.append(['map', [ob[i-1] for i in op[1]]])
        elif o == 'set': H.setf(hd[op[1]-1], ('seta', 'setb')[op[2]-1], g(op[3])); kinds[ob[op[1]-1]][1][op[2]-1] = ob[op[3]-1]
        elif o == 'mset':
            f = b.getField(hd[op[1]-1], H.fl['set']); n = b.makeF64(op[2]); v = g(op[3]); r = b.call2(f, n, v)
            for z in (f, n, v, r): b.free(z)
            kinds[ob[op[1]-1]][1][op[2]-1] = ob[op[3]-1]
        elif o == 'mdel':
            f = b.getField(hd[op[1]-1], H.fl['delete']); n = b.makeF64(op[2]); r = b.call1(f, n)
            for z in (f, n, r): b.free(z)
            kinds[ob[op[1]-1]][1][op[2]-1] = None
        elif o == 'read':
            v = g(op[1]); k = ob[op[1]-1]
            for i in op[2]: z = H.step(v, kinds[k][0], i); b.free(v); v = z; k = kinds[k][1][i-1]
            hd.append(v); ob.append(k); q = rd(v)
        elif o in ('throw', 'thrb'):
            r = b.call1(H.throw if o == 'throw' else H.thrb, hd[op[1]-1]); hd.append(r); ob.append(ob[op[1]-1]); q = rd(r)
        elif o == 'drop': b.free(hd[op[1]-1]); hd[op[1]-1] = None; ob[op[1]-1] = None
        elif o == 'gc': q = [0, H.used()-base]
        elif o == 'used': q = [0, H.used(False)-base]
        resp.append(q)
    outs[json.dumps(resp)] = [0]
    return outs
