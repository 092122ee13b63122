"""worker.py LIB JOBS START: runs function-application jobs against a real build, one outcome line per job on stdout.
Job: {t,w,x,n[,h]} - n representation pairs are tried (h: also representations without a known fill)."""
import sys, json, random, resource
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from bq import *
def variations(v, nofill):
    """representations (names for Variation) that can hold array v"""
    r = v[2]
    if not r: return ['']
    ks = {e[0] for e in r}
    o = ['']
    if ks <= {0, 3}:
        if ks == {0}:
            mn = min(e[1] for e in r); mx = max(e[1] for e in r)
            if mn >= 0 and mx <= 1: o += ['Ab', 'Ab']
            if mn >= -128 and mx <= 127: o += ['Ai8', 'Si8']
            if mn >= -32768 and mx <= 32767: o += ['Ai16', 'Si16']
            o += ['Ai32', 'Si32']
        elif all(abs(dec_num(e)) < 2**31-1 and dec_num(e) == int(dec_num(e)) for e in r if dec_num(e) == dec_num(e)) and all(e[1:] != [32760,0,0,0] for e in r): o += ['Ai32', 'Si32']
        o += ['Af64', 'Sf64', 'Af', 'Sf']
    elif ks == {1}:
        m = max(e[1] for e in r)
        if m < 256: o += ['Ac8', 'Sc8']
        if m < 65536: o += ['Ac16', 'Sc16']
        o += ['Ac32', 'Sc32', 'Af', 'Sf']
    else: return ['', 'Ah', 'Sh', ''] 
    if nofill: o += ['Ah', 'Sh']
    return o
def hasfn(v): return v[0] == 7 or v[0] == 2 and any(hasfn(e) for e in v[2])
# functions that rebuild an array of rank 1 or more another way
OPS = {'rr': '⌽∘⌽', 'sel': '(↕∘≠)⊸⊏', 'each': '⊢¨', 'resh': '≢⊸⥊', 'join': '∾⟜(0⊸↑)', 'merge': '>∘(<¨)', 'first': '0⊸⊏∘(≍˜)', 'under': '⊢⌾(0⊸↓)', 'rep': '1⊸/', 'drop': '0⊸↓', 'rot': '(1⊸⌽)∘(¯1⊸⌽)', 'shift': '(1⊸↓)∘(¯1⊸↓)∘((1⊸↑)∾⊢∾(1⊸↑))', 'group': '(0⊸⊑)∘((≠⥊(0˙))⊸⊔)', 'pickpack': '(0⊸⊑)∘⋈', 'enc': '⊑∘<', 'win': '⊏∘(≠⊸↕)', 'scanr': '⊢⌾⥊', 'negneg': '-∘-', 'tr': '(⍉⍟=)', 'cells': '⊢˘', 'rowrev': '⌽˘∘(⌽˘)'}
NFOP = ('each', 'merge', 'group', 'win', 'first')    # may lose the fill
class Runner:
    def __init__(s, lib):
        b = s.b = BQN(lib)
        s.variation = b.ev('•internal.Variation')
        s.mkprep = b.ev('{v←0⊑𝕩⋄n←1⊑𝕩⋄n⊸(v⊘v)}')
        s.mkoff = b.ev('{f←0⊑𝕩⋄((1⊸↓)(1⊸↑∾⊢))∘(f⊘f)}')
        s.off0 = b.ev('(1⊸↓)(1⊸↑∾⊢)')
        s.ident = b.ev('⊢'); s.pre1 = b.ev('1⊸↑∾⊢'); s.drop1 = b.ev('1⊸↓')
        # p and q make fresh, unshared arguments inside the protected call
        s.mk1 = b.ev('{f←0⊑𝕩⋄q←2⊑𝕩⋄((1˙)⋈((f⊘f)(q⊘q)))⎊((0˙)⋈(•CurrentError⊢))}')
        s.mk2 = b.ev('{f←0⊑𝕩⋄p←1⊑𝕩⋄q←2⊑𝕩⋄((1˙)⋈(((p⊘p)⊣)(f⊘f)((q⊘q)⊢)))⎊((0˙)⋈(•CurrentError⊢))}')
        s.mk3 = b.ev('{f←0⊑𝕩⋄p←1⊑𝕩⋄q←2⊑𝕩⋄((1˙)⋈((F∘Q)⊘((P⊣)F(Q⊢))))⎊((0˙)⋈(•CurrentError⊢))}')
        # the function under test caught on the spot, its handler giving the message and the arguments it sees
        s.mkc1 = b.ev('{f←0⊑𝕩⋄q←2⊑𝕩⋄(((1˙)⋈(f⊘f))⎊((0˙)⋈((•CurrentError⊢)⋈⋈)))∘(q⊘q)}')
        s.mkc2 = b.ev('{f←0⊑𝕩⋄p←1⊑𝕩⋄q←2⊑𝕩⋄((p⊘p)⊣)(((1˙)⋈(f⊘f))⎊((0˙)⋈((•CurrentError⊢)⋈⋈)))((q⊘q)⊢)}')
        s.preps = {}; s.fns = {}; s.wr = {}
        s.lasterr = ''
    def prep(s, rep):
        if rep in s.preps: return s.preps[rep]
        off, var = rep
        b = s.b
        if var[:1] == '=': f = b.ev(OPS[var[1:]])
        elif var == '': f = s.off0 if off else s.ident
        else:
            f = s.call(s.mkprep, [b.copy(s.variation), b.sv(var)])
            if off: f = s.call(s.mkoff, [f])
        s.preps[rep] = f
        return f
    def call(s, f, args):
        x = s.b.makeObjVec(len(args), (V*len(args))(*args))
        r = s.b.call1(f, x); s.b.free(x)
        return r
    def fn(s, t):
        key = json.dumps(t)
        if key in s.fns: return s.fns[key]
        cs = []
        src = '{'+tsrc(t, cs)+'}' if t['k'] == 'p' else '{'+tsrc(t, cs)+'}'
        if len(s.fns) > 2000: s.fns.clear(); s.wr.clear()
        if cs:
            pre = ''.join('y%s←%d⊑𝕩⋄' % (c[1].replace('2', 'two').replace('1', 'one'), n) for n, c in enumerate(cs) if c[0] == 'y')
            mkr = s.b.ev('{'+pre+src[1:]); f = s.call(mkr, [s.math(c[1]) if c[0] == 'y' else s.b.mk(c) for c in cs]); s.b.free(mkr)
        else: f = s.b.ev(src[1:-1])
        s.fns[key] = f
        return f
    def math(s, n):
        b = s.b; m = b.ev('•math'); k = b.sv(n); r = b.getField(m, k); b.free(m); b.free(k); return r
    # recorders: user functions whose calls are logged
    CB1 = C.CFUNCTYPE(V, V, V); CB2 = C.CFUNCTYPE(V, V, V, V)
    def initrec(s):
        b = s.b; s.log = []; s.rs = []
        def res(i, w, x):
            if s.b.budget < 0: return b.makeF64(0) if not s.wrap else s.list_([b.makeF64(1), b.makeF64(0)])     # too much already: the outcome is dropped
            s.log.append([i, w, x])
            n = len(s.log)
            if not s.rs: v = lst([x] if w == NOW else [w, x])
            else: v = s.rs[(n-1) % len(s.rs)]
            if not s.wrap: return b.mk(v)
            return s.list_([b.makeF64(0 if v == ERR else 1), b.mk([0, 0] if v == ERR else v)])
        def f1(o, x):
            i = int(b.readF64(o)); xv = b.rd(x); b.free(x); b.free(o); return res(i, NOW, xv)
        def f2(o, w, x):
            i = int(b.readF64(o)); wv = b.rd(w); xv = b.rd(x); b.free(w); b.free(x); b.free(o); return res(i, wv, xv)
        s.cb = (s.CB1(f1), s.CB2(f2))
        s.comb = b.ev('{f←0⊑𝕩⋄g←1⊑𝕩⋄F⊘G}')
        s.erw = b.ev('{f←0⊑𝕩⋄((0⊸⊑)◶⟨(!∘(0˙)),(1⊸⊑)⟩)∘F}')
        s.compo = b.ev('•CompObj')
        s.recs = {}
    def list_(s, a): return s.b.makeObjVec(len(a), (V*max(1, len(a)))(*a))
    def block(s, f):
        """the block {F 𝕩 ; 𝕨 F 𝕩} over the function f"""
        b = s.b
        nl = lambda *n: b.makeF64Vec(len(n), (C.c_double*len(n))(*n))
        code = [1,1,7, 0x20,0,1, 0,0, 0x10, 7, 0x20,0,1, 0,0, 0x20,0,2, 0x11, 7]
        return s.call(s.compo, [nl(*code), s.list_([f]), s.list_([nl(0,1,0), s.list_([b.makeF64(0), b.makeF64(0), s.list_([nl(1), nl(2)])])]), s.list_([nl(0,0), nl(3,3), nl(10,3)])])
    def rec(s, i, kind):
        """recorder i; kinds: 0 combined bound functions, 1 block, 2 that can fail, 3/4 bare monadic/dyadic, 5 block that can fail"""
        b = s.b
        if (i, kind) not in s.recs:
            m = lambda: b.makeBoundFn1(C.cast(s.cb[0], C.c_void_p), b.makeF64(i)); d = lambda: b.makeBoundFn2(C.cast(s.cb[1], C.c_void_p), b.makeF64(i))
            if kind == 3: f = m()
            elif kind == 4: f = d()
            else:
                f = s.call(s.comb, [m(), d()])
                if kind in (2, 5): f = s.call(s.erw, [f])
                if kind in (1, 5): f = s.block(f)
            s.recs[(i, kind)] = f
        return b.copy(s.recs[(i, kind)])
    def fnr(s, t, kind):
        key = json.dumps([t, kind])
        if key not in s.fns:
            cs = []; src = tsrc(t, cs); pre = ''
            for n, c in enumerate(cs):
                if c[0] == 'r': pre += 'r%s←%d⊑𝕩⋄' % ('abcdefghij'[c[1]], n)
            mkr = s.b.ev('{'+pre+src+'}'); s.fns[key] = s.call(mkr, [s.rec(c[1], kind) if c[0] == 'r' else s.b.mk(c) for c in cs]); s.b.free(mkr)
        return s.fns[key]
    def jobR(s, j, seed):
        """outcome and log of calls of a job with recorders, for several kinds of user function and argument representations"""
        if not hasattr(s, 'log'): s.initrec()
        rng = random.Random(seed); w, x = j['w'], j['x']; s.rs = j['r']; b = s.b
        err = ERR in s.rs
        xs = variations(x, 0) if x[0] == 2 else None; ws = variations(w, 0) if w[0] == 2 else None
        outs = {}; kinds = [2, 5, 2] if err else [0, 1, None]
        for n, kind in enumerate(kinds[:j.get('n', 3)]):
            if kind is None:
                ar = {c[1] == NOW for c in s.log}
                if len(ar) != 1: continue
                kind = 3 if ar == {True} else 4
            s.wrap = err
            rx = None if xs is None else (False, '' if n == 0 else rng.choice(xs)); rw = None if ws is None else (False, '' if n == 0 else rng.choice(ws))
            f = s.fnr(j['t'], kind)
            wr = s.wrapper2(f, rw, rx)
            s.log = []
            xv = b.mk(x)
            if w == NOW: r = b.call1(wr, xv)
            else:
                wv = b.mk(w); r = b.call2(wr, wv, xv); b.free(wv)
            b.free(xv); b.free(wr)
            o = s.outcome(r); b.free(r)
            outs.setdefault(json.dumps([o, s.log]), []).append([kind, rw, rx])
        return outs
    def compobj(s, p, kind):
        """the •CompObj argument for a program"""
        b = s.b; import gen_vm
        nums = lambda l: b.makeF64Vec(len(l), (C.c_double*max(1, len(l)))(*l)) if l else b.makeObjVec(0, (V*1)())
        objs = []
        for o in p['objs']:
            if o['k'] == 'c': objs.append(b.mk(o['v']))
            elif o['k'] == 'pm': objs.append(s.evc(GL[o['n']]))
            elif o['t']['k'] == 'r': objs.append(s.rec(o['t']['i'], kind))
            elif o['t'].get('n') == 'curerr' and o['t']['k'] == 'p': objs.append(s.evc('•CurrentError'))
            elif o['t'].get('n') == 'overflow': objs.append(s.overflow(o['t'].get('v', 0)))
            elif o['t']['k'] != 'p': objs.append(b.copy(s.fn(o['t'])))
            else: objs.append(s.evc(GL[o['t']['n']]))
        code = []; off = []; names = []; nid = {}
        def name(n):
            if n not in nid: nid[n] = len(names); names.append(n)
            return nid[n]
        name('unused')
        for bo in p['bodies']:
            off.append(len(code))
            for op, a, c in bo['code']:
                k = gen_vm.NARG.get(op, 0); code.append(gen_vm.OPN[op])
                if op in ('FLDO', 'ALIM'): code.append(name(a))
                else: code += [a, c][:k]
        bodies = []
        for i, bo in enumerate(p['bodies']):
            g = bo['given']; ex = {e[1] for e in bo['exp']}
            bodies.append(s.list_([b.makeF64(off[i]), b.makeF64(bo['nv']), nums([name(n) for n in bo['names'][g:]]), nums([1 if k in ex else 0 for k in range(g, bo['nv'])])]))
        blocks = [s.list_([b.makeF64(bl['ty']), b.makeF64(int(bl['imm'])), b.makeF64(bl['b'][0][0]) if i == 0 else s.list_([nums(l) for l in bl['b'][:5 if any(bl['b'][2:]) else 2]])]) for i, bl in enumerate(p['blocks'])]
        tok = s.list_([nums([]), nums([]), s.list_([s.list_([b.sv(n) for n in names])])])
        return s.list_([nums(code), s.list_(objs), s.list_(blocks), s.list_(bodies), nums([]), tok])
    ovf = None
    def overflow(s, v):
        """a block that calls itself without end: directly, through each, or through a fold"""
        if s.ovf is None:
            nl = lambda *n: s.b.makeF64Vec(len(n), (C.c_double*len(n))(*n)); s.ovf = []
            for extra, code in (([], [0x20,0,1, 0x20,0,0, 0x10, 7]), (['¨'], [0x20,0,1, 0x0B,1, 0,0, 0x20,0,0, 0x1A, 0x10, 7]), (['´'], [0x20,0,1, 0x20,0,1, 0x0B,2, 0,0, 0x20,0,0, 0x1A, 0x10, 7]),
                (['⟜', '+'], [0x20,0,1, 0,1, 0,0, 0x20,0,0, 0x1B, 0x10, 7])):
                s.ovf.append(s.call(s.compo, [nl(1,1,7,*code), s.list_([s.b.ev(x) for x in extra]) if extra else s.b.makeObjVec(0, (V*1)()), s.list_([nl(0,1,0), s.list_([s.b.makeF64(0), s.b.makeF64(0), s.list_([nl(1), nl(1)])])]), s.list_([nl(0,0), nl(3,3)])]))
        return s.b.copy(s.ovf[v])
    def evc(s, src):
        if src not in s.evs: s.evs[src] = s.b.ev(src)
        return s.b.copy(s.evs[src])
    evs = {}
    def jobP(s, j, seed):
        """outcome and log of a block program"""
        if not hasattr(s, 'log'): s.initrec()
        b = s.b; s.rs = j['r']; err = ERR in s.rs; outs = {}
        if not hasattr(s, 'mkP'): s.mkP = b.ev('{c←0⊑𝕩⋄((1˙)⋈C)⎊((0˙)⋈(•CurrentError⊢))}')
        for kind in ([2] if err else [0, 1][:j.get('n', 2)]):
            s.wrap = err; o = s.compobj(j['p'], kind); s.log = []; b.budget = 8000
            f = s.call(s.mkP, [b.copy(s.compo)]); r = b.call1(f, o); b.free(f); b.free(o)
            oc = s.outcome(r); b.free(r)
            if b.budget < 0: oc = [4]; s.log = []
            b.budget = 1 << 60
            outs.setdefault(json.dumps([oc, s.log]), []).append([kind])
        return outs
    def wrapper2(s, f, rw, rx):
        b = s.b; none = rw is None and rx is None
        pw = b.copy(s.prep(rw)) if rw is not None else b.copy(s.ident)
        px = b.copy(s.prep(rx)) if rx is not None else b.copy(s.ident)
        return s.call(s.mk3, [b.copy(f), pw, px])
    def wrapper(s, t, rw, rx, c=0):
        key = (json.dumps(t), rw, rx, c)
        if key in s.wr: return s.wr[key]
        f = s.fn(t); b = s.b; pr = lambda r: s.drop1 if r[0] else s.prep(r)
        pw = b.copy(pr(rw)) if rw is not None else b.makeF64(0)
        px = b.copy(pr(rx)) if rx is not None else b.copy(s.ident)
        r = s.call((s.mkc1 if rw is None else s.mkc2) if c else s.mk1 if rw is None else s.mk2, [b.copy(f), pw, px])
        s.wr[key] = r
        return r
    def mkdeep(s, v, rng):
        """like mk, with random representations of nested elements"""
        b = s.b
        if v[0] != 2: return b.mk(v)
        r = v[2]
        if not any(e[0] == 2 for e in r): return b.mk(v)
        es = []
        for e in r:
            q = s.mkdeep(e, rng)
            if e[0] == 2 and e[2]:
                var = rng.choice(variations(e, False))
                off = len(e[1]) > 0 and rng.random() < .2
                if var or off:
                    q2 = b.call1(s.prep((off, var)), q); b.free(q); q = q2
            es.append(q)
        n = len(es)
        sh = v[1]
        return b.makeObjArr(len(sh), (C.c_size_t*max(1, len(sh)))(*sh), (V*max(n, 1))(*es))
    def outcome(s, r, c=0):
        b = s.b
        if c: # ⟨1, result⟩ or ⟨0, ⟨message, ⟨𝕨,𝕩⟩⟩⟩
            p = b.pick(r, 0); ok = b.readF64(p); b.free(p); p = b.pick(r, 1)
            if ok: o = b.rd(p)
            else:
                e = b.rd(p); s.lasterr = ''.join(chr(k[1]) for k in e[2][0][2] if k[0] == 1) if e[2][0][0] == 2 else str(e[2][0])
                o = [4] if s.lasterr.startswith('Using an invalid ') else e[2][1]
            b.free(p); return o
        p = b.pick(r, 0); ok = b.readF64(p); b.free(p)
        p = b.pick(r, 1)
        if ok: o = b.rd(p)
        else:
            e = b.rd(p); o = [9]; s.lasterr = ''.join(chr(c[1]) for c in e[2] if c[0] == 1) if e[0] == 2 else str(e)
            if s.lasterr.startswith('Using an invalid '): o = [4]
        b.free(p)
        return o
    def parent(s, rep):
        return (True, (True, '')) if rep is not None and rep[0] else (False, rep)
    def mkparent(s, v, var):
        b = s.b
        if var: q = b.call1(s.prep((False, var)), v); b.free(v); v = q
        q = b.call1(s.pre1, v); b.free(v); return q, b.rd(q)
    def job(s, j, seed):
        rng = random.Random(seed)
        w, x = j['w'], j['x']; nf = j.get('h', 1)
        outs = {}
        xs = variations(x, nf) if x[0] == 2 else None
        ws = variations(w, nf) if w[0] == 2 else None
        if j.get('op'):
            for v, vs in ((x, xs), (w, ws)):
                if vs is None or not v[1] or not v[2]: continue
                num = all(e[0] in (0, 3) for e in v[2])
                for k in OPS:
                    if k == 'negneg' and not num or k in NFOP and not nf or k in ('cells', 'rowrev') and len(v[1]) < 2: continue
                    if k == 'group' and any(e[0] == 2 for e in v[2]): continue
                    vs.append('='+k)
        seen = set()
        for k in range(j.get('n', 3)):
            def pick(vs, v):
                if vs is None: return None if v is x else (False, '')
                if k == 0: return (False, '')
                return (rng.random() < .15 and len(v[1]) > 0 and v[1][0] > 0, rng.choice(vs))
            rx = pick(xs, x); rw = None if w == NOW else pick(ws, w)
            if (rw, rx) in seen and not any(e[0] == 2 for e in (x[2] if x[0] == 2 else [])): continue
            seen.add((rw, rx))
            # a slice is taken inside the call from a parent that stays in use
            fx, kx = s.parent(rx); fw, kw = s.parent(rw)
            f = s.wrapper(j['t'], kw, kx, j.get('c', 0))
            xv = s.mkdeep(x, rng); xc = x
            if fx: xv, xc = s.mkparent(xv, rx[1])
            if w == NOW: r = s.b.call1(f, xv)
            else:
                wv = s.mkdeep(w, rng); wc = w
                if fw: wv, wc = s.mkparent(wv, rw[1])
                r = s.b.call2(f, wv, xv)
                # arguments are still what they were
                if not hasfn(w) and s.b.rd(wv) != wc: outs.setdefault(json.dumps([5, 1]), []).append([rw, rx])
                s.b.free(wv)
            o = json.dumps(s.outcome(r, j.get('c', 0))); s.b.free(r)
            if not hasfn(x) and s.b.rd(xv) != xc: outs.setdefault(json.dumps([5, 2]), []).append([rw, rx])
            s.b.free(xv)
            outs.setdefault(o, []).append([rw, rx])
        return outs
def main():
    resource.setrlimit(resource.RLIMIT_AS, (3<<30, 3<<30))
    lib, jobs, start, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    R = Runner(lib)
    if len(sys.argv) > 5: R.b.ev(sys.argv[5])
    out = sys.stdout
    with open(jobs) as f:
        for i, line in enumerate(f):
            if i < start: continue
            j = json.loads(line)
            out.write('@%d\n' % i); out.flush()
            R.lasterr = ''
            if 'mod' in j: o = __import__('w_'+j['mod']).job(R, j, seed*1000003+i)
            else: o = (R.jobP if 'p' in j else R.jobR if 'r' in j else R.job)(j, seed*1000003+i)
            out.write(json.dumps([i, o, R.lasterr])+'\n')
    out.flush()
if __name__ == '__main__': main()
