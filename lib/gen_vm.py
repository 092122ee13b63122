"""random block programs: structured generation of virtual-machine code together with what scopes hold"""
import random
from bq import *
NSMALL = ['add', 'sub', 'floor', 'ceil', 'eq', 'lt', 'ge', 'ltack', 'rtack']
PM1 = ['swap', 'each', 'fold', 'scan', 'const', 'tbl', 'undo']
PM2 = ['atop', 'over', 'before', 'after', 'val', 'catch', 'cond', 'repeat']
OPN = dict(PUSH=0, DFND=1, POPS=6, RETN=7, RETD=8, LSTO=0x0B, LSTM=0x0C, ARMO=0x0D, ARMM=0x0E, FN1C=0x10, FN2C=0x11, FN1O=0x12, FN2O=0x13, TR2D=0x14, TR3D=0x15, CHKV=0x16, TR3O=0x17,
  MD1C=0x1A, MD2C=0x1B, VARO=0x20, VARM=0x21, VARU=0x22, PRED=0x2A, VFYM=0x2B, NOTM=0x2C, SETH=0x2F, SETN=0x30, SETU=0x31, SETM=0x32, SETC=0x33, FLDO=0x40, ALIM=0x42)
NARG = dict(PUSH=1, DFND=1, LSTO=1, LSTM=1, ARMO=1, ARMM=1, VARO=2, VARM=2, VARU=2, FLDO=1, ALIM=1)
class Var:
    def __init__(s, name, t, slot): s.name, s.t, s.slot = name, t, slot; s.captured = False; s.nomod = False; s.defd = True
class Sc:
    def __init__(s, par, given): s.par, s.given = par, given; s.vars = []; s.nv = given; s.code = []; s.w = False; s.given_vars = []
class G:
    def __init__(s, rng, err=.03, rec=.1, size=40, ov=0, cat=0, undo=.12):
        s.r = rng; s.objs = []; s.ok = {}; s.blocks = []; s.bodies = []; s.err = err; s.rec = rec; s.size = size; s.nn = 0; s.names = {}; s.ov = ov; s.cat = cat; s.undo = undo
    # objects
    def obj(s, o):
        k = json_key(o)
        if k not in s.ok: s.ok[k] = len(s.objs); s.objs.append(o)
        return s.ok[k]
    def c(s, v): return s.obj({'k': 'c', 'v': v})
    def p(s, n): return s.obj({'k': 't', 't': P(n)})
    def pm(s, a, n): return s.obj({'k': 'pm', 'a': a, 'n': n})
    def recf(s): return s.obj({'k': 't', 't': R(s.r.randrange(4))})
    def name(s): s.nn += 1; return 'v'+''.join('abcdefghij'[int(d)] for d in str(s.nn))
    def num(s): return [0, s.r.choice([0, 1, 1, 2, 3, -1, 5, 7])]
    def emit(s, sc, op, a=0, b=0): sc.code.append([op, a, b])
    def newvar(s, sc, t, name=None):
        v = Var(name or s.name(), t, sc.nv); sc.nv += 1; sc.vars.append(v); return v
    def find(s, sc, pred):
        o = []; d = 0
        while sc is not None:
            for v in sc.vars+sc.given_vars:
                if pred(v): o.append((d, v))
            sc = sc.par; d += 1
        return o
    def use(s, sc, d, v):
        if d: v.captured = True
        s.emit(sc, 'VARO', d, v.slot)
    def finish(s, sc, ret='RETN', exp=()):
        s.emit(sc, ret)
        nm = ['']*sc.nv
        for v in sc.vars: nm[v.slot] = v.name
        s.bodies.append({'code': sc.code, 'nv': sc.nv, 'given': sc.given, 'names': nm, 'exp': [[v.name, v.slot] for v in exp]})
        return len(s.bodies)-1
    def block(s, ty, imm, lists):
        s.blocks.append({'ty': ty, 'imm': imm, 'b': lists}); return len(s.blocks)-1
    # expressions: leave one value of type t
    def E(s, sc, t, f):
        s.size -= 1
        if s.size < 0: f = 0
        r = s.r.random()
        if r < .22 and f > 0:
            # assignment of a new or existing variable
            vs = s.find(sc, lambda v: v.t == t and v.defd and not v.nomod)
            q = s.r.random()
            if q < .5 or not vs:
                s.E(sc, t, f-1); v = s.newvar(sc, t); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETN')
            else:
                d, v = s.r.choice(vs)
                if d: v.captured = True
                if t == 'n' and q < .8:
                    if q < .7:
                        s.E(sc, 'n', f-1); s.F(sc, f-1); s.emit(sc, 'VARM', d, v.slot); s.emit(sc, 'SETM')
                    else: s.F1(sc, f-1); s.emit(sc, 'VARM', d, v.slot); s.emit(sc, 'SETC')
                elif t == 'l' and q < .8:
                    if s.r.random() < .5: s.E(sc, 'n', f-1); s.emit(sc, 'PUSH', s.p(s.r.choice(['join', 'add', 'rtack']))); s.emit(sc, 'VARM', d, v.slot); s.emit(sc, 'SETM'); s.emit(sc, 'PUSH', s.p('shape')); s.emit(sc, 'FN1C')
                    else: s.emit(sc, 'PUSH', s.p(s.r.choice(['rev', 'sub', 'rtack']))); s.emit(sc, 'VARM', d, v.slot); s.emit(sc, 'SETC')
                else: s.E(sc, t, f-1); s.emit(sc, 'VARM', d, v.slot); s.emit(sc, 'SETU')
            return
        if r < .27 and f > 1: return s.immblock(sc, t, f)
        if r < .27+(s.err if s.intry or not s.cat else .006) and f > 0 and t == 'n': return s.error(sc, f)
        getattr(s, 'E_'+(t if isinstance(t, str) else t[0]))(sc, t, f)
        if s.r.random() < .06: s.emit(sc, 'CHKV')
    def var(s, sc, t):
        vs = s.find(sc, lambda v: v.t == t and v.defd)
        if not vs: return False
        d, v = s.r.choice(vs[:6]) if s.r.random() < .6 else s.r.choice(vs)
        s.use(sc, d, v); return True
    def E_n(s, sc, t, f):
        R = s.r.random()
        if f <= 0 or R < .25:
            if s.r.random() < .7 and s.var(sc, 'n'): return
            s.emit(sc, 'PUSH', s.c(s.num())); return
        if R < .45: s.E(sc, 'n', f-1); s.F(sc, f-1); s.E(sc, 'n', f-1); s.emit(sc, 'FN2C'); return
        if R < .55: s.E(sc, 'n', f-1); s.F1(sc, f-1); s.emit(sc, 'FN1C'); return
        if R < .55+s.rec:
            s.E(sc, 'n', f-1)
            if s.r.random() < .5: s.emit(sc, 'PUSH', s.recf()); s.emit(sc, 'FN1C')
            else: s.emit(sc, 'PUSH', s.recf()); s.E(sc, 'n', f-1); s.emit(sc, 'FN2C')
            s.emit(sc, 'PUSH', s.p('pick')); s.emit(sc, 'FN1C'); return
        if R < .72:
            s.E(sc, 'l', f-1); q = s.r.random()
            if q < .4: s.fold(sc, f)
            elif q < .7: s.emit(sc, 'PUSH', s.p('match' if s.r.random() < .2 else 'nmatch')); s.emit(sc, 'FN1C'); s.emit(sc, 'PUSH', s.p('pick')) ; s.emit(sc, 'FN1C')
            else: s.emit(sc, 'PUSH', s.p('pick')); s.emit(sc, 'PUSH', s.c([0, s.r.choice([0, 0, 1, -1, 2])])); s.emit(sc, 'FN2C')
            if q >= .7 and s.r.random() < 1: return
            if q < .4: return
            return
        if R < .80: # namespace field
            g = s.find(sc, lambda v: isinstance(v.t, tuple) and v.t[0] == 'g' and v.defd)
            g = [(d, v) for d, v in g if any(x == 'n' for _, x in v.t[1])]
            if g:
                d, v = s.r.choice(g); s.use(sc, d, v)
                s.emit(sc, 'FLDO', s.r.choice([n for n, x in v.t[1] if x == 'n'])); return
        if R < .87: # several targets
            return s.destruct(sc, f)
        if R < .94: # 𝕨 when it may be absent
            w = s.wvar(sc)
            if w is not None:
                q = s.r.random()
                s.E(sc, 'n', f-1); s.F(sc, f-1); s.emit(sc, 'VARO', w, 2)
                if q < .4: s.opf(sc, f-1); s.emit(sc, 'FN1O') # a call that may be on nothing
                s.emit(sc, 'FN2O')
                return
        # a function that wants headers to match
        hs = s.find(sc, lambda v: v.t == 'h' and v.defd)
        if hs:
            d, v = s.r.choice(hs); q = s.r.random()
            s.E(sc, s.r.choice(['n', 'l', 'l']), f-1); s.use(sc, d, v)
            if q < .5: s.emit(sc, 'FN1C')
            else: s.E(sc, s.r.choice(['n', 'l']), f-1); s.emit(sc, 'FN2C')
            return
        s.E_n(sc, t, f-1)
    def fold(s, sc, f):
        s.F(sc, f-1)
        # MD1C: modifier below the operand
        code = sc.code; 
        s.wrap1(sc, 'fold', None)
        s.emit(sc, 'PUSH', s.c(s.num())); s.emit(sc, 'FN2C')
    def wrap1(s, sc, n, _):
        """the value on top of the stack becomes operand of primitive 1-modifier n (code order: modifier first)"""
        # operand code was just emitted: find where it starts by stack balance
        i = start_of_top(sc.code)
        sc.code.insert(i, ['PUSH', s.pm(1, n), 0]); s.emit(sc, 'MD1C')
    def wvar(s, sc):
        d = 0
        while sc is not None:
            if sc.w: return d
            if sc.given >= 3: return None
            sc = sc.par; d += 1
        return None
    def E_l(s, sc, t, f):
        R = s.r.random()
        if f <= 0 or R < .25:
            if s.r.random() < .7 and s.var(sc, 'l'): return
            s.emit(sc, 'PUSH', s.c(lst([s.num() for _ in range(s.r.choice([1, 2, 2, 3, 3, 4, 6]))]))); return
        if R < .5:
            n = s.r.choice([1, 2, 2, 3])
            for _ in range(n): s.E(sc, 'n', f-1)
            s.emit(sc, 'LSTO', n); return
        if R < .8: # mapping, often enough times for the body to be compiled
            s.E(sc, 'l', f-1)
            q = s.r.random()
            if q < .6: s.F1(sc, f-1); s.wrap1(sc, 'each', None); s.emit(sc, 'FN1C')
            elif q < .8: s.F(sc, f-1); s.wrap1(sc, 'scan', None); s.emit(sc, 'FN1C')
            else: s.F(sc, f-1); s.wrap1(sc, 'each', None); s.E(sc, 'n', f-1); s.emit(sc, 'FN2C')
            return
        if R < .83:
            n = s.r.choice([1, 2, 3])
            for _ in range(n): s.E(sc, 'n', f-1)
            s.emit(sc, 'ARMO', n); return
        if R < .9: s.E(sc, 'l', f-1); s.emit(sc, 'PUSH', s.p(s.r.choice(['rev', 'rtack', 'gradeU', 'sub']))); s.emit(sc, 'FN1C'); return
        s.E(sc, 'l', f-1); s.emit(sc, 'PUSH', s.p(s.r.choice(['add', 'join', 'sub', 'ceil']))); s.E(sc, 'n', f-1); s.emit(sc, 'FN2C')
    def opf(s, sc, f):
        """a function with constant parts"""
        q = s.r.random(); pr = lambda: s.p(s.r.choice(['add', 'sub', 'floor', 'rtack', 'ceil']))
        def chk():
            if s.r.random() < .4: s.emit(sc, 'CHKV')
        if q < .5: s.emit(sc, 'PUSH', s.c(s.num())); chk(); s.emit(sc, 'PUSH', s.pm(2, 'after')); s.emit(sc, 'PUSH', pr()); chk(); s.emit(sc, 'MD2C')
        elif q < .7: s.emit(sc, 'PUSH', pr()); chk(); s.emit(sc, 'PUSH', s.pm(2, 'before')); s.emit(sc, 'PUSH', s.c(s.num())); chk(); s.emit(sc, 'MD2C')
        elif q < .85: s.emit(sc, 'PUSH', s.pm(1, 'swap')); s.emit(sc, 'PUSH', pr()); chk(); s.emit(sc, 'MD1C')
        else: s.fn(sc, f, True)
    def F1(s, sc, f):
        """a function called with one number"""
        if s.r.random() < .15: s.emit(sc, 'PUSH', s.p(s.r.choice(['sub', 'not', 'floor', 'stile', 'rtack']))); return
        s.F(sc, f, mon=True)
    def F(s, sc, f, mon=False): s.fn(sc, f, mon)
    def fn(s, sc, f, mon=False):
        R = s.r.random(); s.size -= 1
        if s.size < 0: f = 0
        def prim(): s.emit(sc, 'PUSH', s.p(s.r.choice(['sub', 'rtack', 'floor', 'ltack', 'ceil', 'add'] if mon else NSMALL)))
        if f <= 0 or R < .2:
            if s.r.random() < .75 and s.var(sc, 'f'): return
            return prim()
        if s.cat and s.r.random() < s.cat: R = .66
        if R < .25:
            g = [(d, v) for d, v in s.find(sc, lambda v: isinstance(v.t, tuple) and v.t[0] == 'g' and v.defd) if any(x == 'f' for _, x in v.t[1])]
            if g: d, v = s.r.choice(g); s.use(sc, d, v); s.emit(sc, 'FLDO', s.r.choice([n for n, x in v.t[1] if x == 'f'])); return
        if R < .35:
            if s.var(sc, 'f'): return
        if R < .55: return s.fblock(sc, f)
        if R < .59 and s.r.random() < .3: return s.opf(sc, f)
        if R < .63: # combinators
            n = s.r.choice(['atop', 'over', 'before', 'after', 'val', 'repeat'])
            if n == 'repeat': s.emit(sc, 'PUSH', s.c([0, s.r.choice([0, 1, 2, 3, 5])]))
            elif n in ('before', 'after') and s.r.random() < .4: (s.emit(sc, 'PUSH', s.c(s.num())) if n == 'after' else s.fn(sc, f-1, True if n == 'over' else False))
            else: s.fn(sc, f-1, mon if n in ('atop',) else n != 'val')
            s.emit(sc, 'PUSH', s.pm(2, n)); 
            # ⟨g, m, f⟩
            s.fn(sc, f-1, n == 'atop'); s.emit(sc, 'MD2C')
            return
        if R < .70:
            s.emit(sc, 'PUSH', s.pm(2, 'catch')) if 0 else None
            s.handler(sc, f-1); s.emit(sc, 'PUSH', s.pm(2, 'catch')); s.tryf(sc, f-1, mon); s.emit(sc, 'MD2C'); return
        if R < .78:
            q = s.r.random()
            s.fn(sc, f-1, mon); s.fn(sc, f-1, q < .35)
            if q < .35: s.emit(sc, 'TR2D')
            else:
                if q < .5: s.emit(sc, 'PUSH', s.c(s.num())); s.emit(sc, 'TR3D')
                elif q < .65 and s.wvar(sc) is not None: s.emit(sc, 'VARO', s.wvar(sc), 2); s.emit(sc, 'TR3O')
                else: s.fn(sc, f-1, mon); s.emit(sc, 'TR3D' if q < .9 else 'TR3O')
            return
        if R < .86: # user 1-modifier
            ms = s.find(sc, lambda v: v.t in ('m', 'M') and v.defd)
            if ms and s.r.random() < .7: d, v = s.r.choice(ms); s.use(sc, d, v)
            else: s.mblock(sc, f, 1)
            s.fn(sc, f-1); s.emit(sc, 'MD1C'); return
        if R < .91:
            ms = s.find(sc, lambda v: v.t == 'm2' and v.defd)
            s.fn(sc, f-1)
            if ms and s.r.random() < .7: d, v = s.r.choice(ms); s.use(sc, d, v)
            else: s.mblock(sc, f, 2)
            s.fn(sc, f-1); s.emit(sc, 'MD2C'); return
        if R < .95: # choose
            s.fn(sc, f-1, mon); s.fn(sc, f-1, mon); s.emit(sc, 'LSTO', 2); s.emit(sc, 'PUSH', s.pm(2, 'cond'))
            sel = Sc(sc, 3); s.given(sel, 0, False, 'n'); s.E(sel, 'n', 1); s.emit(sel, 'PUSH', s.p('lt')); s.emit(sel, 'PUSH', s.c([0, 1])); s.emit(sel, 'FN2C')
            b = s.finish(sel); s.emit(sc, 'DFND', s.block(0, False, [[b], [b], [], [], []])); s.emit(sc, 'MD2C'); return
        ks = s.find(sc, lambda v: v.t == 'k' and v.defd)
        if ks: d, v = s.r.choice(ks); s.E(sc, 'n', f-1); s.use(sc, d, v); s.emit(sc, 'FN1C'); return
        s.fblock(sc, f)
    def given(s, sc, ty, imm, xt, w=False):
        """variables given to a body"""
        sc.given_vars = []
        def gv(slot, t, nomod=False):
            v = Var('', t, slot); v.nomod = nomod; sc.given_vars.append(v)
        if not imm:
            if xt: gv(1, xt)
            if w is True: gv(2, 'n')
            if w == 'maybe': sc.w = True
            if ty >= 1: gv(4, 'f', True)
            if ty == 2: gv(5, 'f', True)
        else:
            gv(1, 'f', True)
            if ty == 2: gv(2, 'f', True)
    def stmts(s, sc, f, n):
        for _ in range(n):
            t = s.r.choice(['n', 'n', 'n', 'l', 'f', 'g', 'm', 'k', 'h', 'm2'] if f > 1 else ['n', 'n', 'l'])
            s.stmt(sc, t, f)
    def stmt(s, sc, t, f):
        if s.size < 0: return
        if t in ('n', 'l'): s.E(sc, t, f)
        else:
            tt = t
            if t == 'f': s.fn(sc, f)
            elif t == 'g': tt = s.nsblock(sc, f)
            elif t in ('m', 'm2'): s.mblock(sc, f, 2 if t == 'm2' else 1)
            elif t == 'k': s.kblock(sc, f)
            elif t == 'h': s.hblock(sc, f)
            v = s.newvar(sc, tt); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETN')
            if t == 'g' and s.r.random() < .5:
                # destructuring a namespace
                s.emit(sc, 'POPS'); s.use(sc, 0, v); k = 0; new = []
                for n, x in tt[1]:
                    if s.r.random() < .7:
                        if s.r.random() < .5 and not any(q.name == n for q in sc.vars): new.append((n, x)); v2 = s.newvar(sc, x, n); v2.defd = False; s.emit(sc, 'VARM', 0, v2.slot)
                        else: v2 = s.newvar(sc, x); v2.defd = False; s.emit(sc, 'VARM', 0, v2.slot); s.emit(sc, 'ALIM', n)
                        k += 1; new.append(v2)
                if s.r.random() < s.err and k: v2 = s.newvar(sc, 'n'); s.emit(sc, 'VARM', 0, v2.slot); s.emit(sc, 'ALIM', 'nosuch'); k += 1; v2.defd = False
                s.emit(sc, 'LSTM', k); s.emit(sc, 'SETN')
                for v2 in new:
                    if isinstance(v2, Var): v2.defd = True
        s.emit(sc, 'POPS')
    def ret(s, sc, t, f):
        vs = [v for v in sc.vars if v.t == t and v.defd and not v.captured]
        if vs and s.r.random() < .3: s.emit(sc, 'VARU', 0, s.r.choice(vs).slot)
        else: s.E(sc, t, f) if t in ('n', 'l') else s.fn(sc, f)
    def immblock(s, sc, t, f):
        b = Sc(sc, 0); s.stmts(b, f-1, s.r.choice([0, 1, 2])); s.ret(b, t, f-1); bi = s.finish(b)
        s.emit(sc, 'DFND', s.block(0, True, [[bi], [], [], [], []]))
    def numbody(s, sc, ty, f, arity, xt='n', pre=None):
        """body giving a number; arity 1, 2 or 0 for both"""
        b = Sc(sc, 3+ty+(ty > 0)); s.given(b, ty, False, xt, True if arity == 2 else 'maybe' if arity == 0 else False)
        if pre: pre(b)
        s.stmts(b, f-1, s.r.choice([0, 0, 1, 2])); s.ret(b, 'n', f-1)
        return s.finish(b)
    def innerx(s, b, mod):
        """an immediate block reading, and perhaps changing, the 𝕩 of body b"""
        i = Sc(b, 0)
        if mod: s.emit(i, 'PUSH', s.c(s.num())); s.emit(i, 'PUSH', s.p('sub')); s.emit(i, 'VARM', 1, 1); s.emit(i, 'SETM')
        else: s.emit(i, 'VARO', 1, 1)
        b.given_vars[0].captured = True
        bi = s.finish(i); s.emit(b, 'DFND', s.block(0, True, [[bi], [], [], [], []]))
    def lists(s, sc, ty, f, body):
        q = s.r.random()
        if q < .5: b = body(0); L = [[b], [b], [], [], []]
        else: b = body(1); c = body(2); L = [[b], [c], [], [], []]
        return L
    def fblock(s, sc, f):
        if s.r.random() < .2: return s.recblock(sc, f)
        L = s.lists(sc, 0, f, lambda a: s.numbody(sc, 0, f, a))
        if s.r.random() < .25: # bodies chosen by predicate first
            def pred(b):
                if s.r.random() < .5: # the body changes its own 𝕩 first
                    s.emit(b, 'PUSH', s.c(s.num())); s.emit(b, 'PUSH', s.p('add')); s.emit(b, 'VARM', 0, 1); s.emit(b, 'SETM'); s.emit(b, 'POPS')
                if s.r.random() < .3: s.innerx(b, s.r.random() < .5); s.emit(b, 'POPS')
                if s.r.random() < .3:
                    s.innerx(b, False); s.emit(b, 'PUSH', s.p('lt')); s.emit(b, 'PUSH', s.c(s.num())); s.emit(b, 'FN2C'); s.emit(b, 'PRED'); return
                s.E(b, 'n', 1); s.emit(b, 'PUSH', s.p(s.r.choice(['lt', 'eq', 'ge']))); s.emit(b, 'PUSH', s.c(s.num())); s.emit(b, 'FN2C'); s.emit(b, 'PRED')
            b = s.numbody(sc, 0, f, 0, pre=pred); L[0] = sorted([b]+L[0]); L[1] = sorted([b]+L[1])
            # the predicate body must come first in order
            if L[0][0] != b: s.reorder(L, b)
        if s.r.random() < s.undo: # also with undo headers
            for k, a in ((2, 1), (3, 2), (4, 2)):
                if s.r.random() < .8: L[k] = [s.numbody(sc, 0, f-1, a)]
            s.emit(sc, 'PUSH', s.pm(1, 'undo')); q = s.r.random(); sw = 0 if q < .35 else 1 if q < .55 else s.r.choice([2, 2, 3]) if q < .65 else s.r.choice([0, 0, 1, 2])
            if q > .65: # with one argument bound
                bef = s.r.random() < .5
                if not bef: s.emit(sc, 'PUSH', s.c(s.num())); s.emit(sc, 'PUSH', s.pm(2, 'after'))
                for _ in range(sw): s.emit(sc, 'PUSH', s.pm(1, 'swap'))
                s.emit(sc, 'DFND', s.block(0, False, L))
                for _ in range(sw): s.emit(sc, 'MD1C')
                if bef: s.emit(sc, 'PUSH', s.pm(2, 'before')); s.emit(sc, 'PUSH', s.c(s.num()))
                s.emit(sc, 'MD2C'); s.emit(sc, 'MD1C')
                return
            for _ in range(sw): s.emit(sc, 'PUSH', s.pm(1, 'swap'))
            s.emit(sc, 'DFND', s.block(0, False, L))
            for _ in range(sw): s.emit(sc, 'MD1C')
            s.emit(sc, 'MD1C'); return
        s.emit(sc, 'DFND', s.block(0, False, L))
    def reorder(s, L, b):
        """make body b the first of the lists by moving the others after it"""
        for k in (0, 1):
            o = [x for x in L[k] if x != b]; n = []
            for x in o:
                if x < b:
                    y = s.moved.get(x) if hasattr(s, 'moved') else None
                    if y is None or y < b:
                        s.bodies.append(dict(s.bodies[x])); y = len(s.bodies)-1
                        s.bodies[x] = None
                        s.moved = getattr(s, 'moved', {}); s.moved[x] = y
                    n.append(y)
                else: n.append(x)
            L[k] = [b]+sorted(n)
    def recblock(s, sc, f):
        """recursion of bounded depth: {𝕩<1 ? base ; … 𝕊 (4⌊𝕩)-1}"""
        b = Sc(sc, 3); s.given(b, 0, False, 'n')
        b1 = b
        s.emit(b, 'PUSH', s.c([0, 1])); s.emit(b, 'PUSH', s.p('lt')); s.emit(b, 'VARO', 0, 1); s.emit(b, 'FN2C'); s.emit(b, 'PRED')
        s.E(b, 'n', f-1); i1 = s.finish(b)
        b = Sc(sc, 3); s.given(b, 0, False, 'n'); b.given_vars[0].nomod = True
        s.stmts(b, f-2, s.r.choice([0, 1]))
        s.E(b, 'n', f-2)
        s.emit(b, 'PUSH', s.c([0, 1])); s.emit(b, 'PUSH', s.p('sub')); s.emit(b, 'VARO', 0, 1); s.emit(b, 'PUSH', s.p('floor')); s.emit(b, 'PUSH', s.c([0, 4])); s.emit(b, 'FN2C'); s.emit(b, 'FN2C')
        s.emit(b, 'VARO', 0, 0); s.emit(b, 'FN1C')
        v = s.newvar(b, 'n'); s.emit(b, 'VARM', 0, v.slot); s.emit(b, 'SETN')
        s.emit(b, 'PUSH', s.p('add')) if 0 else None
        # stack: E, rec  →  rec + E
        b.code.insert(len(b.code), ['PUSH', s.p('add'), 0]) if 0 else None
        s.emit(b, 'LSTO', 2); s.fold(b, 1)
        i2 = s.finish(b)
        s.emit(sc, 'DFND', s.block(0, False, [[i1, i2], [i1, i2], [], [], []]))
    def mblock(s, sc, f, ty):
        if s.r.random() < .35: # immediate: gives a function
            b = Sc(sc, 1+ty); s.given(b, ty, True, None); s.stmts(b, f-1, s.r.choice([0, 1])); s.fn(b, f-1); bi = s.finish(b)
            s.emit(sc, 'DFND', s.block(ty, True, [[bi], [], [], [], []])); return
        L = s.lists(sc, ty, f, lambda a: s.numbody(sc, ty, f, a))
        s.emit(sc, 'DFND', s.block(ty, False, L))
    def kblock(s, sc, f):
        b = Sc(sc, 3); s.given(b, 0, False, 'n'); s.stmts(b, f-1, s.r.choice([0, 1, 2])); s.fblock(b, f-1); bi = s.finish(b)
        s.emit(sc, 'DFND', s.block(0, False, [[bi], [], [], [], []]))
    def nsblock(s, sc, f):
        b = Sc(sc, 0); s.stmts(b, f-1, s.r.choice([1, 2, 3]))
        for t in s.r.sample(['n', 'n', 'f', 'l'], 2):
            s.stmt(b, t, 1)
        own = [v for v in b.vars if v.defd]; ex = []
        for v in own:
            if s.r.random() < .7: ex.append(v)
        bi = s.finish(b, 'RETD', ex)
        s.emit(sc, 'DFND', s.block(0, True, [[bi], [], [], [], []]))
        return ('g', tuple((v.name, v.t) for v in ex))
    def pattern(s, b, depth=0):
        """emits a header target; returns the variables to define"""
        q = s.r.random()
        if q < .35 or depth > 1: v = s.newvar(b, 'n' if depth else 'x'); s.emit(b, 'VARM', 0, v.slot); return [v]
        if q < .5: s.emit(b, 'PUSH', s.c(s.num() if s.r.random() < .7 else lst([s.num() for _ in range(2)]))); s.emit(b, 'VFYM'); return []
        if q < .58: s.emit(b, 'NOTM'); return []
        n = s.r.choice([1, 2, 2, 3]); o = []
        for _ in range(n): o += s.pattern(b, depth+1)
        if q < .85: s.emit(b, 'LSTM', n)
        else:
            s.emit(b, 'ARMM', n)
            for v in o: v.t = 'x'
        return o
    def hblock(s, sc, f):
        lists = [[], []]
        for _ in range(s.r.choice([1, 2, 3])):
            b = Sc(sc, 3); s.given(b, 0, False, None); ar = s.r.choice([0, 1, 2])
            vs = []
            s.emit(b, 'VARO', 0, 1); vs += s.pattern(b); s.emit(b, 'SETH')
            if ar == 2: s.emit(b, 'VARO', 0, 2); vs += s.pattern(b); s.emit(b, 'SETH')
            for v in vs:
                if v.t == 'x': v.defd = False
            for v in vs:
                if s.r.random() < .5: s.emit(b, 'VARO', 0, v.slot); s.emit(b, 'PUSH', s.recf()); s.emit(b, 'FN1C'); s.emit(b, 'POPS')
            if s.r.random() < .2: s.E(b, 'n', 1); s.emit(b, 'PUSH', s.p('lt')); s.emit(b, 'PUSH', s.c(s.num())); s.emit(b, 'FN2C'); s.emit(b, 'PRED')
            s.stmts(b, f-1, s.r.choice([0, 1])); s.ret(b, 'n', f-1); bi = s.finish(b)
            if ar in (0, 1): lists[0].append(bi)
            if ar in (0, 2): lists[1].append(bi)
        if s.r.random() < .6:
            bi = s.numbody(sc, 0, f-1, 0, xt=None); lists[0].append(bi); lists[1].append(bi)
        s.emit(sc, 'DFND', s.block(0, False, lists+[[], [], []]))
    def destruct(s, sc, f):
        n = s.r.choice([1, 2, 2, 3]); mism = s.r.random() < s.err
        q = s.r.random()
        for _ in range(n+mism): s.E(sc, 'n', f-1)
        s.emit(sc, 'LSTO', n+mism)
        # targets: new variables, existing ones for ↩, nothing, nested lists
        vs = s.find(sc, lambda v: v.t == 'n' and v.defd and not v.nomod)
        if q < .3 and len(vs) >= 1: # update, also modified
            tg = [s.r.choice(vs) for _ in range(n)]
            mod = s.r.random() < .4 and len({(d, v.slot) for d, v in tg}) == n
            if mod: s.emit(sc, 'PUSH', s.p(s.r.choice(['add', 'sub', 'ltack'])))
            for d, v in tg:
                if d: v.captured = True
                s.emit(sc, 'VARM', d, v.slot)
            s.emit(sc, 'LSTM', n); s.emit(sc, 'SETM' if mod else 'SETU')
        else:
            new = []
            for _ in range(n):
                if s.r.random() < .15: s.emit(sc, 'NOTM')
                else: v = s.newvar(sc, 'n'); v.defd = False; new.append(v); s.emit(sc, 'VARM', 0, v.slot)
            arm = s.r.random() < .2
            s.emit(sc, 'ARMM' if arm else 'LSTM', n); s.emit(sc, 'SETN')
            if not arm and not mism:
                for v in new: v.defd = True
        s.emit(sc, 'PUSH', s.p('nmatch')); s.emit(sc, 'FN1C'); s.emit(sc, 'PUSH', s.p('pick')); s.emit(sc, 'FN1C')
    ov = 0; intry = 0
    def error(s, sc, f):
        q = s.r.random()
        if s.ov and q < s.ov: # failures of builtins and endless recursion
            q = s.r.random(); q2 = s.r.random()
            if q < .2: s.E(sc, 'n', f-1); s.emit(sc, 'PUSH', s.obj({'k': 't', 't': dict(P('overflow'), v=s.r.randrange(4))})); s.emit(sc, 'FN1C')
            elif q < .4: # an index that may be outside
                s.E(sc, 'l', f-1); s.emit(sc, 'PUSH', s.p('pick')); s.E(sc, 'n', f-1); s.emit(sc, 'FN2C')
            elif q < .55: # lengths that may differ
                s.E(sc, 'l', f-1); s.emit(sc, 'PUSH', s.p(s.r.choice(['add', 'sub', 'eq', 'ceil']))); s.E(sc, 'l', f-1); s.emit(sc, 'FN2C'); s.fold(sc, f)
            elif q < .65: s.E(sc, 'l', f-1); s.emit(sc, 'PUSH', s.p(s.r.choice(['select', 'shape', 'slash', 'drop', 'couple']))); s.E(sc, s.r.choice('nl'), f-1); s.emit(sc, 'FN2C'); s.emit(sc, 'PUSH', s.p('match')); s.emit(sc, 'FN1C')
            elif q < .72: s.E(sc, 'l', f-1); s.emit(sc, 'PUSH', s.p(s.r.choice(['join', 'transp', 'shape', 'gradeD', 'merge', 'not', 'and', 'or']).replace('merge', 'gt'))); s.emit(sc, 'FN1C'); s.emit(sc, 'PUSH', s.p('match')); s.emit(sc, 'FN1C')
            elif q < .8: s.E(sc, 'n', f-1); s.emit(sc, 'PUSH', s.p(s.r.choice(['rev', 'gradeU', 'slash', 'and', 'transp']))); s.emit(sc, 'FN1C'); s.emit(sc, 'PUSH', s.p('match')); s.emit(sc, 'FN1C')
            elif q < .9: # fails part of the way through a mapping
                s.E(sc, 'l', f-1); s.tryf(sc, f-1, True); s.wrap1(sc, 'each', None); s.emit(sc, 'FN1C'); s.fold(sc, f)
            else: s.E(sc, 'l', f-1); s.tryf(sc, f-1, False); s.wrap1(sc, s.r.choice(['fold', 'fold', 'insert']), None); s.emit(sc, 'FN1C')
            return
        q = s.r.random()
        if q < .5:
            s.emit(sc, 'PUSH', s.c([0, 0])); s.emit(sc, 'PUSH', s.p('assert'))
            if s.r.random() < .7: s.emit(sc, 'PUSH', s.c(st(s.r.choice(['aa', 'bb', 'cc'])) if s.r.random() < .7 else s.num())); s.emit(sc, 'FN2C')
            else: s.emit(sc, 'FN1C')
        elif q < .65: v = s.newvar(sc, 'n'); v.defd = False; s.emit(sc, 'VARO', 0, v.slot)
        elif q < .8: v = s.newvar(sc, 'n'); v.defd = False; s.E(sc, 'n', f-1); s.emit(sc, 'VARM', 0, v.slot); s.emit(sc, 'SETU')
        elif q < .9: s.E(sc, 'n', f-1); s.emit(sc, 'FLDO', 'nofield')
        else:
            v = s.r.choice(s.find(sc, lambda v: v.t == 'n' and v.defd and not v.nomod) or [(0, None)])
            if v[1] is None: s.emit(sc, 'PUSH', s.c(s.num()))
            else:
                v[1].captured = True
                s.emit(sc, 'PUSH', s.c([0, 0])); s.emit(sc, 'PUSH', s.p('assert')); s.emit(sc, 'VARM', v[0], v[1].slot); s.emit(sc, 'SETM')
    def tryf(s, sc, f, mon):
        """a function likely to fail on some arguments"""
        s.intry += 1
        try: s.tryf_(sc, f, mon)
        finally: s.intry -= 1
    def tryf_(s, sc, f, mon):
        if s.r.random() < .3: return s.fn(sc, f, mon)
        b = Sc(sc, 3); s.given(b, 0, False, 'n', False if mon else 'maybe'); s.stmts(b, f, s.r.choice([0, 1]))
        if s.r.random() < .7:
            # fails when 𝕩 is small
            s.E(b, 'n', f); s.emit(b, 'PUSH', s.p(s.r.choice(['lt', 'ge', 'eq']))); s.emit(b, 'VARO', 0, 1); s.emit(b, 'FN2C'); s.emit(b, 'PUSH', s.p('assert'))
            if s.r.random() < .7: s.emit(b, 'PUSH', s.c(st(s.r.choice(['e1', 'e2', 'e3'])))); s.emit(b, 'FN2C')
            else: s.emit(b, 'FN1C')
            s.emit(b, 'POPS')
        s.stmts(b, f-1, s.r.choice([0, 1])); s.E(b, 'n', f); bi = s.finish(b)
        s.emit(sc, 'DFND', s.block(0, False, [[bi], [bi], [], [], []]))
    def nested(s, b, f):
        """a statement that fails and is caught, inside a handler"""
        s.emit(b, 'VARO', 0, 1)
        if s.r.random() < .5 and f > 0: s.handler(b, f-1)
        else: s.emit(b, 'PUSH', s.p(s.r.choice(['ltack', 'sub', 'floor'])))
        s.emit(b, 'PUSH', s.pm(2, 'catch'))
        c = Sc(b, 3); s.given(c, 0, False, 'n', 'maybe'); s.emit(c, 'PUSH', s.c([0, 0])); s.emit(c, 'PUSH', s.p('assert')); s.emit(c, 'PUSH', s.c(st(s.r.choice(['n1', 'n2'])))); s.emit(c, 'FN2C'); bi = s.finish(c)
        s.emit(b, 'DFND', s.block(0, False, [[bi], [bi], [], [], []])); s.emit(b, 'MD2C')
        s.emit(b, 'FN1C'); s.emit(b, 'POPS')
    def handler(s, sc, f):
        b = Sc(sc, 3); s.given(b, 0, False, 'n', 'maybe')
        if s.r.random() < .7: # log the message
            s.emit(b, 'PUSH', s.c([0, 0])); s.emit(b, 'PUSH', s.obj({'k': 't', 't': P('curerr')})); s.emit(b, 'FN1C'); s.emit(b, 'PUSH', s.recf()); s.emit(b, 'VARO', 0, 1); s.emit(b, 'FN2C'); s.emit(b, 'POPS')
        s.stmts(b, f-1, s.r.choice([0, 0, 1]))
        if s.r.random() < .15: s.emit(b, 'PUSH', s.c([0, 0])); s.emit(b, 'PUSH', s.p('assert')); s.emit(b, 'PUSH', s.c(st('hh'))); s.emit(b, 'FN2C'); s.emit(b, 'POPS')
        nest = s.r.random() < .3
        if nest: s.nested(b, f-1)
        if s.r.random() < (.9 if nest else .2): # the current error again, after other catches
            s.emit(b, 'PUSH', s.c([0, 0])); s.emit(b, 'PUSH', s.obj({'k': 't', 't': P('curerr')})); s.emit(b, 'FN1C'); s.emit(b, 'PUSH', s.recf()); s.emit(b, 'FN1C'); s.emit(b, 'POPS')
        s.E(b, 'n', f); bi = s.finish(b)
        s.emit(sc, 'DFND', s.block(0, False, [[bi], [bi], [], [], []]))
    def main(s, n):
        s.blocks.append(None)
        b = Sc(None, 0); s.stmts(b, 4, n)
        k = 0
        for v in b.vars:
            if v.defd and v.t in ('n', 'l') and k < 12: s.emit(b, 'VARO', 0, v.slot); k += 1
        s.size = 5
        s.E(b, 'n', 1); s.emit(b, 'LSTO', k+1)
        bi = s.finish(b); s.blocks[0] = {'ty': 0, 'imm': True, 'b': [[bi], [], [], [], []]}
        for i, q in enumerate(s.bodies):
            if q is None: s.bodies[i] = {'code': [['RETD', 0, 0]], 'nv': 0, 'given': 0, 'names': [], 'exp': []}
        return {'objs': s.objs, 'blocks': s.blocks, 'bodies': s.bodies}
def json_key(o):
    import json
    return json.dumps(o, sort_keys=True)
EFF = dict(PUSH=(0, 1), DFND=(0, 1), POPS=(1, 0), FN1C=(2, 1), FN2C=(3, 1), FN1O=(2, 1), FN2O=(3, 1), TR2D=(2, 1), TR3D=(3, 1), TR3O=(3, 1), CHKV=(1, 1), MD1C=(2, 1), MD2C=(3, 1), VARO=(0, 1), VARM=(0, 1),
  VARU=(0, 1), PRED=(1, 0), VFYM=(1, 1), NOTM=(0, 1), SETH=(2, 0), SETN=(2, 1), SETU=(2, 1), SETM=(3, 1), SETC=(2, 1), FLDO=(1, 1), ALIM=(1, 1))
def start_of_top(code):
    """index of the first instruction of the expression that made the top of the stack"""
    need = 1; i = len(code)
    while need > 0:
        i -= 1; op = code[i][0]
        c, p = (code[i][1], 1) if op in ('LSTO', 'LSTM', 'ARMO', 'ARMM') else EFF[op]
        need += c-p
    return i
def program(rng, **kw):
    g = G(rng, **kw); return g.main(rng.choice([2, 3, 4, 6]))
def gen_C14(seed, scale):
    rng = random.Random(seed); jobs = []
    for i in range(int(700*scale)):
        rec = rng.choice([.1, .25, .4]); err = rng.choice([0, 0, .02, .06])
        while True:
            try: p = program(rng, size=rng.choice([30, 60, 100, 200]), err=err, rec=rec)
            except RecursionError: continue
            break
        r = [] if rng.random() < .7 else [lst([[0, rng.choice([0, 1, 2, 5])]]) if rng.random() < .9 else ERR for _ in range(5)]
        jobs.append({'p': p, 'r': r, 'n': 1})
    return jobs

def gen_C11(seed, scale):
    """programs whose functions have undo headers"""
    rng = random.Random(seed); jobs = []
    for i in range(int(700*scale)):
        while True:
            try: p = program(rng, size=rng.choice([30, 60, 100]), err=rng.choice([0, 0, .03]), rec=.05, undo=.75)
            except RecursionError: continue
            break
        jobs.append({'p': p, 'r': [] if rng.random() < .7 else [lst([[0, rng.choice([0, 1, 2, 5])]]) for _ in range(5)], 'n': 1})
    return jobs

def gen_C12(seed, scale):
    """programs in which much fails and much is caught"""
    rng = random.Random(seed); jobs = []
    for i in range(int(700*scale)):
        rec = rng.choice([.15, .3, .4]); err = rng.choice([.04, .08, .15])
        while True:
            try: p = program(rng, size=rng.choice([40, 80, 120, 200]), err=err, rec=rec, ov=.7, cat=rng.choice([.15, .3]))
            except RecursionError: continue
            break
        q = rng.random()
        r = [] if q < .5 else [ERR if rng.random() < .15 else lst([[0, rng.choice([0, 1, 2, 5])]]) for _ in range(rng.choice([3, 5, 7]))]
        jobs.append({'p': p, 'r': r, 'n': 1})
    return jobs
